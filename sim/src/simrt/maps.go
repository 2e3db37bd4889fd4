package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

type allocRec struct {
	n    uint64
	keep unsafe.Pointer
}

// Alloc gives a freshly allocated object a serial number, which orders map
// iteration over pointer keys.
func Alloc[T any](p *T) *T {
	r := R
	if r != nil && !r.over {
		r.serialN++
		r.serials[uintptr(unsafe.Pointer(p))] = allocRec{n: r.serialN, keep: unsafe.Pointer(p)}
	}
	return p
}

func serialOf(p uintptr) uint64 {
	r := R
	if r == nil {
		return 0
	}
	if a, ok := r.serials[p]; ok {
		return a.n
	}
	r.serialN++
	r.serials[p] = allocRec{n: r.serialN}
	return r.serialN
}

func cmpVal(a, b reflect.Value) int {
	if a.Kind() != b.Kind() {
		return cmp.Compare(int(a.Kind()), int(b.Kind()))
	}
	switch a.Kind() {
	case reflect.Bool:
		x, y := 0, 0
		if a.Bool() {
			x = 1
		}
		if b.Bool() {
			y = 1
		}
		return cmp.Compare(x, y)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(a.Int(), b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(a.Uint(), b.Uint())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(a.Float(), b.Float())
	case reflect.String:
		return cmp.Compare(a.String(), b.String())
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Func, reflect.Map:
		return cmp.Compare(serialOf(a.Pointer()), serialOf(b.Pointer()))
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpVal(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpVal(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
		return 0
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return 0
		}
		x, y := a.Elem(), b.Elem()
		if x.Type() != y.Type() {
			return cmp.Compare(x.Type().String(), y.Type().String())
		}
		return cmpVal(x, y)
	}
	return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

// RangeMap is range m in an order drawn from the schedule.
func RangeMap[M ~map[K]V, K comparable, V any](m M, site uint32) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		MapR(m, site)
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			sort.Slice(keys, func(i, j int) bool {
				return cmpVal(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem()) < 0
			})
			if r := R; r != nil && !r.over && len(keys) <= 16 {
				for i := 0; i < len(keys)-1; i++ {
					n := len(keys) - i
					j := i + r.cfg.Streams.Sched.next(n, func() int { return int(r.stratRng.Next() % uint64(n)) })
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for i, k := range keys {
			if i > 0 {
				MapR(m, site)
			}
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}
