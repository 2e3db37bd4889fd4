package sub

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	tm "time"
)

type inner struct {
	sync.Mutex
	n int
	f func(int) int
}
type emb struct {
	*inner
	arr [3]int
	m   map[string][]int
}
type Gen[T any] struct {
	v  T
	ch chan T
}

func (g *Gen[T]) Put(v T)  { g.ch <- v; g.v = v }
func (g *Gen[T]) Get() (T, bool) { v, ok := <-g.ch; return v, ok }

var global = map[*inner]int{}
var counter, other = 3, "x"
var ErrX = errors.New("x")
var lazy = func() int { counter++; return counter }()
var once sync.Once
var at int64
var aval atomic.Value
var aint atomic.Int32

func init() { counter += 10 }
func init() { other += "y" }

func two() (int, error) { return 7, nil }
func mapf[K comparable, V any](m map[K]V, f func(K, V)) {
	for k, v := range m {
		f(k, v)
	}
}

type st struct {
	a, b int
	e    error
	p    *st
	s    []st
	i    interface{}
	arr  *[4]string
}

func (s st) val() int   { return s.a }
func (s *st) ptr() *st  { s.a++; return s }
func variadic(p string, xs ...int) string { return fmt.Sprint(p, xs) }

// Run exercises the translator.
func Run() string {
	var out []string
	var mu sync.Mutex
	add := func(f string, a ...interface{}) { mu.Lock(); out = append(out, fmt.Sprintf(f, a...)); mu.Unlock() }
	e := &emb{inner: &inner{f: func(i int) int { return i * 2 }}, m: map[string][]int{}}
	e.Lock()
	e.n++
	e.n += 4
	e.n <<= 2
	e.arr[1] = 5
	e.arr[1]--
	e.m["a"] = append(e.m["a"], 1, 2)
	e.m["a"][1]++
	e.Unlock()
	add("%d %v %v %d", e.n, e.arr, e.m, e.f(4))
	global[e.inner]++
	global[&inner{n: 2}] = 9
	global[new(inner)] += 2
	sum := 0
	for _, v := range global {
		sum += v
	}
	add("sum %d len %d", sum, len(global))
	delete(global, e.inner)
	add("%d", len(global))
	s := st{a: 1}
	s.p = &st{a: 2, s: []st{{a: 5}, {b: 6}}, arr: &[4]string{"q"}}
	s.a, s.b = s.b, s.a
	s.a, s.e = two()
	s.p.s[1].b, s.e = two()
	s.p.ptr().ptr().a += 2
	s.i = s.p.s[0]
	s.p.arr[2] = "zz"
	for i := range s.p.arr {
		s.p.arr[i] += "!"
	}
	add("%v %v %v %v %v", s.a, s.b, s.e, s.p.a, s.p.s)
	add("%v %v %v", s.val(), s.p.val(), *s.p.arr)
	fv := s.p.val
	fe := (*st).ptr
	fe(s.p)
	add("%d %d", fv(), s.p.a)
	g := &Gen[string]{ch: make(chan string, 2)}
	g.Put("x")
	g.Put("y")
	close(g.ch)
	for v := range g.ch {
		add("got %s", v)
	}
	_, ok := g.Get()
	add("%v", ok)
	done := make(chan struct{})
	res := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(k int) { defer wg.Done(); res <- k * i }(i)
	}
	go func() { wg.Wait(); close(done) }()
	total := 0
L:
	for {
		select {
		case v, ok := <-res:
			if !ok {
				break
			}
			total += v
		case <-done:
			break L
		}
	}
	add("total %d", total)
	go mapf(map[string]int{"k": 1}, func(k string, v int) { res <- v })
	add("%d", <-res)
	go s.p.ptr()
	go variadic("a", []int{1}...)
	go close(res)
	<-res
	tmr := tm.NewTimer(tm.Millisecond*20)
	select {
	case <-tmr.C:
		add("hour")
	case <-tm.After(tm.Millisecond*40):
		add("never")
	}
	ctx, cancel := context.WithTimeout(context.Background(), tm.Millisecond*30)
	defer cancel()
	<-ctx.Done()
	add("%v", ctx.Err())
	once.Do(func() { counter++ })
	once.Do(func() { counter++ })
	atomic.AddInt64(&at, 2)
	aint.Add(3)
	aval.Store("v")
	add("%d %d %v %v %v %s %d", at, aint.Load(), aval.Load(), counter, lazy, other, rand.Intn(1))
	switch x := s.i.(type) {
	case nil:
	case st:
		go func() { _ = x.a }()
		add("st %d", x.a)
	}
	if v, ok := e.m["a"]; ok && len(v) > 1 {
		add("%v", v)
	}
	func() {
		defer func() { add("rec %v", recover()) }()
		var m map[string]int
		m["x"] = 1
	}()
	func() {
		defer func() { add("rec %v", recover()) }()
		close(done)
	}()
	func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
				add("%v", err)
			}
		}()
		var p *st
		p.a = 1
		return nil
	}()
	_, err := os.Stat("/definitely/not")
	add("%v", os.IsNotExist(err))
	ks := []string{}
	for k := range map[string]int{"b": 1, "a": 2, "c": 3} {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	add("%v", ks)
	mm := map[[2]int]struct{ x int }{{1, 2}: {3}}
	add("%d", mm[[2]int{1, 2}].x)
	for i, c := range "hé" {
		add("%d%c", i, c)
	}
	for i := range 2 {
		add("%d", i)
	}
	var iface fmt.Stringer = tm.Second
	add(iface.String())
	const big = 1 << 40
	var f32 float32 = 3
	f32 /= 2
	add("%v %v", f32, big)
	var nilch chan int
	select {
	case nilch <- 1:
	case s.a = <-nilch:
	default:
		add("default")
	}
	lenarr := len(e.arr)
	add("%d %d", lenarr, cap(res))
	var arr2 = [...]string{2: "x"}
	add("%d %v", len(arr2), arr2[1:])
	goto end
end:
	return strings.Join(out, "\n")
}
