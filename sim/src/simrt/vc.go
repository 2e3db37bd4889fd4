package simrt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

// VC is a vector clock indexed by goroutine id.
type VC []uint32

func (v VC) clone() VC {
	if v == nil {
		return nil
	}
	o := make(VC, len(v))
	copy(o, v)
	return o
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o))
		copy(n, *v)
		*v = n
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (g *G) tick() {
	if len(g.vc) <= g.ID {
		n := make(VC, g.ID+1)
		copy(n, g.vc)
		g.vc = n
	}
	g.vc[g.ID]++
}

// Acquire joins a clock into the running goroutine.
func Acquire(v *VC) {
	if r := R; r != nil && r.cfg.Race && !r.over && v != nil {
		r.cur.vc.join(*v)
	}
}

// Release joins the running goroutine's clock into v.
func Release(v *VC) {
	if r := R; r != nil && r.cfg.Race && !r.over {
		v.join(r.cur.vc)
		r.cur.tick()
	}
}

type epoch struct {
	g    int
	c    uint32
	site uint32
	pc   string
}

type shadowWord struct {
	keep unsafe.Pointer
	w    epoch
	hasW bool
	rs   []epoch
	aw   epoch // last atomic write
	hasA bool
	ars  []epoch // atomic reads
}

// SiteNames maps access site ids to source positions; set by generated code.
var SiteNames = map[uint32]string{0: "an atomic operation"}

// RegisterSites is called by generated init functions.
func RegisterSites(base uint32, names []string) {
	for i, n := range names {
		SiteNames[base+uint32(i)] = n
	}
}

func (r *Run) checkWord(key uintptr, keep unsafe.Pointer, site uint32, write bool, m map[uintptr]*shadowWord) {
	w := m[key]
	if w == nil {
		w = &shadowWord{keep: keep}
		m[key] = w
	}
	g := r.cur
	if w.hasW && w.w.g != g.ID && w.w.c > g.vc.at(w.w.g) {
		r.report(w.w, site, true, write)
	}
	if w.hasA && w.aw.g != g.ID && w.aw.c > g.vc.at(w.aw.g) {
		r.report(w.aw, site, true, write)
	}
	if write {
		for _, e := range w.ars {
			if e.g != g.ID && e.c > g.vc.at(e.g) {
				r.report(e, site, false, true)
			}
		}
		for _, e := range w.rs {
			if e.g != g.ID && e.c > g.vc.at(e.g) {
				r.report(e, site, false, true)
			}
		}
		w.rs = w.rs[:0]
		w.w = epoch{g: g.ID, c: g.vc.at(g.ID), site: site}
		w.hasW = true
		return
	}
	for i := range w.rs {
		if w.rs[i].g == g.ID {
			w.rs[i].c = g.vc.at(g.ID)
			w.rs[i].site = site
			return
		}
	}
	w.rs = append(w.rs, epoch{g: g.ID, c: g.vc.at(g.ID), site: site})
}

func (r *Run) report(prev epoch, site uint32, prevW, curW bool) {
	a, b := SiteNames[prev.site], SiteNames[site]
	key := a + "|" + b
	if b < a {
		key = b + "|" + a
	}
	r.races++
	if r.raceSeen[key] {
		return
	}
	r.raceSeen[key] = true
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	var st []string
	pcs := make([]uintptr, 24)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "simrt.") && f.Function != "" && !strings.HasPrefix(f.Function, "runtime.") {
			st = append(st, f.Function)
		}
		if !more || len(st) > 6 {
			break
		}
	}
	r.problem(Problem{Kind: "race", Props: []string{"C21"}, Msg: fmt.Sprintf(
		"data race: %s at %s (goroutine %d %s) is concurrent with %s at %s (goroutine %d %s)\n    via %s",
		kind(curW), b, r.cur.ID, r.cur.Name, kind(prevW), a, prev.g, r.gs[prev.g].Name, strings.Join(st, " < "))})
}

func (r *Run) access(p unsafe.Pointer, size uintptr, site uint32, write bool) {
	if r.cfg.AccessDen > 0 && r.noYield == 0 && r.cur != nil {
		if r.cfg.Streams.Sched.next(2, func() int {
			if r.stratRng.Next()%uint64(r.cfg.AccessDen) == 0 {
				return 1
			}
			return 0
		}) == 1 {
			r.yield()
		}
	}
	if r.cfg.Race && size > 0 {
		a := uintptr(p) &^ 7
		end := uintptr(p) + size
		for n := 0; a < end && n < 32; n++ {
			// Sub-word fields are told apart by exact address.
			key := a
			if size < 8 {
				key = uintptr(p) | 1<<63
			}
			r.checkWord(key, p, site, write, r.shadow)
			a += 8
		}
	}
}

// Rd marks a read of *p.
//
//go:noinline
func Rd[T any](p *T, site uint32) *T {
	if r := R; r != nil && !r.over && p != nil && (r.cfg.Race || r.cfg.AccessDen > 0) {
		r.access(unsafe.Pointer(p), unsafe.Sizeof(*p), site, false)
	}
	return p
}

// Wr marks a write of *p.
//
//go:noinline
func Wr[T any](p *T, site uint32) *T {
	if r := R; r != nil && !r.over && p != nil && (r.cfg.Race || r.cfg.AccessDen > 0) {
		r.access(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
	}
	return p
}

func mapPtr[M any](m M) uintptr { return *(*uintptr)(unsafe.Pointer(&m)) }

// MapR marks a read of the contents of a map.
func MapR[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if r := R; r != nil && !r.over && m != nil {
		mapAccess(r, mapPtr(m), site, false)
	}
	return m
}

// MapW marks a modification of the contents of a map.
func MapW[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if r := R; r != nil && !r.over && m != nil {
		mapAccess(r, mapPtr(m), site, true)
	}
	return m
}

func mapAccess(r *Run, p uintptr, site uint32, write bool) {
	if r.cfg.AccessDen > 0 && r.noYield == 0 {
		if r.cfg.Streams.Sched.next(2, func() int {
			if r.stratRng.Next()%uint64(r.cfg.AccessDen) == 0 {
				return 1
			}
			return 0
		}) == 1 {
			r.yield()
		}
	}
	if r.cfg.Race {
		r.checkWord(p, *(*unsafe.Pointer)(unsafe.Pointer(&p)), site, write, r.mapShadow)
	}
}

type atomicState struct {
	vc   VC
	keep unsafe.Pointer
}

// AtomicOp is called before every atomic operation on p.
func AtomicOp(p unsafe.Pointer, size uintptr, write bool) {
	r := R
	if r == nil || r.over {
		return
	}
	Yield()
	if !r.cfg.Race {
		return
	}
	k := uintptr(p)
	s := r.atomics[k]
	if s == nil {
		s = &atomicState{keep: p}
		r.atomics[k] = s
	}
	g := r.cur
	g.vc.join(s.vc)
	// Conflicts with plain accesses to the same word.
	key := k
	if size < 8 {
		key |= 1 << 63
	}
	w := r.shadow[key]
	if w == nil {
		w = &shadowWord{keep: p}
		r.shadow[key] = w
	}
	if w.hasW && w.w.g != g.ID && w.w.c > g.vc.at(w.w.g) {
		r.report(w.w, 0, true, write)
	}
	e := epoch{g: g.ID, c: g.vc.at(g.ID)}
	if write {
		for _, x := range w.rs {
			if x.g != g.ID && x.c > g.vc.at(x.g) {
				r.report(x, 0, false, true)
			}
		}
		w.aw, w.hasA = e, true
		w.ars = w.ars[:0]
		s.vc.join(g.vc)
		g.tick()
		return
	}
	for i := range w.ars {
		if w.ars[i].g == g.ID {
			w.ars[i] = e
			return
		}
	}
	w.ars = append(w.ars, e)
}

// Set returns the assignment function of a shared variable: used where a
// variable is one of several targets of an assignment.
func Set[T any](p *T, site uint32) func(T) { return func(v T) { *Wr(p, site) = v } }

// MapSet is Set for a map element.
func MapSet[M ~map[K]V, K comparable, V any](m M, site uint32) func(K, V) {
	return func(k K, v V) { MapW(m, site)[k] = v }
}

type Number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~complex64 | ~complex128
}

// IncDec is x++ and x-- on a shared variable: a read and a write.
func IncDec[T Number](p *T, site uint32, dec bool) {
	v := *Rd(p, site)
	if dec {
		v--
	} else {
		v++
	}
	*Wr(p, site) = v
}

// Zero clears a package variable between runs.
func Zero[T any](p *T) { var z T; *p = z }

var resets []func()

// RegisterReset registers a function that puts a package's variables back to
// their initial state; all of them run at the start of every Exec.
func RegisterReset(f func()) { resets = append(resets, f) }
