package simrt

import (
	"fmt"
	"iter"
	"runtime"
	"unsafe"
)

type slot struct {
	v  any
	vc VC
}

type waiter struct {
	g      *G
	sel    *selState
	idx    int
	v      any
	ok     bool
	vc     VC
	closed bool
}

type selState struct {
	done bool
	fire *waiter
}

type chanState struct {
	keep    any
	id      int
	cap     int
	buf     []slot
	closed  bool
	recvq   []*waiter
	sendq   []*waiter
	closeVC VC
	slotVC  []VC // clocks of receivers that freed slots, oldest first
	timer   bool
}

func chanKey[C any](c C) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func state(key uintptr, keep any, capacity int) *chanState {
	r := R
	if key == 0 {
		return nil
	}
	s := r.chans[key]
	if s == nil {
		s = &chanState{keep: keep, id: len(r.chans), cap: capacity}
		r.chans[key] = s
	}
	return s
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.done {
			continue
		}
		if w.g.state == gDead || (w.g.group != nil && w.g.group.Dead) {
			continue
		}
		return w
	}
	return nil
}

func peek(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if (w.sel != nil && w.sel.done) || w.g.state == gDead || (w.g.group != nil && w.g.group.Dead) {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func fire(r *Run, w *waiter) {
	if w.sel != nil {
		w.sel.done = true
		w.sel.fire = w
	}
	r.ready(w.g)
}

func (s *chanState) canSend() bool { return s.closed || peek(&s.recvq) || len(s.buf) < s.cap }
func (s *chanState) canRecv() bool { return len(s.buf) > 0 || peek(&s.sendq) || s.closed }

// doSend performs a send that canSend allows. In scheduler context (timers) g
// is nil.
func (s *chanState) doSend(r *Run, v any, vc VC) {
	if s.closed {
		panic(sendOnClosed{})
	}
	race := r.cfg.Race
	if w := pop(&s.recvq); w != nil {
		w.v, w.ok = v, true
		if race {
			w.g.vc.join(vc)
			if s.cap == 0 && r.noYield == 0 {
				r.cur.vc.join(w.vc)
			}
		}
		fire(r, w)
		return
	}
	if race && len(s.slotVC) > 0 {
		sv := s.slotVC[0]
		s.slotVC = s.slotVC[1:]
		if r.noYield == 0 {
			r.cur.vc.join(sv)
			vc.join(sv)
		}
	}
	s.buf = append(s.buf, slot{v: v, vc: vc})
}

func (s *chanState) doRecv(r *Run) (any, bool) {
	race := r.cfg.Race
	if len(s.buf) > 0 {
		x := s.buf[0]
		s.buf = s.buf[1:]
		if race {
			r.cur.vc.join(x.vc)
			s.slotVC = append(s.slotVC, r.cur.vc.clone())
			if len(s.slotVC) > s.cap {
				s.slotVC = s.slotVC[1:]
			}
			r.cur.tick()
		}
		if w := pop(&s.sendq); w != nil {
			s.buf = append(s.buf, slot{v: w.v, vc: w.vc})
			if race {
				w.g.vc.join(r.cur.vc)
			}
			w.ok = true
			fire(r, w)
		}
		return x.v, true
	}
	if w := pop(&s.sendq); w != nil {
		if race {
			r.cur.vc.join(w.vc)
			w.g.vc.join(r.cur.vc)
			r.cur.tick()
		}
		w.ok = true
		fire(r, w)
		return w.v, true
	}
	// closed
	if race {
		r.cur.vc.join(s.closeVC)
	}
	return nil, false
}

type sendOnClosed struct{}

func (sendOnClosed) Error() string { return "send on closed channel" }
func (sendOnClosed) RuntimeError() {}

type closeErr string

func (c closeErr) Error() string { return string(c) }
func (closeErr) RuntimeError()   {}

func snap(r *Run) VC {
	if !r.cfg.Race {
		return nil
	}
	v := r.cur.vc.clone()
	r.cur.tick()
	return v
}

func sendAny(key uintptr, keep any, capacity int, v any) {
	r := R
	if r == nil {
		panic("simrt: channel send outside a simulation")
	}
	if r.over {
		runtime.Goexit()
	}
	Yield()
	s := state(key, keep, capacity)
	if s == nil {
		for {
			r.block("send on nil channel")
		}
	}
	if s.canSend() {
		s.doSend(r, v, snap(r))
		return
	}
	w := &waiter{g: r.cur, v: v, vc: snap(r)}
	s.sendq = append(s.sendq, w)
	r.block(fmt.Sprintf("chan send (chan %d) at %s", s.id, where()))
	if w.closed {
		panic(sendOnClosed{})
	}
}

func recvAny(key uintptr, keep any, capacity int) (any, bool) {
	r := R
	if r == nil {
		panic("simrt: channel receive outside a simulation")
	}
	if r.over {
		runtime.Goexit()
	}
	Yield()
	s := state(key, keep, capacity)
	if s == nil {
		for {
			r.block("receive on nil channel")
		}
	}
	if s.canRecv() {
		return s.doRecv(r)
	}
	w := &waiter{g: r.cur, vc: snap(r)}
	s.recvq = append(s.recvq, w)
	r.block(fmt.Sprintf("chan receive (chan %d) at %s", s.id, where()))
	return w.v, w.ok
}

func where() string {
	pcs := make([]uintptr, 16)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if len(f.Function) > 0 && !hasPrefix(f.Function, "simrt.") && !hasPrefix(f.Function, "simshim/") {
			name := f.Function
			for i := len(name) - 1; i >= 0; i-- {
				if name[i] == '/' {
					name = name[i+1:]
					break
				}
			}
			return name
		}
		if !more {
			return "?"
		}
	}
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Send is ch <- v, as Send(ch)(v).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { sendAny(chanKey(ch), ch, cap(ch), v) }
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := recvAny(chanKey(ch), ch, cap(ch))
	return conv[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recvAny(chanKey(ch), ch, cap(ch))
	return conv[T](v), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	r := R
	if r == nil || r.over {
		return
	}
	Yield()
	s := state(chanKey(ch), ch, cap(ch))
	if s == nil {
		panic(closeErr("close of nil channel"))
	}
	s.close(r)
}

func (s *chanState) close(r *Run) {
	if s.closed {
		panic(closeErr("close of closed channel"))
	}
	s.closed = true
	if r.cfg.Race {
		s.closeVC = snap(r)
	}
	for w := pop(&s.recvq); w != nil; w = pop(&s.recvq) {
		w.v, w.ok = nil, false
		if r.cfg.Race {
			w.g.vc.join(s.closeVC)
		}
		fire(r, w)
	}
	for w := pop(&s.sendq); w != nil; w = pop(&s.sendq) {
		w.closed = true
		fire(r, w)
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if R == nil || R.over || ch == nil {
		return 0
	}
	Yield()
	s := state(chanKey(ch), ch, cap(ch))
	if s.timer {
		return 0
	}
	return len(s.buf)
}

// LenS is len(ch) for send-only channels.
func LenS[T any](ch chan<- T) int {
	if R == nil || R.over || ch == nil {
		return 0
	}
	Yield()
	return len(state(chanKey(ch), ch, cap(ch)).buf)
}

// RangeChan is range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- select

// Case is one select case.
type Case struct {
	key  uintptr
	keep any
	cap  int
	send bool
	v    any
	ok   bool
}

func (c *Case) base() *Case { return c }

// Caser is implemented by all select cases.
type Caser interface{ base() *Case }

// RecvCase is a receive case.
type RecvCase[T any] struct{ Case }

// Val returns the received value.
func (c *RecvCase[T]) Val() T { return conv[T](c.v) }

// Ok reports whether the value was sent.
func (c *RecvCase[T]) Ok() bool { return c.ok }

// NewRecv makes a receive case.
func NewRecv[T any](ch <-chan T) *RecvCase[T] {
	return &RecvCase[T]{Case{key: chanKey(ch), keep: ch, cap: cap(ch)}}
}

// NewSend makes a send case, as NewSend(ch)(v).
func NewSend[T any](ch chan<- T) func(T) *Case {
	return func(v T) *Case {
		return &Case{key: chanKey(ch), keep: ch, cap: cap(ch), send: true, v: v}
	}
}

// Select performs a select and returns the index of the chosen case, or -1 for
// the default case.
func Select(hasDefault bool, cases ...Caser) int {
	r := R
	if r == nil {
		panic("simrt: select outside a simulation")
	}
	if r.over {
		runtime.Goexit()
	}
	Yield()
	var ready []int
	for i, cc := range cases {
		c := cc.base()
		s := state(c.key, c.keep, c.cap)
		if s == nil {
			continue
		}
		if (c.send && s.canSend()) || (!c.send && s.canRecv()) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = r.cfg.Streams.Sched.next(len(ready), func() int { return int(r.stratRng.Next() % uint64(len(ready))) })
		}
		i := ready[k]
		c := cases[i].base()
		s := state(c.key, c.keep, c.cap)
		if c.send {
			s.doSend(r, c.v, snap(r))
		} else {
			c.v, c.ok = s.doRecv(r)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	vc := snap(r)
	for i, cc := range cases {
		c := cc.base()
		s := state(c.key, c.keep, c.cap)
		if s == nil {
			continue
		}
		w := &waiter{g: r.cur, sel: sel, idx: i, v: c.v, vc: vc}
		if c.send {
			s.sendq = append(s.sendq, w)
		} else {
			s.recvq = append(s.recvq, w)
		}
	}
	for sel.fire == nil {
		r.block("select at " + where())
	}
	w := sel.fire
	c := cases[w.idx].base()
	if c.send {
		if w.closed {
			panic(sendOnClosed{})
		}
		return w.idx
	}
	c.v, c.ok = w.v, w.ok
	return w.idx
}

// TimerSend delivers a timer tick into a timer channel (scheduler context).
func TimerSend[T any](ch chan T, v T, vc VC) {
	r := R
	s := state(chanKey((<-chan T)(ch)), (<-chan T)(ch), 1)
	s.timer = true
	if s.closed || (!peek(&s.recvq) && len(s.buf) >= 1) {
		return
	}
	s.doSend(r, v, vc)
}

// TimerDrain discards a pending tick (go1.23 timer semantics); it reports
// whether there was one.
func TimerDrain[T any](ch chan T) bool {
	r := R
	if r == nil || r.over {
		return false
	}
	s := state(chanKey((<-chan T)(ch)), (<-chan T)(ch), 1)
	s.timer = true
	had := len(s.buf) > 0
	s.buf = nil
	return had
}

// SnapVC returns the running goroutine's clock.
func SnapVC() VC {
	if R == nil || R.over || R.cur == nil {
		return nil
	}
	return snap(R)
}
