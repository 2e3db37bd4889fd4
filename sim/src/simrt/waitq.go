package simrt

import "runtime"

// WaitQ is a wait queue for harness code. Unlike channels and locks it adds no
// happens-before edges, so it hides no data races of the code under test.
type WaitQ struct{ gs []*G }

// Wait blocks until the next Wake.
func (q *WaitQ) Wait(reason string) {
	r := R
	if r == nil || r.over {
		runtime.Goexit()
	}
	q.gs = append(q.gs, r.cur)
	r.block(reason)
}

// WaitUntil blocks until the next Wake or simulated time at; it reports false
// when the time came first.
func (q *WaitQ) WaitUntil(at int64, reason string) bool {
	r := R
	if r == nil || r.over {
		runtime.Goexit()
	}
	g := r.cur
	q.gs = append(q.gs, g)
	timedOut := false
	t := After(at-r.now, func() {
		timedOut = true
		for i, x := range q.gs {
			if x == g {
				q.gs = append(q.gs[:i:i], q.gs[i+1:]...)
				break
			}
		}
		r.ready(g)
	})
	r.block(reason)
	t.Cancel()
	return !timedOut
}

// Wake releases all waiters.
func (q *WaitQ) Wake() {
	r := R
	if r == nil || r.over {
		return
	}
	gs := q.gs
	q.gs = nil
	for _, g := range gs {
		r.ready(g)
	}
}

// DropKeeps forgets the addresses the runtime keeps alive, so that a garbage
// collection shows what the code under test still references. Only for the very
// end of a run.
func DropKeeps() {
	r := R
	for k, s := range r.chans {
		if len(s.recvq)+len(s.sendq)+len(s.buf) == 0 && !s.closed {
			delete(r.chans, k) // the same as one nobody has used yet
		}
	}
	r.atomics = map[uintptr]*atomicState{}
	r.shadow = map[uintptr]*shadowWord{}
	r.mapShadow = map[uintptr]*shadowWord{}
	r.serials = map[uintptr]allocRec{}
}
