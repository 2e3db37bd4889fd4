package simrt

import (
	"container/heap"
	"runtime"
)

// Timer is a pending simulated event.
type Timer struct {
	when int64
	seq  uint64
	fn   func()
	idx  int
	grp  *Group
	vc   VC
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].idx = i
	h[j].idx = j
}
func (h *timerHeap) Push(x any) {
	t := x.(*Timer)
	t.idx = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Now returns simulated nanoseconds since the run started (monotonic).
func Now() int64 {
	if R == nil {
		return 0
	}
	return R.now
}

// WallOffset returns the injected wall-clock offset.
func WallOffset() int64 {
	if R == nil {
		return 0
	}
	return R.wallOff
}

// JumpWall moves the wall clock (not the monotonic one).
func JumpWall(d int64) { R.wallOff += d }

// After schedules fn, which runs in scheduler context (it must not block).
func After(d int64, fn func()) *Timer {
	r := R
	if r == nil {
		return &Timer{idx: -1}
	}
	if d < 0 {
		d = 0
	}
	r.timerSeq++
	t := &Timer{when: r.now + d, seq: r.timerSeq, fn: fn}
	if t.when < r.now { // overflow: never
		t.when = 1<<63 - 1
	}
	if r.cur != nil {
		t.grp = r.cur.group
		if r.cfg.Race {
			t.vc = r.cur.vc.clone()
			r.cur.tick()
		}
	}
	heap.Push(&r.timers, t)
	return t
}

// Cancel removes a pending timer; it reports whether it was pending.
func (t *Timer) Cancel() bool {
	r := R
	if t == nil || r == nil || t.idx < 0 || t.idx >= len(r.timers) || r.timers[t.idx] != t {
		return false
	}
	heap.Remove(&r.timers, t.idx)
	return true
}

func (r *Run) fireNext() {
	t := heap.Pop(&r.timers).(*Timer)
	if t.when > r.now {
		r.now = t.when
	}
	if t.grp != nil && t.grp.Dead {
		return
	}
	r.mix(0x7177, t.seq)
	r.noYield++
	t.fn()
	r.noYield--
}

// Sleep blocks the goroutine for d simulated nanoseconds.
func Sleep(d int64) {
	r := R
	if r == nil {
		return
	}
	if r.over {
		runtime.Goexit()
	}
	if d <= 0 {
		r.yield()
		return
	}
	g := r.cur
	After(d, func() { r.ready(g) })
	r.block("sleep")
}

// Slips reports whether the clock may advance while goroutines are runnable.
func Slips() bool { return R.cfg.SlipDen > 0 }
