package simrt

import (
	"runtime"
)

// Mutex is the simulated sync.Mutex.
type Mutex struct {
	locked bool
	q      []*G
	vc     VC
}

// waitQ blocks the running goroutine on a queue.
func waitQ(r *Run, q *[]*G, what string) {
	*q = append(*q, r.cur)
	r.block(what + " at " + where())
}

func wakeAll(r *Run, q *[]*G) {
	l := *q
	*q = nil
	for _, g := range l {
		r.ready(g)
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	r := R
	if r == nil {
		m.locked = true
		return
	}
	if r.over {
		runtimeGoexitIfKilled(r)
		return
	}
	Yield()
	for m.locked {
		waitQ(r, &m.q, "Mutex.Lock")
	}
	m.locked = true
	Acquire(&m.vc)
}

func runtimeGoexitIfKilled(r *Run) {}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	r := R
	if r == nil || r.over {
		return true
	}
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	Acquire(&m.vc)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	r := R
	if r == nil {
		m.locked = false
		return
	}
	if r.over {
		return
	}
	if !m.locked {
		Fatal("fatal error: sync: unlock of unlocked mutex")
	}
	Release(&m.vc)
	m.locked = false
	wakeAll(r, &m.q)
	Yield()
}

// RWMutex is the simulated sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	pending int
	q       []*G
	wvc     VC
	rvc     VC
}

// RLock locks for reading; a pending writer blocks new readers.
func (m *RWMutex) RLock() {
	r := R
	if r == nil {
		return
	}
	if r.over {
		return
	}
	Yield()
	for m.w || m.pending > 0 {
		waitQ(r, &m.q, "RWMutex.RLock")
	}
	m.readers++
	Acquire(&m.wvc)
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	r := R
	if r == nil || r.over {
		return true
	}
	Yield()
	if m.w || m.pending > 0 {
		return false
	}
	m.readers++
	Acquire(&m.wvc)
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	r := R
	if r == nil || r.over {
		return
	}
	if m.readers < 1 {
		Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	Release(&m.rvc)
	m.readers--
	wakeAll(r, &m.q)
	Yield()
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	r := R
	if r == nil {
		return
	}
	if r.over {
		return
	}
	Yield()
	if m.w || m.readers > 0 {
		m.pending++
		for m.w || m.readers > 0 {
			waitQ(r, &m.q, "RWMutex.Lock")
		}
		m.pending--
	}
	m.w = true
	Acquire(&m.wvc)
	Acquire(&m.rvc)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	r := R
	if r == nil || r.over {
		return true
	}
	Yield()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	Acquire(&m.wvc)
	Acquire(&m.rvc)
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	r := R
	if r == nil || r.over {
		return
	}
	if !m.w {
		Fatal("fatal error: sync: Unlock of unlocked RWMutex")
	}
	Release(&m.wvc)
	m.w = false
	wakeAll(r, &m.q)
	Yield()
}

// WaitGroup is the simulated sync.WaitGroup.
type WaitGroup struct {
	n  int
	q  []*G
	vc VC
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	r := R
	if r == nil || r.over {
		w.n += delta
		return
	}
	if delta < 0 {
		Release(&w.vc)
	}
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(r, &w.q)
	}
	Yield()
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for the counter to become zero.
func (w *WaitGroup) Wait() {
	r := R
	if r == nil {
		return
	}
	if r.over {
		runtime.Goexit()
	}
	Yield()
	for w.n > 0 {
		waitQ(r, &w.q, "WaitGroup.Wait")
	}
	Acquire(&w.vc)
}

// Cond is the simulated sync.Cond queue.
type Cond struct {
	q []*condW
}

type condW struct {
	g    *G
	done bool
}

// Wait parks the goroutine; the caller handles the lock.
func (c *Cond) Enqueue() func() {
	r := R
	w := &condW{g: r.cur}
	c.q = append(c.q, w)
	return func() {
		for !w.done {
			r.block("Cond.Wait at " + where())
		}
	}
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	r := R
	if r == nil || r.over || len(c.q) == 0 {
		return
	}
	w := c.q[0]
	c.q = c.q[1:]
	w.done = true
	r.ready(w.g)
	Yield()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	r := R
	if r == nil || r.over {
		return
	}
	for _, w := range c.q {
		w.done = true
		r.ready(w.g)
	}
	c.q = nil
	Yield()
}

// Goexit ends the goroutine when the run is over.
func ExitIfOver() {
	if R != nil && R.over {
		runtime.Goexit()
	}
}

// PoolPick chooses what a Pool.Get returns: -1 is a miss, otherwise an index
// counted from the most recently released item.
func PoolPick(n int) int {
	r := R
	if r == nil || r.over || n == 0 {
		return n - 1
	}
	if r.cfg.PoolMiss > 0 && r.cfg.Streams.Fault.Chance(1, r.cfg.PoolMiss) {
		return -1
	}
	return n - 1 - r.cfg.Streams.Sched.next(n, func() int {
		if r.stratRng.Next()%2 == 0 {
			return 0
		}
		return int(r.stratRng.Next() % uint64(n))
	})
}

// RegisterPool makes the run reset p when it ends.
func RegisterPool(p interface{ ResetPool() }) {
	if R != nil {
		R.pools = append(R.pools, p)
	}
}

// RunID identifies the current run (nil when none).
func RunID() *Run { return R }

// FS returns the simulated file system attached to the run.
func FS() any {
	if R == nil {
		return nil
	}
	return R.fs
}

// SetFS attaches a simulated file system.
func SetFS(fs any) { R.fs = fs }
