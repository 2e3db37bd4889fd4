// Package sync is the simulated sync package.
package sync

import (
	"simrt"
	realsync "sync"
	"unsafe"
)

// Locker is sync.Locker.
type Locker = realsync.Locker

// Mutex is the simulated mutex.
type Mutex struct{ m simrt.Mutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

// RWMutex is the simulated read-write mutex.
type RWMutex struct{ m simrt.RWMutex }

func (m *RWMutex) Lock()          { m.m.Lock() }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { m.m.RLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is the simulated wait group.
type WaitGroup struct{ w simrt.WaitGroup }

func (w *WaitGroup) Add(n int) { w.w.Add(n) }
func (w *WaitGroup) Done()     { w.w.Done() }
func (w *WaitGroup) Wait()     { w.w.Wait() }

// Go runs f in a goroutine tracked by the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is the simulated sync.Once.
type Once struct {
	m    simrt.Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	o := new(Once)
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is the simulated condition variable.
type Cond struct {
	L Locker
	c simrt.Cond
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is Cond.Wait.
func (c *Cond) Wait() {
	if !simrt.Active() {
		return
	}
	wait := c.c.Enqueue()
	c.L.Unlock()
	wait()
	c.L.Lock()
}

// Signal is Cond.Signal.
func (c *Cond) Signal() { c.c.Signal() }

// Broadcast is Cond.Broadcast.
func (c *Cond) Broadcast() { c.c.Broadcast() }

type poolItem struct {
	v  any
	vc simrt.VC
}

// Pool is the simulated sync.Pool: which released item a Get returns is drawn
// from the schedule.
type Pool struct {
	New   func() any
	items []poolItem
	run   *simrt.Run
}

// ResetPool empties the pool.
func (p *Pool) ResetPool() { p.items = nil; p.run = nil }

// Get is Pool.Get.
func (p *Pool) Get() any {
	simrt.Yield()
	if i := simrt.PoolPick(len(p.items)); i >= 0 {
		it := p.items[i]
		p.items = append(p.items[:i], p.items[i+1:]...)
		simrt.Acquire(&it.vc)
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is Pool.Put.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Yield()
	if p.run != simrt.RunID() {
		p.run = simrt.RunID()
		p.items = nil
		simrt.RegisterPool(p)
	}
	it := poolItem{v: x}
	simrt.Release(&it.vc)
	p.items = append(p.items, it)
}

// Map is the simulated sync.Map.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) op() { simrt.AtomicOp(unsafe.Pointer(m), unsafe.Sizeof(m.m), true) }

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(k any) (any, bool) { m.op(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.op(); m.set(k, v) }
func (m *Map) Clear()                 { m.op(); m.m = nil; m.keys = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.op(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.op()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op()
	ks := append([]any(nil), m.keys...)
	for _, k := range ks {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		m.op()
	}
}
