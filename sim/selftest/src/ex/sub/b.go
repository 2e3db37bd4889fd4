package sub

import (
	"context"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	tm "time"
)

type node[K comparable, V any] struct {
	k    K
	v    V
	next *node[K, V]
}

type list[K comparable, V any] struct {
	sync.RWMutex
	head *node[K, V]
	n    atomic.Int64
}

func (l *list[K, V]) add(k K, v V) {
	l.Lock()
	defer l.Unlock()
	l.head = &node[K, V]{k, v, l.head}
	l.n.Add(1)
}

func (l *list[K, V]) all() iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		l.RLock()
		defer l.RUnlock()
		for n := l.head; n != nil; n = n.next {
			if !yield(n.k, n.v) {
				return
			}
		}
	}
}

type state uint8

const (
	idle state = iota
	busy
)

func (s state) String() string { return [...]string{"idle", "busy"}[s] }

type semaphore chan struct{}

func (s semaphore) acquire() { s <- struct{}{} }
func (s semaphore) release() { <-s }

type cmd struct {
	fn   func()
	done chan<- error
}

// monitor owns its state in one goroutine.
type monitor struct {
	cmds chan cmd
	quit chan struct{}
	once sync.Once
}

func (m *monitor) run() {
	defer close(m.quit)
	for c := range m.cmds {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.done <- fmt.Errorf("panic: %v", r)
					return
				}
				c.done <- nil
			}()
			c.fn()
		}()
	}
}

func (m *monitor) do(f func()) error {
	d := make(chan error, 1)
	m.cmds <- cmd{f, d}
	return <-d
}

type waiterList struct {
	mu sync.Mutex
	cv *sync.Cond
	n  int
}

func newWaiters() *waiterList { w := &waiterList{}; w.cv = sync.NewCond(&w.mu); return w }

// Run2 exercises newer features.
func Run2() string {
	var out []string
	var mu sync.Mutex
	add := func(f string, a ...any) { mu.Lock(); defer mu.Unlock(); out = append(out, fmt.Sprintf(f, a...)) }

	l := &list[string, int]{}
	for i := range 4 {
		l.add(fmt.Sprint("k", i), i*i)
	}
	for k, v := range l.all() {
		if v == 0 {
			break
		}
		add("%s=%d", k, v)
	}
	add("%d", l.n.Load())
	add("%v", slices.Sorted(maps.Keys(map[string]int{"b": 1, "a": 2})))

	m := &monitor{cmds: make(chan cmd), quit: make(chan struct{})}
	go m.run()
	x := 0
	add("%v", m.do(func() { x++ }))
	add("%v", m.do(func() { panic("boom") }))
	m.once.Do(func() { close(m.cmds) })
	<-m.quit
	add("x %d", x)

	w := newWaiters()
	var wg sync.WaitGroup
	for range 3 {
		wg.Go(func() {
			w.mu.Lock()
			for w.n == 0 {
				w.cv.Wait()
			}
			w.n--
			w.mu.Unlock()
		})
	}
	for range 3 {
		w.mu.Lock()
		w.n++
		w.cv.Signal()
		w.mu.Unlock()
	}
	wg.Wait()
	add("waiters %d", w.n)

	sem := make(semaphore, 2)
	var cur, max atomic.Int32
	for range 5 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem.acquire()
			defer sem.release()
			n := cur.Add(1)
			for {
				o := max.Load()
				if n <= o || max.CompareAndSwap(o, n) {
					break
				}
			}
			tm.Sleep(tm.Millisecond)
			cur.Add(-1)
		}()
	}
	wg.Wait()
	add("max<=2 %v cur %d", max.Load() <= 2, cur.Load())

	ctx, cancel := context.WithCancelCause(context.WithValue(context.Background(), "k", "v"))
	stop := context.AfterFunc(ctx, func() { add("after") })
	_ = stop
	cancel(errors.New("why"))
	<-ctx.Done()
	tm.Sleep(5 * tm.Millisecond)
	add("%v %v %v", ctx.Err(), context.Cause(ctx), ctx.Value("k"))
	c2, cancel2 := context.WithDeadline(context.Background(), tm.Now().Add(-1))
	add("%v", c2.Err())
	cancel2()

	tick := tm.NewTicker(2 * tm.Millisecond)
	for i := 0; i < 3; i++ {
		<-tick.C
	}
	tick.Stop()
	fired := make(chan bool, 1)
	t := tm.AfterFunc(tm.Hour, func() { fired <- true })
	add("%v %v", t.Stop(), t.Stop())
	t.Reset(tm.Millisecond)
	add("%v", <-fired)
	tt := tm.NewTimer(tm.Hour)
	if !tt.Stop() {
		<-tt.C
	}
	tt.Reset(tm.Millisecond)
	<-tt.C

	var sm sync.Map
	sm.Store("a", 1)
	v, loaded := sm.LoadOrStore("a", 2)
	add("%v %v", v, loaded)
	sm.Range(func(k, v any) bool { add("%v:%v", k, v); return true })
	v, loaded = sm.LoadAndDelete("a")
	add("%v %v", v, loaded)
	sm.CompareAndSwap("x", 1, 2)

	ov := sync.OnceValue(func() int { x += 10; return x })
	add("%d %d", ov(), ov())
	var p atomic.Pointer[node[string, int]]
	add("%v", p.Load() == nil)
	p.Store(&node[string, int]{k: "p"})
	add("%s", p.Swap(nil).k)
	var flag atomic.Bool
	add("%v %v", flag.CompareAndSwap(false, true), flag.CompareAndSwap(false, true))
	var u atomic.Uint64
	u.Store(5)
	add("%d", u.Add(^uint64(0)))

	chs := make(chan chan int, 1)
	go func() { c := <-chs; c <- 42; close(c) }()
	c := make(chan int)
	chs <- c
	for v := range c {
		add("%d", v)
	}
	var ro <-chan int = c
	if _, ok := <-ro; !ok {
		add("closed")
	}
	funcs := []func() int{}
	for i := range 3 {
		funcs = append(funcs, func() int { i *= 2; return i })
	}
	for _, f := range funcs {
		add("%d", f())
	}
	s := busy
	switch {
	case s == idle:
		add("no")
	case s > idle:
		add("%v", s)
		fallthrough
	default:
		add("fell")
	}
outer:
	for i := 0; ; i++ {
		switch i {
		case 2:
			continue outer
		case 4:
			break outer
		}
		add("i%d", i)
	}
	pr, pw := io.Pipe()
	_ = pr
	_ = pw
	dir, err := os.MkdirTemp("", "x")
	add("%v", err)
	f := filepath.Join(dir, "a.txt")
	add("%v", os.WriteFile(f, []byte("hello"), 0o600))
	fl, err := os.OpenFile(f, os.O_RDWR|os.O_APPEND, 0)
	add("%v", err)
	fl.WriteString(" world")
	fl.Sync()
	fl.Close()
	b, err := os.ReadFile(f)
	add("%s %v", b, err)
	add("%v", os.Rename(f, f+"2"))
	_, err = os.ReadFile(f)
	add("%v", errors.Is(err, os.ErrNotExist))
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		add("%s", e.Name())
	}
	add("%v", os.RemoveAll(dir))
	var arr [3]struct{ a, b int }
	for i := range arr {
		arr[i].a, arr[i].b = i, i+1
	}
	pa := &arr
	for i, e := range pa {
		pa[i].a += e.b
	}
	add("%v", arr)
	type local struct{ m map[string]*local }
	lo := &local{m: map[string]*local{"x": {}}}
	lo.m["x"].m = map[string]*local{}
	lo.m["x"].m["y"] = lo
	add("%d", len(lo.m["x"].m["y"].m))
	clear(lo.m)
	add("%d %d %d", len(lo.m), min(3, 1, 2), max2(1, 2))
	sl := make([]int, 3, 10)
	copy(sl[1:], []int{7, 8})
	sl = append(sl[:1:1], sl[2:]...)
	add("%v", sl)
	bs := []byte("abc")
	bs[0], bs[2] = bs[2], bs[0]
	add("%s", bs)
	str := *(&[]string{"q"}[0])
	add("%s", str)
	defer func() { recover() }()
	for i := range 2 {
		defer func() { out = append(out, fmt.Sprint("d", i)) }()
	}
	add("%v", errors.Join(io.EOF, errors.New("j")))
	var np *node[string, int]
	func() {
		defer func() { add("%v", recover() != nil) }()
		np.v++
	}()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer add("deferred")
		func() {
			defer func() {
				r := recover()
				add("inner %v", r)
			}()
			panic(fmt.Sprintf("p%d", 1))
		}()
	}()
	<-done
	var mu2 sync.Mutex
	add("%v", mu2.TryLock())
	add("%v", mu2.TryLock())
	mu2.Unlock()
	var rw sync.RWMutex
	rw.RLock()
	add("%v %v", rw.TryRLock(), rw.TryLock())
	sort := func() iter.Seq[int] { return slices.Values([]int{1, 2, 3}) }
	for v := range sort() {
		if v == 2 {
			continue
		}
		add("v%d", v)
	}
	next, stop2 := iter.Pull(sort())
	v1, _ := next()
	add("%d", v1)
	stop2()
	return strings.Join(out, "\n")
}

func max2[T int | float64](a, b T) T {
	if a > b {
		return a
	}
	return b
}
