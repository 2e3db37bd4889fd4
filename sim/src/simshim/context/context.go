package context

import (
	real "context"
	"simrt"
	"simshim/sync"
	"simshim/time"
)

type cancelCtx struct {
	parent   Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	funcs    []*afterFunc
	deadline time.Time
	hasDL    bool
	timer    *time.Timer
	detach   bool
}

type afterFunc struct {
	f    func()
	done bool
}

type valueCtx struct {
	Context
	key, val any
}

func (c *valueCtx) Value(k any) any {
	if c.key == k {
		return c.val
	}
	return c.Context.Value(k)
}

// WithValue is context.WithValue.
func WithValue(parent Context, key, val any) Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}

type selfKey struct{}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	if c.detach {
		return time.Time{}, false
	}
	return c.parent.Deadline()
}

func (c *cancelCtx) Done() <-chan struct{} {
	if c.detach {
		return nil
	}
	return c.done
}

func (c *cancelCtx) Err() error {
	if c.detach {
		return nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cancelCtx) Value(k any) any {
	if _, ok := k.(selfKey); ok {
		if c.detach {
			return nil
		}
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) String() string { return "simcontext" }

func (c *cancelCtx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err = err
	c.cause = cause
	simrt.Close(c.done)
	ch := c.children
	fs := c.funcs
	c.children = nil
	c.funcs = nil
	c.mu.Unlock()
	for _, x := range ch {
		x.cancel(err, cause)
	}
	for _, f := range fs {
		if !f.done {
			f.done = true
			simrt.Go(f.f)
		}
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(selfKey{}).(*cancelCtx); ok && p != nil {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
			return c
		}
		p.children = append(p.children, c)
		p.mu.Unlock()
	} else if d := parent.Done(); d != nil {
		simrt.Go(func() {
			a, b := simrt.NewRecv(d), simrt.NewRecv(c.done)
			if simrt.Select(false, a, b) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(real.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(real.Canceled, cause) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return c, func() { c.cancel(real.Canceled, nil) }
	}
	c.deadline, c.hasDL = d, true
	if w := time.Until(d); w <= 0 {
		c.cancel(real.DeadlineExceeded, cause)
	} else {
		c.timer = time.AfterFunc(w, func() { c.cancel(real.DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(real.Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent Context) Context {
	return &cancelCtx{parent: parent, detach: true}
}

// Cause is context.Cause.
func Cause(c Context) error {
	if p, ok := c.Value(selfKey{}).(*cancelCtx); ok && p != nil {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx Context, f func()) func() bool {
	p, ok := ctx.Value(selfKey{}).(*cancelCtx)
	if !ok || p == nil {
		return func() bool { return true }
	}
	a := &afterFunc{f: f}
	p.mu.Lock()
	if p.err != nil {
		p.mu.Unlock()
		a.done = true
		simrt.Go(f)
		return func() bool { return false }
	}
	p.funcs = append(p.funcs, a)
	p.mu.Unlock()
	return func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		if a.done {
			return false
		}
		a.done = true
		return true
	}
}
