package time

import (
	"simrt"
	real "time"
	"unsafe"
)

const hasMonotonic = 1 << 63
const wallToInternal int64 = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

// baseUnix is the simulated wall clock at the start of a run.
const baseUnix int64 = 1_600_000_000

type rtime struct {
	wall uint64
	ext  int64
	loc  *real.Location
}

// Now returns the simulated time with a simulated monotonic reading.
func Now() Time {
	mono := simrt.Now()
	w := mono + simrt.WallOffset()
	sec := baseUnix + floorDiv(w, 1e9)
	nsec := w - floorDiv(w, 1e9)*1e9
	var t Time
	rt := (*rtime)(unsafe.Pointer(&t))
	rt.wall = hasMonotonic | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(nsec)
	rt.ext = mono + 1
	rt.loc = real.UTC
	return t
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// Since is time.Since.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep is time.Sleep.
func Sleep(d Duration) { simrt.Sleep(int64(d)) }

// Timer is the simulated timer (go1.23 semantics).
type Timer struct {
	C  <-chan Time
	ch chan Time
	f  func()
	t  *simrt.Timer
}

func (t *Timer) arm(d Duration) {
	vc := simrt.SnapVC()
	if t.f != nil {
		f := t.f
		t.t = simrt.After(int64(d), func() { simrt.Spawn("AfterFunc", f, vc) })
		return
	}
	ch := t.ch
	t.t = simrt.After(int64(d), func() { simrt.TimerSend(ch, Now(), vc) })
}

// NewTimer is time.NewTimer.
func NewTimer(d Duration) *Timer {
	ch := make(chan Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	if t.ch == nil && t.f == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	simrt.Yield()
	ok := t.t.Cancel()
	if t.ch != nil {
		ok = simrt.TimerDrain(t.ch) || ok
	}
	return ok
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d Duration) bool {
	if t.ch == nil && t.f == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	simrt.Yield()
	ok := t.t.Cancel()
	if t.ch != nil {
		ok = simrt.TimerDrain(t.ch) || ok
	}
	t.arm(d)
	return ok
}

// After is time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is the simulated ticker.
type Ticker struct {
	C  <-chan Time
	ch chan Time
	t  *simrt.Timer
}

func (t *Ticker) arm(d Duration) {
	vc := simrt.SnapVC()
	var fire func()
	fire = func() {
		simrt.TimerSend(t.ch, Now(), vc)
		t.t = simrt.After(int64(d), fire)
	}
	t.t = simrt.After(int64(d), fire)
}

// NewTicker is time.NewTicker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan Time, 1)
	t := &Ticker{C: ch, ch: ch}
	t.arm(d)
	return t
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() { simrt.Yield(); t.t.Cancel(); simrt.TimerDrain(t.ch) }

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d Duration) {
	simrt.Yield()
	t.t.Cancel()
	simrt.TimerDrain(t.ch)
	t.arm(d)
}

// Tick is time.Tick.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
