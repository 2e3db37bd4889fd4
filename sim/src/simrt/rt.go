// Package simrt is a deterministic runtime for translated Go code: exactly one
// goroutine runs at a time, every scheduling decision, clock value, timer and
// fault is drawn from recorded choice streams, and time is simulated.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- randomness

// PRNG is a splitmix64 generator.
type PRNG struct{ s uint64 }

// NewPRNG seeds a generator.
func NewPRNG(seed uint64) *PRNG { return &PRNG{s: seed} }

// Next returns the next 64 random bits.
func (p *PRNG) Next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Stream is a recorded or replayed sequence of choices. 0 is always the
// simplest choice.
type Stream struct {
	rng    *PRNG
	Rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

func (s *Stream) next(n int, gen func() int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if s.isRep {
		if s.pos < len(s.replay) {
			v = int(s.replay[s.pos]) % n
		} else if s.pos > len(s.replay)+1000000 {
			v = gen() // (zeros forever may keep a loop of the harness going)
		}
		s.pos++
	} else {
		v = gen()
	}
	s.Rec = append(s.Rec, uint32(v))
	return v
}

// Intn draws from [0,n).
func (s *Stream) Intn(n int) int {
	return s.next(n, func() int { return int(s.rng.Next() % uint64(n)) })
}

// Chance draws a boolean that is true num times out of den.
func (s *Stream) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	return s.next(2, func() int {
		if int(s.rng.Next()%uint64(den)) < num {
			return 1
		}
		return 0
	}) == 1
}

// Streams holds the three choice streams of a run.
type Streams struct {
	Work, Sched, Fault *Stream
}

// NewStreams makes recording streams from a seed.
func NewStreams(seed uint64) *Streams {
	base := NewPRNG(seed)
	return &Streams{
		Work:  &Stream{rng: NewPRNG(base.Next())},
		Sched: &Stream{rng: NewPRNG(base.Next())},
		Fault: &Stream{rng: NewPRNG(base.Next())},
	}
}

// ReplayStreams makes replaying streams.
func ReplayStreams(work, sched, fault []uint32) *Streams {
	return &Streams{
		Work:  &Stream{rng: NewPRNG(1), replay: work, isRep: true},
		Sched: &Stream{rng: NewPRNG(2), replay: sched, isRep: true},
		Fault: &Stream{rng: NewPRNG(3), replay: fault, isRep: true},
	}
}

// ---------------------------------------------------------------- goroutines

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDead
)

// Group is a set of goroutines that can be killed together (a process).
type Group struct {
	Name string
	Dead bool
}

// G is a simulated goroutine.
type G struct {
	ID     int
	Name   string
	wake   chan struct{}
	state  int
	reason string
	group  *Group
	prio   uint64
	vc     VC
	killed bool
	fn     func()
	site   string
	wakeOK bool
}

// Strategy selects how the scheduler explores.
type Strategy int

// Scheduling strategies.
const (
	StratRandom Strategy = iota
	StratSticky
	StratPCT
	StratRR
)

// Config configures one run.
type Config struct {
	Streams   *Streams
	MaxSteps  int
	Strategy  Strategy
	SwitchDen int // StratSticky: switch with probability 1/SwitchDen
	PCTPoints int // StratPCT: number of priority change points
	PCTLen    int
	SlipDen   int   // advance the clock early with probability 1/SlipDen (0: never)
	SlipMax   int64 // only to timers at most this far away (ns)
	Race      bool  // happens-before analysis
	AccessDen int   // yield before plain accesses with probability 1/AccessDen (0: never)
	Trace     bool
	PoolMiss  int // sync.Pool Get misses with probability 1/PoolMiss (0: never)
	WallJumps bool
}

// Problem is something that went wrong in a run.
type Problem struct {
	Kind  string // crash, deadlock, livelock, race, oracle
	Props []string
	Msg   string
}

// Result is the outcome of a run.
type Result struct {
	Steps     int
	Switches  int
	SimTime   int64
	Hash      uint64
	SchedHash uint64
	Goroutine int
	Problems  []Problem
	Trace     []string
	Races     int
	Leftover  int
	Stuck     string
}

// Run is the state of the current run.
type Run struct {
	cfg       Config
	gs        []*G
	runnable  []*G
	cur       *G
	steps     int
	switches  int
	now       int64
	wallOff   int64
	timers    timerHeap
	timerSeq  uint64
	over      bool
	done      chan struct{}
	exited    chan struct{}
	hash      uint64
	schedHash uint64
	problems  []Problem
	also      string
	trace     []string
	chans     map[uintptr]*chanState
	atomics   map[uintptr]*atomicState
	shadow    map[uintptr]*shadowWord
	mapShadow map[uintptr]*shadowWord
	raceSeen  map[string]bool
	races     int
	serials   map[uintptr]allocRec
	serialN   uint64
	ticks     int
	stratRng  *PRNG
	pctAt     map[int]bool
	pctLow    uint64
	settlers  []*settler
	noYield   int
	evSeq     uint64
	pools     []poolResetter
	loopSites map[string]int
	fs        any
	randN     uint64
}

type poolResetter interface{ ResetPool() }

type settler struct {
	g   *G
	gap int64
}

// R is the current run.
var R *Run

// Active reports whether simulated code is running.
func Active() bool { return R != nil && !R.over }

// Exec runs main to completion under the simulator.
func Exec(cfg Config, main func()) *Result {
	if R != nil {
		panic("nested simulation")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 300000
	}
	r := &Run{
		cfg:       cfg,
		done:      make(chan struct{}, 1),
		exited:    make(chan struct{}, 1),
		chans:     map[uintptr]*chanState{},
		atomics:   map[uintptr]*atomicState{},
		shadow:    map[uintptr]*shadowWord{},
		mapShadow: map[uintptr]*shadowWord{},
		raceSeen:  map[string]bool{},
		serials:   map[uintptr]allocRec{},
		stratRng:  NewPRNG(0x5eed),
		pctAt:     map[int]bool{},
		pctLow:    1 << 32,
		hash:      14695981039346656037,
		schedHash: 14695981039346656037,
	}
	if s := cfg.Streams.Sched; !s.isRep {
		r.stratRng = NewPRNG(s.rng.Next())
	}
	if cfg.Strategy == StratPCT {
		l := cfg.PCTLen
		if l < 10 {
			l = 2000
		}
		for i := 0; i < cfg.PCTPoints; i++ {
			r.pctAt[int(r.stratRng.Next()%uint64(l))] = true
		}
	}
	R = r
	g := r.newG("main", nil, func() {
		r.noYield++
		for _, f := range resets {
			f()
		}
		r.noYield--
		main()
	})
	r.remove(g)
	g.state = gRunning
	r.cur = g
	r.start(g)
	<-r.done
	// Unwind everything that is left.
	res := &Result{}
	for _, x := range r.gs {
		if x.state != gDead {
			res.Leftover++
		}
	}
	res.Stuck = r.dump()
	for i := 0; i < len(r.gs); i++ {
		x := r.gs[i]
		if x.state == gDead {
			continue
		}
		x.killed = true
		if x.wake == nil { // never started
			x.state = gDead
			continue
		}
		r.cur = x
		x.wake <- struct{}{}
		<-r.exited
	}
	for _, p := range r.pools {
		p.ResetPool()
	}
	R = nil
	res.Steps = r.steps
	res.Switches = r.switches
	res.SimTime = r.now
	res.Hash = r.hash
	res.SchedHash = r.schedHash
	res.Goroutine = len(r.gs)
	res.Problems = r.problems
	res.Trace = r.trace
	res.Races = r.races
	return res
}

func (r *Run) newG(name string, grp *Group, fn func()) *G {
	g := &G{ID: len(r.gs), Name: name, fn: fn, group: grp, state: gRunnable}
	g.prio = r.stratRng.Next()>>1 + (1 << 33)
	if r.cfg.Race {
		if r.cur != nil {
			g.vc = r.cur.vc.clone()
			r.cur.tick()
		}
		g.tick()
	}
	r.gs = append(r.gs, g)
	r.runnable = append(r.runnable, g)
	return g
}

func (r *Run) start(g *G) {
	g.wake = make(chan struct{}, 1)
	go func() {
		normal := false
		defer func() {
			if !normal {
				if v := recover(); v != nil && !r.over {
					r.problem(Problem{Kind: "crash",
						Msg: fmt.Sprintf("panic in goroutine %d (%s): %v\n%s",
							g.ID, g.Name, v, trimStack(string(debug.Stack())))})
					g.state = gDead
					r.finish()
					return
				}
			}
			g.state = gDead
			if r.over {
				if g.killed {
					r.exited <- struct{}{}
				}
				return
			}
			if g.ID == 0 {
				r.finish()
				return
			}
			r.dispatch()
		}()
		fn := g.fn
		g.fn = nil
		fn()
		normal = true
	}()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "goroutine ") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "\t") {
			continue
		}
		file := ""
		if i+1 < len(lines) && strings.HasPrefix(lines[i+1], "\t") {
			file = strings.TrimSpace(lines[i+1])
			if j := strings.Index(file, " +0x"); j >= 0 {
				file = file[:j]
			}
			if j := strings.Index(file, "/src/"); j >= 0 {
				file = file[j+5:]
			}
		}
		if j := strings.LastIndex(l, "("); j > 0 {
			l = l[:j]
		}
		if strings.HasPrefix(l, "runtime/debug.") || strings.HasPrefix(l, "simrt.(*Run).start") ||
			strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "created by") {
			continue
		}
		out = append(out, "    "+l+"  "+file)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// finish ends the run; the caller must not run simulated code afterwards.
func (r *Run) finish() {
	if r.over {
		return
	}
	r.over = true
	r.done <- struct{}{}
}

// abort ends the run from inside a goroutine and parks it until it is unwound.
func (r *Run) abort() {
	g := r.cur
	r.finish()
	<-g.wake
	runtime.Goexit()
}

func (r *Run) problem(p Problem) {
	if len(p.Props) > 0 && r.also != "" {
		p.Props = append(p.Props[:len(p.Props):len(p.Props)], r.also)
	}
	r.problems = append(r.problems, p)
}

// AlsoFor makes all further problems of the run count for one more property.
func AlsoFor(prop string) { R.also = prop }

// Fail records a problem without ending the run.
func Fail(kind string, props []string, format string, args ...any) {
	if R == nil || R.over {
		return
	}
	R.problem(Problem{Kind: kind, Props: props, Msg: R.sprintf(format, args...)})
}

// Fatal records a crash (an unrecoverable runtime error) and ends the run.
func Fatal(format string, args ...any) {
	r := R
	if r == nil || r.over {
		return
	}
	r.problem(Problem{Kind: "crash", Msg: fmt.Sprintf(format, args...) + "\n" + trimStack(string(debug.Stack()))})
	r.abort()
}

func (r *Run) mix(a, b uint64) {
	r.schedHash = (r.schedHash ^ (a*31 + b)) * 1099511628211
	r.hash = (r.hash ^ (a*31 + b)) * 1099511628211
}

// sprintf formats without preemption: printing an error may run simulated code.
func (r *Run) sprintf(format string, args ...any) string {
	r.noYield++
	defer func() { r.noYield-- }()
	return fmt.Sprintf(format, args...)
}

// Note mixes an observable event into the run's hash and, when tracing, into
// its trace.
func Note(format string, args ...any) {
	r := R
	if r == nil || r.over {
		return
	}
	s := r.sprintf(format, args...)
	for i := 0; i < len(s); i++ {
		r.hash = (r.hash ^ uint64(s[i])) * 1099511628211
	}
	if r.cfg.Trace {
		r.tracef("%s", s)
	}
}

func (r *Run) tracef(format string, args ...any) {
	id := -1
	if r.cur != nil {
		id = r.cur.ID
	}
	r.trace = append(r.trace, fmt.Sprintf("t=%-12s step=%-6d g%-3d ", fmtDur(r.now), r.steps, id)+r.sprintf(format, args...))
}

// TraceOnly adds a line to the trace, if there is one, leaving the run's hash alone.
func TraceOnly(format string, args ...any) {
	if r := R; r != nil && !r.over && r.cfg.Trace {
		r.tracef(format, args...)
	}
}

// Tracing reports whether the run is traced.
func Tracing() bool { return R != nil && R.cfg.Trace }

func fmtDur(ns int64) string { return fmt.Sprintf("%d.%06dms", ns/1e6, ns%1e6) }

// EvSeq returns the next global event sequence number.
func EvSeq() uint64 {
	R.evSeq++
	return R.evSeq
}

func (r *Run) remove(g *G) {
	for i, x := range r.runnable {
		if x == g {
			r.runnable = append(r.runnable[:i], r.runnable[i+1:]...)
			return
		}
	}
}

// ready makes a blocked goroutine runnable.
func (r *Run) ready(g *G) {
	if g.state != gBlocked {
		return
	}
	g.state = gRunnable
	g.reason = ""
	r.runnable = append(r.runnable, g)
}

func (r *Run) purgeDead() {
	out := r.runnable[:0]
	for _, g := range r.runnable {
		if g.group != nil && g.group.Dead {
			g.state = gBlocked
			g.reason = "killed process"
			continue
		}
		out = append(out, g)
	}
	r.runnable = out
}

// pick chooses the next goroutine among cur (if not nil) and the runnable ones.
// It returns an index: 0 means cur when cur is not nil.
func (r *Run) pick(cur *G) *G {
	n := len(r.runnable)
	if cur != nil {
		n++
	}
	at := func(i int) *G {
		if cur != nil {
			if i == 0 {
				return cur
			}
			return r.runnable[i-1]
		}
		return r.runnable[i]
	}
	i := r.cfg.Streams.Sched.next(n, func() int {
		switch r.cfg.Strategy {
		case StratSticky:
			if cur != nil && r.stratRng.Next()%uint64(r.cfg.SwitchDen) != 0 {
				return 0
			}
			return int(r.stratRng.Next() % uint64(n))
		case StratPCT:
			if r.pctAt[r.steps] && cur != nil {
				r.pctLow--
				cur.prio = r.pctLow
			}
			best := 0
			for j := 1; j < n; j++ {
				if at(j).prio > at(best).prio {
					best = j
				}
			}
			return best
		case StratRR:
			if cur != nil && r.stratRng.Next()%8 != 0 {
				return 0
			}
			if cur != nil {
				return 1
			}
			return 0
		}
		return int(r.stratRng.Next() % uint64(n))
	})
	return at(i)
}

func (r *Run) step() {
	r.steps++
	r.ticks = 0
	if r.steps > r.cfg.MaxSteps {
		r.problem(Problem{Kind: "livelock", Msg: fmt.Sprintf(
			"no end after %d scheduling steps (simulated time %s)\n%s", r.steps, fmtDur(r.now), r.dump())})
		r.abort()
	}
}

// Yield is a preemption point.
func Yield() {
	r := R
	if r == nil || r.noYield > 0 {
		return
	}
	if r.over {
		return
	}
	r.yield()
}

func (r *Run) yield() {
	g := r.cur
	r.step()
	if r.cfg.SlipDen > 0 && len(r.timers) > 0 && r.timers[0].when-r.now <= r.cfg.SlipMax &&
		r.cfg.Streams.Sched.next(2, func() int {
			if r.stratRng.Next()%uint64(r.cfg.SlipDen) == 0 {
				return 1
			}
			return 0
		}) == 1 {
		r.fireNext()
	}
	if g.group != nil && g.group.Dead {
		g.state = gBlocked
		g.reason = "killed process"
		r.dispatchFrom(g)
		return
	}
	if len(r.runnable) == 0 {
		return
	}
	next := r.pick(g)
	if next == g {
		return
	}
	r.remove(next)
	g.state = gRunnable
	r.runnable = append(r.runnable, g)
	r.switchTo(g, next)
}

// block parks the running goroutine until ready is called for it.
func (r *Run) block(reason string) {
	g := r.cur
	r.step()
	g.state = gBlocked
	g.reason = reason
	r.dispatchFrom(g)
}

func (r *Run) dispatchFrom(g *G) {
	next := r.nextRunnable()
	if next == nil {
		// Quiescent: the run is over although main has not returned.
		if r.gs[0].state != gDead {
			r.problem(Problem{Kind: "deadlock", Msg: "main scenario blocked forever\n" + r.dump()})
		}
		r.abort()
	}
	if next == g {
		g.state = gRunning
		return
	}
	r.switchTo(g, next)
}

// dispatch hands the token on when the running goroutine ended.
func (r *Run) dispatch() {
	next := r.nextRunnable()
	if next == nil {
		if r.gs[0].state != gDead {
			r.problem(Problem{Kind: "deadlock", Msg: "main scenario blocked forever\n" + r.dump()})
		}
		r.finish()
		return
	}
	r.resume(next)
}

func (r *Run) nextRunnable() *G {
	for {
		r.purgeDead()
		if len(r.runnable) > 0 {
			g := r.pick(nil)
			r.remove(g)
			return g
		}
		// Settlers wait for silence.
		if len(r.settlers) > 0 {
			best := -1
			for i, s := range r.settlers {
				if len(r.timers) == 0 || r.timers[0].when-r.now > s.gap {
					best = i
					break
				}
			}
			if best >= 0 {
				s := r.settlers[best]
				r.settlers = append(r.settlers[:best], r.settlers[best+1:]...)
				r.ready(s.g)
				continue
			}
		}
		if len(r.timers) == 0 {
			return nil
		}
		r.fireNext()
	}
}

func (r *Run) switchTo(from, to *G) {
	r.switches++
	r.resume(to)
	<-from.wake
	if from.killed {
		runtime.Goexit()
	}
}

func (r *Run) resume(to *G) {
	to.state = gRunning
	r.cur = to
	r.mix(uint64(to.ID)+1, uint64(r.steps))
	if to.wake == nil {
		r.start(to)
		return
	}
	to.wake <- struct{}{}
}

func (r *Run) dump() string {
	var b strings.Builder
	for _, g := range r.gs {
		if g.state == gBlocked || g.state == gRunnable {
			st := g.reason
			if g.state == gRunnable {
				st = "runnable"
			}
			fmt.Fprintf(&b, "  g%d %s: %s\n", g.ID, g.Name, st)
		}
	}
	return b.String()
}

// Go starts a goroutine in the current group.
func Go(fn func()) {
	goNamed(callerName(2), nil, fn, true)
}

// GoNamed starts a named goroutine in the current group.
func GoNamed(name string, fn func()) { goNamed(name, nil, fn, true) }

// GoIn starts a goroutine in a group.
func GoIn(grp *Group, name string, fn func()) { goNamed(name, grp, fn, false) }

func goNamed(name string, grp *Group, fn func(), inherit bool) {
	r := R
	if r == nil {
		panic("simrt: go statement outside a simulation")
	}
	if r.over {
		return
	}
	if inherit && r.cur != nil {
		grp = r.cur.group
	}
	if len(r.gs) > 20000 {
		r.problem(Problem{Kind: "livelock", Msg: "more than 20000 goroutines\n" + name})
		r.abort()
	}
	r.newG(name, grp, fn)
	r.yield()
}

func callerName(skip int) string {
	pc, _, line, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	n := runtime.FuncForPC(pc).Name()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return fmt.Sprintf("%s:%d", n, line)
}

// CurG returns the id of the running goroutine.
func CurG() int {
	if R == nil || R.cur == nil {
		return -1
	}
	return R.cur.ID
}

// Steps returns the number of scheduling steps so far.
func Steps() int { return R.steps }

// Kill stops a group for good.
func Kill(grp *Group) { grp.Dead = true; Yield() }

// Settle blocks until nothing is runnable and no timer is due within gap.
func Settle(gap int64) {
	r := R
	if r.over {
		runtime.Goexit()
	}
	r.settlers = append(r.settlers, &settler{g: r.cur, gap: gap})
	r.block("settle")
}

// Stuck describes the goroutines that are blocked right now.
func Stuck() string { return R.dump() }

// Blocked lists names and reasons of blocked goroutines.
func Blocked() []string {
	var out []string
	for _, g := range R.gs {
		if g.state == gBlocked {
			out = append(out, g.Name+" | "+g.reason)
		}
	}
	sort.Strings(out)
	return out
}

// NoYield runs f without preemption.
func NoYield(f func()) {
	if R == nil {
		f()
		return
	}
	R.noYield++
	f()
	R.noYield--
}

// Tick is called at the start of every loop iteration of translated code.
func Tick() {
	r := R
	if r == nil || r.over {
		return
	}
	r.ticks++
	if r.ticks%1000 == 0 {
		t := r.ticks
		Yield()
		r.ticks = t
		if r.ticks > 3000000 {
			r.problem(Problem{Kind: "livelock", Msg: "endless loop\n" + trimStack(string(debug.Stack()))})
			r.abort()
		}
	}
}

// WorkStream, FaultStream: the choice streams of the run.
func WorkStream() *Stream  { return R.cfg.Streams.Work }
func FaultStream() *Stream { return R.cfg.Streams.Fault }
func SchedStream() *Stream { return R.cfg.Streams.Sched }

// BlockForever parks the goroutine.
func BlockForever() {
	r := R
	if r == nil {
		select {}
	}
	if r.over {
		runtime.Goexit()
	}
	for {
		r.block("select{}")
	}
}

// Rand64 returns pseudo-random bits that are the same in every run.
func Rand64() uint64 {
	if R == nil {
		return 4
	}
	R.randN++
	return NewPRNG(R.randN * 0x9E37).Next()
}

// NumG counts live goroutines.
func NumG() int {
	n := 0
	if R != nil {
		for _, g := range R.gs {
			if g.state != gDead {
				n++
			}
		}
	}
	return n
}

// Spawn starts a goroutine from scheduler context with the given clock.
func Spawn(name string, fn func(), vc VC) {
	r := R
	if r == nil || r.over {
		return
	}
	cur := r.cur
	var grp *Group
	if cur != nil {
		grp = cur.group
	}
	r.cur = nil
	g := r.newG(name, grp, fn)
	r.cur = cur
	if r.cfg.Race {
		g.vc = vc.clone()
		g.tick()
	}
}
