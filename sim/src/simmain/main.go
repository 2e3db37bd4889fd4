// Command simmain searches for property violations in simulated runs of the
// translated webwire-go.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"simharness"
	"simrt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// RunCfg is everything but the choice streams that determines a run.
type RunCfg struct {
	Scenario  string `json:"scenario"`
	Strategy  int    `json:"strategy"`
	SwitchDen int    `json:"switch_den,omitempty"`
	PCTPoints int    `json:"pct_points,omitempty"`
	PCTLen    int    `json:"pct_len,omitempty"`
	SlipDen   int    `json:"slip_den,omitempty"`
	SlipMax   int64  `json:"slip_max,omitempty"`
	Race      bool   `json:"race,omitempty"`
	AccessDen int    `json:"access_den,omitempty"`
	PoolMiss  int    `json:"pool_miss,omitempty"`
}

// Replay is a self-contained violation.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Cfg      RunCfg   `json:"config"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Steps    int      `json:"steps"`
	Hash     string   `json:"hash"`
	Minimal  bool     `json:"minimised"`
	Work     []uint32 `json:"work"`
	Sched    []uint32 `json:"sched"`
	Fault    []uint32 `json:"fault"`
	Trace    []string `json:"trace,omitempty"`
}

func mixSeed(base uint64, n uint64) uint64 {
	return simrt.NewPRNG(base*0x9E3779B97F4A7C15 + n + 1).Next()
}

// draw derives the run configuration from the seed.
func draw(prop string, seed uint64) RunCfg {
	r := simrt.NewPRNG(seed ^ 0xC0FFEE)
	plan := simharness.Plan(prop)
	tot := 0
	for _, m := range plan {
		tot += m.Weight
	}
	x := int(r.Next() % uint64(tot))
	c := RunCfg{}
	for _, m := range plan {
		if x < m.Weight {
			c.Scenario = m.Scenario
			break
		}
		x -= m.Weight
	}
	switch r.Next() % 8 {
	case 0, 1:
		c.Strategy = int(simrt.StratRandom)
	case 2, 3, 4:
		c.Strategy = int(simrt.StratSticky)
		c.SwitchDen = []int{2, 4, 10, 30}[r.Next()%4]
	case 5, 6:
		c.Strategy = int(simrt.StratPCT)
		c.PCTPoints = int(1 + r.Next()%5)
		c.PCTLen = []int{300, 1000, 4000}[r.Next()%3]
	default:
		c.Strategy = int(simrt.StratRR)
	}
	if r.Next()%3 == 0 {
		c.SlipDen = []int{10, 40, 200}[r.Next()%3]
		c.SlipMax = 30e6
	}
	c.PoolMiss = []int{0, 0, 2, 5}[r.Next()%4]
	if prop == "C21" {
		c.Race = true
	}
	if c.Race || r.Next()%4 == 0 {
		c.AccessDen = []int{3, 10, 30}[r.Next()%3]
	}
	return c
}

func (c RunCfg) config(st *simrt.Streams) simrt.Config {
	cfg := simrt.Config{Streams: st, Strategy: simrt.Strategy(c.Strategy), SwitchDen: c.SwitchDen, PCTPoints: c.PCTPoints,
		PCTLen: c.PCTLen, SlipDen: c.SlipDen, SlipMax: c.SlipMax, Race: c.Race, AccessDen: c.AccessDen, PoolMiss: c.PoolMiss}
	cfg.MaxSteps = 1000000 // several times what the longest runs need
	if c.Scenario == "flood" || c.Scenario == "long" || c.Scenario == "many" || c.Scenario == "hoard" {
		cfg.MaxSteps = 3000000
	}
	if s := simharness.Get(c.Scenario); s != nil && s.Tune != nil {
		s.Tune(&cfg)
	}
	return cfg
}

func execute(c RunCfg, st *simrt.Streams, trace bool) *simrt.Result {
	s := simharness.Get(c.Scenario)
	if s == nil {
		fail("no scenario %q", c.Scenario)
	}
	cfg := c.config(st)
	cfg.Trace = trace
	return simrt.Exec(cfg, s.Main)
}

func relevant(prop string, p simrt.Problem) bool {
	if p.Kind == "race" {
		return prop == "C21"
	}
	if len(p.Props) == 0 {
		return true
	}
	for _, x := range p.Props {
		if x == prop {
			return true
		}
	}
	return false
}

// class is what must stay the same while a failure is minimised: the message
// without its numbers.
func class(p simrt.Problem) string {
	line := p.Msg
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line = line[:i]
	}
	var b strings.Builder
	b.WriteString(p.Kind + ": ")
	inq := false
	for _, r := range line {
		if r == '"' {
			inq = !inq
		}
		if r >= '0' && r <= '9' || inq {
			continue
		}
		b.WriteRune(r)
	}
	s := b.String()
	if i := strings.Index(s, " (server at rest"); i > 0 {
		s = s[:i]
	}
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func find(prop string, res *simrt.Result, known []string) *simrt.Problem {
	for i := range res.Problems {
		p := &res.Problems[i]
		if relevant(prop, *p) && matchKnown(known, *p) == "" {
			return p
		}
	}
	return nil
}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simmain: "+format+"\n", args...)
	os.Exit(2)
}

// ---------------------------------------------------------------- known findings

func matchKnown(known []string, p simrt.Problem) string {
	for _, k := range known {
		if k != "" && strings.Contains(p.Kind+": "+p.Msg, k) {
			return k
		}
	}
	return ""
}

// loadKnown reads lines "property=<id> match=<text>" of the known-findings file.
func loadKnown(path, prop string) (out []string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "finding: property="+prop+" match=") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+prop+" match="))
		}
	}
	return
}

// ---------------------------------------------------------------- worker

// Report is a worker's result.
type Report struct {
	Runs      int            `json:"runs"`
	Steps     int            `json:"steps"`
	Switches  int            `json:"switches"`
	SimNs     int64          `json:"sim_ns"`
	Distinct  []uint64       `json:"-"`
	NDistinct int            `json:"distinct"`
	Stats     map[string]int `json:"stats"`
	Scen      map[string]int `json:"scen"`
	Known     map[string]int `json:"known"`
	Rechecked int            `json:"rechecked"`
	NonDet    string         `json:"nondet"`
	Found     *Replay        `json:"found"`
	Races     int            `json:"races"`
	Samples   []string       `json:"samples"`
	Hashes    []string       `json:"hashes"`
}

func worker(prop string, base uint64, k, of int, secs float64, maxRuns int, known []string, prog string) *Report {
	rep := &Report{Stats: map[string]int{}, Scen: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var progress time.Time
	alive := make(chan uint64, 1)
	go func() {
		var seed uint64
		for {
			select {
			case seed = <-alive:
			case <-time.After(60 * time.Second):
				fmt.Fprintf(os.Stderr, "simmain: run with seed %d (property %s) did not end within 60 s\n", seed, prop)
				os.Exit(3)
			}
		}
	}()
	for n := uint64(k); time.Now().Before(end) && (maxRuns == 0 || rep.Runs < maxRuns); n += uint64(of) {
		seed := mixSeed(base, n)
		select {
		case alive <- seed:
		default:
		}
		if prog != "" && time.Since(progress) > 0 {
			os.WriteFile(prog, []byte(strconv.FormatUint(seed, 10)), 0644)
		}
		c := draw(prop, seed)
		st := simrt.NewStreams(seed)
		res := execute(c, st, false)
		rep.Runs++
		rep.Steps += res.Steps
		rep.Switches += res.Switches
		rep.SimNs += res.SimTime
		rep.Races += res.Races
		rep.Scen[c.Scenario]++
		if !seen[res.SchedHash] && res.Switches >= 10 {
			seen[res.SchedHash] = true
			rep.Distinct = append(rep.Distinct, res.SchedHash)
		}
		for _, p := range res.Problems {
			if relevant(prop, p) {
				if m := matchKnown(known, p); m != "" {
					rep.Known[m]++
				}
			}
		}
		if p := find(prop, res, known); p != nil {
			rep.Found = &Replay{Property: prop, Seed: seed, Cfg: c, Kind: p.Kind, Message: p.Msg, Steps: res.Steps,
				Hash: fmt.Sprintf("%016x", res.Hash), Work: st.Work.Rec, Sched: st.Sched.Rec, Fault: st.Fault.Rec}
			break
		}
		// Determinism: run again from the seed and from the recorded choices.
		if rep.Runs%97 == 1 {
			rep.Rechecked++
			r2 := execute(c, simrt.NewStreams(seed), false)
			r3 := execute(c, simrt.ReplayStreams(st.Work.Rec, st.Sched.Rec, st.Fault.Rec), rep.Runs == 1)
			if r2.Hash != res.Hash || r3.Hash != res.Hash || r2.Steps != res.Steps || r3.Steps != res.Steps {
				rep.NonDet = fmt.Sprintf("seed %d scenario %s: hashes %x %x %x, steps %d %d %d", seed, c.Scenario, res.Hash, r2.Hash, r3.Hash,
					res.Steps, r2.Steps, r3.Steps)
				break
			}
			if rep.Runs == 1 {
				tr := r3.Trace
				if len(tr) > 40 {
					tr = append(append([]string{}, tr[:40]...), fmt.Sprintf("... %d more events", len(r3.Trace)-40))
				}
				rep.Samples = append(rep.Samples, fmt.Sprintf("seed %d scenario %s strategy %d: %d steps, %d context switches, %s simulated\n%s",
					seed, c.Scenario, c.Strategy, res.Steps, res.Switches, time.Duration(res.SimTime), strings.Join(tr, "\n")))
			}
		}
		if len(rep.Hashes) < 20 {
			rep.Hashes = append(rep.Hashes, fmt.Sprintf("%d:%016x", seed, res.Hash))
		}
	}
	for s, v := range simharness.Stats {
		rep.Stats[s] += v
	}
	rep.NDistinct = len(rep.Distinct)
	return rep
}

// ---------------------------------------------------------------- minimisation

func minimise(r *Replay, known []string, budget time.Duration) *Replay {
	end := time.Now().Add(budget)
	want := class(simrt.Problem{Kind: r.Kind, Msg: r.Message})
	best := *r
	size := func(w, s, f []uint32) int {
		n := 0
		for _, x := range [][]uint32{w, s, f} {
			for _, v := range x {
				n++
				if v != 0 {
					n += 4
				}
			}
		}
		return n
	}
	try := func(w, s, f []uint32) bool {
		if time.Now().After(end) {
			return false
		}
		st := simrt.ReplayStreams(w, s, f)
		res := execute(best.Cfg, st, false)
		for i := range res.Problems {
			p := res.Problems[i]
			if relevant(r.Property, p) && matchKnown(known, p) == "" && class(p) == want {
				if size(st.Work.Rec, st.Sched.Rec, st.Fault.Rec) < size(best.Work, best.Sched, best.Fault) {
					best.Work, best.Sched, best.Fault = trim(st.Work.Rec), trim(st.Sched.Rec), trim(st.Fault.Rec)
					best.Message, best.Steps, best.Hash = p.Msg, res.Steps, fmt.Sprintf("%016x", res.Hash)
					return true
				}
				return false
			}
		}
		return false
	}
	get := func(i int) []uint32 {
		return [][]uint32{best.Work, best.Sched, best.Fault}[i]
	}
	with := func(i int, x []uint32) bool {
		a := [][]uint32{best.Work, best.Sched, best.Fault}
		a[i] = x
		return try(a[0], a[1], a[2])
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		before := size(best.Work, best.Sched, best.Fault)
		for _, i := range []int{1, 2, 0} {
			// truncate
			for cut := len(get(i)); cut > 0; cut /= 2 {
				for cut <= len(get(i)) && with(i, get(i)[:len(get(i))-cut]) {
				}
			}
			// zero and remove blocks
			for blk := (len(get(i)) + 1) / 2; blk > 0; blk /= 2 {
				for at := 0; at < len(get(i)) && time.Now().Before(end); at += blk {
					x := get(i)
					hi := at + blk
					if hi > len(x) {
						hi = len(x)
					}
					y := append([]uint32{}, x...)
					nz := false
					for j := at; j < hi; j++ {
						nz = nz || y[j] != 0
						y[j] = 0
					}
					if nz {
						with(i, y)
					}
					if i != 1 || blk > 8 {
						x = get(i)
						if hi <= len(x) {
							with(i, append(append([]uint32{}, x[:at]...), x[hi:]...))
						}
					}
				}
				if blk == 1 && len(get(i)) > 3000 {
					break
				}
			}
		}
		if size(best.Work, best.Sched, best.Fault) >= before {
			break
		}
	}
	best.Minimal = true
	return &best
}

func trim(x []uint32) []uint32 {
	n := len(x)
	for n > 0 && x[n-1] == 0 {
		n--
	}
	return append([]uint32{}, x[:n]...)
}

// ---------------------------------------------------------------- replay

func replay(path string, out *os.File) (*Replay, *simrt.Problem) {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fail("%v", err)
	}
	res := execute(r.Cfg, simrt.ReplayStreams(r.Work, r.Sched, r.Fault), true)
	for _, l := range res.Trace {
		fmt.Fprintln(out, l)
	}
	for _, p := range res.Problems {
		fmt.Fprintf(out, "%s %v: %s\n", p.Kind, p.Props, p.Msg)
	}
	want := class(simrt.Problem{Kind: r.Kind, Msg: r.Message})
	for i := range res.Problems {
		if p := &res.Problems[i]; relevant(r.Property, *p) && class(*p) == want {
			if h := fmt.Sprintf("%016x", res.Hash); h != r.Hash {
				fmt.Fprintf(out, "note: the run's hash is %s, the recorded one %s\n", h, r.Hash)
			}
			return &r, p
		}
	}
	return &r, nil
}

// ---------------------------------------------------------------- master

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func check(prop, tier, outDir, verif string) {
	start := time.Now()
	if simharness.Plan(prop) == nil {
		fail("no plan for %s", prop)
	}
	base := uint64(envInt("VERIF_SEED", 1))
	secs := float64(envInt("SIM_SECS", map[string]int{"quick": 28, "thorough": 420}[tier]))
	nw := envInt("SIM_WORKERS", runtime.NumCPU())
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), prop)
	tmp, err := os.MkdirTemp("", "sim")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	type result struct {
		rep *Report
		err string
	}
	results := make([]result, nw)
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	var mu sync.Mutex
	stop := func(except int) {
		mu.Lock()
		defer mu.Unlock()
		for i, c := range cmds {
			if i != except && c.Process != nil {
				c.Process.Signal(os.Interrupt)
			}
		}
	}
	for i := 0; i < nw; i++ {
		out := filepath.Join(tmp, fmt.Sprint(i))
		cmd := exec.Command(self, "worker", prop, fmt.Sprint(base), fmt.Sprint(i), fmt.Sprint(nw), fmt.Sprint(secs), out, verif)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		var errb strings.Builder
		cmd.Stderr = &errb
		mu.Lock()
		cmds = append(cmds, cmd)
		mu.Unlock()
		if err := cmd.Start(); err != nil {
			fail("%v", err)
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			err := cmd.Wait()
			b, rerr := os.ReadFile(out)
			if rerr != nil {
				results[i].err = fmt.Sprintf("worker %d: %v\n%s", i, err, tail(errb.String(), 60))
				return
			}
			rep := &Report{}
			if json.Unmarshal(b, rep) != nil {
				results[i].err = fmt.Sprintf("worker %d: unreadable report", i)
				return
			}
			if d, e := os.ReadFile(out + ".d"); e == nil {
				for j := 0; j+8 <= len(d); j += 8 {
					var v uint64
					for k := 0; k < 8; k++ {
						v |= uint64(d[j+k]) << (8 * k)
					}
					rep.Distinct = append(rep.Distinct, v)
				}
			}
			results[i].rep = rep
			if rep.Found != nil {
				stop(i)
			}
		}(i)
	}
	wg.Wait()
	searchWall := time.Since(start).Seconds()
	tot := &Report{Stats: map[string]int{}, Scen: map[string]int{}, Known: map[string]int{}}
	distinct := map[uint64]bool{}
	var found *Replay
	trouble := ""
	for _, r := range results {
		if r.rep == nil {
			trouble += r.err + "\n"
			continue
		}
		tot.Runs += r.rep.Runs
		tot.Steps += r.rep.Steps
		tot.Switches += r.rep.Switches
		tot.SimNs += r.rep.SimNs
		tot.Rechecked += r.rep.Rechecked
		tot.Races += r.rep.Races
		tot.Samples = append(tot.Samples, r.rep.Samples...)
		for _, d := range r.rep.Distinct {
			distinct[d] = true
		}
		for s, v := range r.rep.Stats {
			tot.Stats[s] += v
		}
		for s, v := range r.rep.Scen {
			tot.Scen[s] += v
		}
		for s, v := range r.rep.Known {
			tot.Known[s] += v
		}
		if r.rep.NonDet != "" {
			trouble += "not deterministic: " + r.rep.NonDet + "\n"
		}
		if r.rep.Found != nil && (found == nil || len(r.rep.Found.Sched) < len(found.Sched)) {
			found = r.rep.Found
		}
	}
	violations := 0
	if found != nil {
		violations = 1
	}
	evidence(prop, tier, base, verif, outDir, tot, len(distinct), searchWall, start, violations)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, k, tot.Known[k])
	}
	if found != nil {
		m := minimise(found, known, time.Duration(envInt("SIM_MIN_SECS", 20))*time.Second)
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, m.Seed))
		save := func(m *Replay) {
			res := execute(m.Cfg, simrt.ReplayStreams(m.Work, m.Sched, m.Fault), true)
			m.Trace = res.Trace
			b, _ := json.MarshalIndent(m, "", " ")
			os.WriteFile(path, b, 0644)
		}
		save(m)
		// The file must reproduce the violation in a fresh process.
		if err := exec.Command(self, "replay", path).Run(); err == nil {
			save(found)
			if err := exec.Command(self, "replay", path).Run(); err == nil {
				fail("the violation does not replay (seed %d, %s): %s", found.Seed, found.Cfg.Scenario, found.Message)
			}
			m = found
		}
		fmt.Printf("violation of %s after %d runs, seed %d, scenario %s: %d steps, %d+%d+%d recorded choices after minimisation\n%s\n",
			prop, tot.Runs, m.Seed, m.Cfg.Scenario, m.Steps, len(m.Work), len(m.Sched), len(m.Fault), m.Message)
		fmt.Printf("replay with: %s/tools/replay.sh %s\n", verif, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if trouble != "" {
		os.RemoveAll(tmp)
		fail("%s", trouble)
	}
	fmt.Printf("%s %s: held on %d runs (%d distinct schedules), %d steps, %.0f s simulated, %.1f s; %d runs repeated identically\n",
		prop, tier, tot.Runs, len(distinct), tot.Steps, float64(tot.SimNs)/1e9, time.Since(start).Seconds(), tot.Rechecked)
}

func tail(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func evidence(prop, tier string, base uint64, verif, outDir string, t *Report, distinct int, wall float64, start time.Time, viol int) {
	faults, reach := map[string]int{}, map[string]int{}
	for k, v := range t.Stats {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			reach[strings.TrimPrefix(k, "reach.")] = v
		}
	}
	samples := []any{}
	sort.Strings(t.Samples)
	for i, s := range t.Samples {
		if i < 3 {
			samples = append(samples, s)
		}
	}
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": distinct,
		"rule": "One evaluation is one simulated run: seed -> scenario, configuration, workload, schedule and faults, all drawn from one PRNG seeded with VERIF_SEED. " +
			"Distinct: by a hash over every scheduling decision (goroutine chosen at every step, timers fired); non-trivial: the real code ran with at least 10 context switches between simulated goroutines.",
		"samples":                       samples,
		"seeds_per_hour":                int(float64(t.Runs) / wall * 3600),
		"runs_per_hour":                 int(float64(t.Runs+2*t.Rechecked) / wall * 3600),
		"scheduling_steps":              t.Steps,
		"context_switches":              t.Switches,
		"simulated_seconds":             float64(t.SimNs) / 1e9,
		"faults_injected":               faults,
		"rare_states_reached":           reach,
		"runs_per_scenario":             t.Scen,
		"runs_repeated_for_determinism": t.Rechecked,
		"known_findings_seen":           t.Known,
		"components": map[string]any{
			"real": "every package of /repo's working tree (server, message, payload, memchan transport, request manager, session manager) and golang.org/x/sync/semaphore, translated so that goroutines, channels, locks, atomics, select, timers, clocks, map iteration, sync.Pool and file operations go through the simulator",
			"stub": simharness.Stubs(prop),
		},
	}
	e := map[string]any{"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
		"assumptions": simharness.Assumptions(prop), "wall_s": time.Since(start).Seconds(), "violations": viol}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(e, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644); err != nil {
		fail("%v", err)
	}
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: simmain check|worker|replay|run ...")
	}
	switch os.Args[1] {
	case "check": // PROP TIER VERIF
		check(os.Args[2], os.Args[3], "", os.Args[4])
	case "worker": // PROP BASE K OF SECS OUT VERIF
		a := os.Args[2:]
		base, _ := strconv.ParseUint(a[1], 10, 64)
		k, _ := strconv.Atoi(a[2])
		of, _ := strconv.Atoi(a[3])
		secs, _ := strconv.ParseFloat(a[4], 64)
		rep := worker(a[0], base, k, of, secs, envInt("SIM_RUNS", 0), loadKnown(filepath.Join(a[6], "known-findings.txt"), a[0]), a[5]+".seed")
		f, _ := os.Create(a[5] + ".d")
		w := bufio.NewWriter(f)
		for _, d := range rep.Distinct {
			for i := 0; i < 8; i++ {
				w.WriteByte(byte(d >> (8 * i)))
			}
		}
		w.Flush()
		f.Close()
		b, _ := json.Marshal(rep)
		if err := os.WriteFile(a[5]+".tmp", b, 0644); err != nil {
			fail("%v", err)
		}
		os.Rename(a[5]+".tmp", a[5])
	case "replay": // FILE
		r, p := replay(os.Args[2], os.Stdout)
		if p != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, os.Args[2])
			os.Exit(1)
		}
		fmt.Println("the recorded violation did not occur")
	case "survey": // PROP[:SCENARIO] BASE N - count classes of problems
		survey(os.Args[2], os.Args[3], os.Args[4])
	case "hunt": // PROP[,PROP...] BASE N - report the first problem of any property, for development
		hunt(os.Args[2], os.Args[3], os.Args[4])
	case "seed": // PROP SEED - run one seed with a trace
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		prop, scen, _ := strings.Cut(os.Args[2], ":")
		c := draw(prop, seed)
		if scen != "" {
			c.Scenario = scen
		}
		res := execute(c, simrt.NewStreams(seed), true)
		for _, l := range res.Trace {
			fmt.Println(l)
		}
		fmt.Printf("%+v steps %d sim %s hash %x leftover %d\n", c, res.Steps, time.Duration(res.SimTime), res.Hash, res.Leftover)
		for _, p := range res.Problems {
			fmt.Printf("%s %v: %s\n", p.Kind, p.Props, p.Msg)
		}
	default:
		fail("unknown command %s", os.Args[1])
	}
}

// hunt runs the given properties' scenarios in turn until something is wrong.
func hunt(arg, baseS, nS string) {
	props := strings.Split(arg, ",")
	base, _ := strconv.ParseUint(baseS, 10, 64)
	n, _ := strconv.Atoi(nS)
	for i := 0; i < n; i++ {
		prop := props[i%len(props)]
		seed := mixSeed(base, uint64(i))
		c := draw(prop, seed)
		res := execute(c, simrt.NewStreams(seed), false)
		if len(res.Problems) > 0 {
			p := res.Problems[0]
			fmt.Printf("KILLED run %d (%s) %v %s\n", i, c.Scenario, p.Props, class(p))
			return
		}
	}
	fmt.Println("SURVIVED")
}

// survey runs many seeds and counts every class of problem, for development.
func survey(arg, baseS, nS string) {
	prop, scen, _ := strings.Cut(arg, ":")
	base, _ := strconv.ParseUint(baseS, 10, 64)
	n, _ := strconv.Atoi(nS)
	count, first, top := map[string]int{}, map[string]string{}, map[string]int{}
	t0 := time.Now()
	steps := 0
	for i := 0; i < n; i++ {
		seed := mixSeed(base, uint64(i))
		c := draw(prop, seed)
		if scen != "" {
			c.Scenario = scen
		}
		res := execute(c, simrt.NewStreams(seed), false)
		steps += res.Steps
		top[c.Scenario] = max(top[c.Scenario], res.Steps)
		done := map[string]bool{}
		for _, p := range res.Problems {
			k := class(p)
			if done[k] {
				continue
			}
			done[k] = true
			count[k]++
			if first[k] == "" {
				first[k] = fmt.Sprintf("seed %d (%s) %v\n%s", seed, c.Scenario, p.Props, tail(p.Msg, 12))
			}
		}
	}
	var ks []string
	for k := range count {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return count[ks[i]] > count[ks[j]] })
	for _, k := range ks {
		fmt.Printf("%6d  %s\n        first: %s\n", count[k], k, strings.ReplaceAll(first[k], "\n", "\n        "))
	}
	fmt.Printf("%d runs, %d steps, %.2fs\n", n, steps, time.Since(t0).Seconds())
	var ss []string
	for s := range simharness.Stats {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Printf("  %s=%d", s, simharness.Stats[s])
	}
	fmt.Println()
	for s, n := range top {
		fmt.Printf("  check most steps in %s: %d\n", s, n)
	}
}
