package simharness

import (
	"simrt"
	"sort"
)

// Scenario is one kind of run.
type Scenario struct {
	Name string
	Main func()
	Tune func(*simrt.Config)
	// OneShot scenarios take a negligible number of choices.
}

// Mix says how often a property's check runs a scenario.
type Mix struct {
	Scenario string
	Weight   int
}

var scenarios = map[string]*Scenario{}

func reg(s *Scenario) { scenarios[s.Name] = s }

// Get finds a scenario.
func Get(name string) *Scenario { return scenarios[name] }

// Names lists all scenarios.
func Names() (out []string) {
	for n := range scenarios {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

func world(name string, mod func(p *Profile)) {
	p := Profile{Name: name, Mem: 20, Sess: 30, NoSess: 8, Gate: 45, Shut: 15, ConClose: 10, Disc: 6, Garbage: 3,
		Sig: 30, Crowd: 10, Epochs: 3, Stall: 100, Rush: 8, MaxConns: []int{0, 1, 2, 3}}
	mod(&p)
	reg(&Scenario{Name: name, Main: func() { RunWorld(p) }})
}

func init() {
	world("general", func(p *Profile) {})
	world("quiet", func(p *Profile) { p.Disc, p.Garbage, p.ConClose, p.Shut, p.Stall, p.Gate = 0, 0, 0, 0, 0, 20 })
	world("messages", func(p *Profile) { p.Sess, p.Sig, p.Disc, p.Garbage, p.ConClose, p.Shut = 5, 50, 2, 2, 3, 5 })
	world("mem", func(p *Profile) { p.Mem, p.Garbage = 100, 3 })
	world("big", func(p *Profile) { p.Big, p.Disc, p.Garbage = 35, 2, 0 })
	world("faults", func(p *Profile) { p.Mem, p.Fault, p.Disc = 0, 70, 4 })
	world("faultsbig", func(p *Profile) { p.Mem, p.Fault, p.Disc, p.Big = 0, 70, 4, 20 })
	world("gate", func(p *Profile) { p.Gate, p.Shut, p.ConClose, p.Sess = 100, 10, 15, 15 })
	world("shutdown", func(p *Profile) { p.Gate, p.Shut, p.Epochs = 75, 80, 2 })
	world("shutdownfaults", func(p *Profile) { p.Gate, p.Shut, p.Epochs, p.Mem, p.Fault = 75, 80, 2, 0, 50 })
	world("close", func(p *Profile) { p.ConClose, p.Shut = 35, 5 })
	world("garbage", func(p *Profile) { p.Garbage, p.Disc, p.Leak, p.Shut = 25, 10, 0, 5 })
	world("leak", func(p *Profile) { p.Garbage, p.Disc, p.Leak, p.Shut, p.Mem = 10, 20, 100, 0, 30 })
	world("crowd", func(p *Profile) { p.Crowd, p.Disc, p.Garbage = 100, 10, 5 })
	world("sessions", func(p *Profile) {
		p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.MaxConns = 75, 5, 0, 20, 3, []int{0, 1, 2, 2, 3}
	})
	world("sessquiet", func(p *Profile) {
		p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.Disc, p.Garbage, p.ConClose = 75, 5, 0, 0, 0, 0, 0, 0
		p.MaxConns = []int{0, 1, 2}
	})
	world("sessfaults", func(p *Profile) {
		p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.SMFault, p.Fault, p.Mem = 75, 5, 0, 10, 3, 60, 30, 0
	})
	world("sesshook", func(p *Profile) {
		p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.SMFault = 75, 5, 0, 10, 3, 80
	})
	world("sessrush", func(p *Profile) {
		p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.Disc, p.Garbage, p.ConClose, p.Rush = 50, 5, 0, 20, 0, 3, 0, 5, 80
		p.MaxConns = []int{0, 0, 2, 3, 4}
	})
	world("rushfaults", func(p *Profile) {
		p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.Disc, p.Garbage, p.ConClose, p.Rush = 50, 5, 0, 20, 0, 3, 0, 5, 80
		p.MaxConns, p.Fault, p.Mem, p.SMFault = []int{0, 0, 2, 3, 4}, 30, 0, 30
	})
	world("sessrace", func(p *Profile) {
		p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.ConClose, p.Garbage, p.MaxConns = 40, 3, 0, 10, 3, 5, 1, []int{0, 0, 2, 3}
	})
	world("long", func(p *Profile) {
		p.Long, p.Epochs, p.Disc, p.Garbage, p.ConClose, p.Shut, p.Rush = 100, 2, 1, 0, 1, 8, 0
	})
	world("flood", func(p *Profile) {
		p.Flood, p.Long, p.Epochs, p.Disc, p.Garbage, p.ConClose, p.Shut, p.Rush, p.Stall, p.Sess = true, 100, 1, 0, 0, 35, 45, 0, 0, 2
		p.Gate, p.Crowd, p.Limit = 100, 0, []int{-1, -1, 130, 260, 600}
	})
	world("many", func(p *Profile) { p.Many, p.Epochs, p.Sess, p.MaxConns = 100, 2, 50, []int{0, 2, 8, 16, 17} })
	world("hoard", func(p *Profile) {
		p.Hoard, p.Epochs, p.Rush, p.NoSess, p.Mem, p.Disc, p.Garbage, p.Crowd, p.Stall = true, 2, 100, 0, 0, 0, 0, 0, 0
		p.MaxConns = []int{0, 0, 255, 256, 257, 280}
	})
	world("sessinfo", func(p *Profile) {
		p.Info, p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.ConClose, p.Garbage, p.MaxConns = 100, 35, 2, 0, 10, 3, 2, 1, []int{0, 0, 2, 3}
	})
	world("keys", func(p *Profile) {
		p.Keys, p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.ConClose, p.Garbage, p.MaxConns = true, 60, 2, 0, 10, 5, 4, 1, []int{0, 0, 2, 3}
	})
	world("panics", func(p *Profile) {
		p.Panics, p.Sess, p.Sig, p.NoSess, p.Gate, p.Shut, p.ConClose, p.Garbage, p.MaxConns = true, 60, 2, 0, 10, 5, 4, 1, []int{0, 0, 2, 3}
		p.SMFault = 30
	})
	world("about", func(p *Profile) { p.Sess, p.Sig, p.ConClose, p.Disc, p.Garbage = 4, 4, 25, 12, 3 })
	world("sesscrowd", func(p *Profile) { p.Sess, p.NoSess, p.Crowd, p.Gate, p.MaxConns = 70, 0, 100, 0, []int{1, 2, 3} })
}

// Plan lists the scenarios of a property's check.
func Plan(prop string) []Mix { return plans[prop] }

// rarely adds an expensive scenario to a plan.
func rarely(name string, l []Mix) []Mix {
	for i := range l {
		l[i].Weight *= 12
	}
	return append(l, Mix{name, 2})
}

var plans = map[string][]Mix{
	"C01": {{"flood", 1}, {"sessfaults", 1}, {"general", 3}, {"quiet", 2}, {"messages", 3}, {"gate", 2}, {"big", 3}, {"faults", 1}, {"mem", 1}, {"close", 1}, {"shutdown", 1}, {"long", 1}, {"many", 1}},
	"C02": {{"flood", 1}, {"messages", 4}, {"general", 2}, {"gate", 3}, {"crowd", 1}, {"garbage", 1}, {"faults", 1}, {"quiet", 1}, {"long", 1}},
	"C03": {{"messages", 4}, {"general", 2}, {"mem", 2}, {"big", 2}, {"faults", 2}, {"gate", 1}, {"shutdown", 1}, {"long", 1}, {"many", 1}},
	"C04": {{"flood", 2}, {"gate", 5}, {"messages", 2}, {"garbage", 1}, {"shutdown", 2}, {"close", 1}, {"timeout", 2}, {"timeoutmem", 1}, {"long", 1}},
	"C05": {{"flood", 2}, {"shutdown", 6}, {"shutdownfaults", 2}, {"general", 1}, {"mem", 1}, {"many", 1}, {"long", 1}},
	"C06": {{"shutdown", 6}, {"shutdownfaults", 2}, {"many", 1}},
	"C07": {{"stalled", 1}, {"stalledmem", 1}, {"sessrush", 1}, {"flood", 1}, {"close", 6}, {"gate", 2}, {"general", 1}, {"mem", 1}, {"many", 1}},
	"C08": {{"stalled", 1}, {"general", 3}, {"garbage", 1}, {"close", 2}, {"faults", 2}, {"mem", 2}, {"shutdown", 1}, {"many", 1}},
	"C09": {{"timeout", 3}, {"timeoutmem", 2}},
	"C10": rarely("hoard", []Mix{{"rushfaults", 1}, {"restart", 1}, {"sessions", 5}, {"sessrush", 3}, {"sesscrowd", 2}, {"sessfaults", 1}, {"close", 1}, {"general", 1}, {"many", 1}}),
	"C11": rarely("hoard", []Mix{{"rushfaults", 1}, {"sesscrowd", 5}, {"sessrush", 2}, {"sessions", 4}, {"sessfaults", 1}, {"many", 1}}),
	"C12": rarely("hoard", []Mix{{"rushfaults", 1}, {"restart", 1}, {"sessions", 5}, {"sesshook", 3}, {"sesscrowd", 2}, {"sessquiet", 1}, {"sessrush", 5}, {"many", 1}}),
	"C13": {{"rushfaults", 1}, {"sessinfo", 1}, {"restart", 1}, {"sessions", 4}, {"sessrush", 2}, {"sessquiet", 3}, {"sessfaults", 2}, {"sesscrowd", 1}, {"long", 1}, {"many", 1}},
	"C14": {{"dsm", 3}, {"dsmfault", 3}, {"dsmkill", 4}, {"dsmkillfault", 2}, {"restart", 3}, {"restartfault", 2}},
	"C15": {{"dsm", 4}, {"dsmfault", 1}, {"dsmkill", 2}, {"dsmkillfault", 1}, {"dsmswitch", 4}, {"restart", 3}, {"restartfault", 1}},
	"C17": {{"stalled", 1}, {"stalledmem", 1}, {"garbage", 4}, {"crowd", 2}, {"leak", 1}, {"general", 1}, {"faults", 1}, {"mem", 1}, {"sesshook", 1}, {"many", 1}, {"long", 1}},
	"C18": {{"memsock", 4}, {"memflow", 2}, {"memredial", 3}, {"mem", 2}},
	"C19": {{"reqman", 3}, {"reqmanstorm", 2}},
	"C20": {{"stream", 1}},
	"C21": {{"memsock", 1}, {"memredial", 1}, {"timeout", 1}, {"reqman", 1}, {"general", 2}, {"sessions", 2}, {"sessrace", 3}, {"shutdown", 1}, {"mem", 1}, {"faults", 1}, {"close", 1}, {"crowd", 1}, {"messages", 1}},
	"C33": {{"sessinfo", 5}},
	"C34": {{"keys", 5}},
	"C36": {{"panics", 5}, {"sesshook", 1}, {"general", 1}, {"messages", 1}, {"shutdown", 1}, {"faults", 1}, {"sessfaults", 1}},
	"C35": {{"about", 5}, {"general", 1}, {"mem", 1}, {"many", 1}, {"shutdown", 1}, {"faults", 1}},
	"C22": {{"rushfaults", 1}, {"faults", 4}, {"faultsbig", 3}, {"shutdownfaults", 1}, {"big", 1}, {"sessfaults", 1}, {"long", 1}},
}

// Stubs names what ran as a stand-in in a property's runs.
func Stubs(prop string) string {
	return "the network (a simulated transport, except in memchan runs), the clients (protocol-level actors), user hooks and, in world runs, the session manager and key generator"
}

// Assumptions lists what a property's check trusts.
func Assumptions(prop string) []string {
	return []string{
		"The source-to-source translation and the simulated Go primitives behave like the Go runtime (checked by tools/selftest.sh).",
		"Goroutines are switched at synchronisation points, loop iterations and, in part of the runs, before plain shared accesses; compiler and hardware reordering is covered only through the happens-before race analysis (C21).",
		"Sampling: a clean batch is evidence, not proof.",
	}
}
