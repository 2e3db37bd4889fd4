package simharness

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"simfs"
	"simrt"
	simos "simshim/os"
	"simshim/sync"
	stime "simshim/time"
	"sort"
	"strings"
	"syscall"
	"time"

	wwr "github.com/qbeon/webwire-go"
)

// The default session manager (C14, C15) on a simulated file system: several
// keys, concurrent creations, lookups and closures in the orders the server can
// produce, process kills inside and between file operations, I/O errors, short
// writes, restarts, hostile keys.

func init() {
	reg(&Scenario{Name: "dsm", Main: func() { runDSM(dsmPlain) }})
	reg(&Scenario{Name: "dsmfault", Main: func() { runDSM(dsmFault) }})
	reg(&Scenario{Name: "dsmkill", Main: func() { runDSM(dsmKill) }})
	reg(&Scenario{Name: "dsmkillfault", Main: func() { runDSM(dsmKill | dsmFault) }})
	reg(&Scenario{Name: "dsmswitch", Main: func() { runDSM(dsmSwitch) }})
}

const (
	dsmPlain = 0
	dsmFault = 1 << iota
	dsmKill
	dsmSwitch
)

var (
	c14   = []string{"C14"}
	c15   = []string{"C15"}
	c1415 = []string{"C14", "C15"}
)

type dsmIv struct {
	t0, t1 int64 // simulated time
	start  uint64
	open   bool
}

type dsmSess struct {
	key            string
	creation, last time.Time
	info           map[string]interface{}
	createStart    uint64
	stored         uint64 // creation reported complete
	createBusy     bool
	closeStart     uint64
	closed         uint64 // closure reported complete
	closing        bool
	looks          []*dsmIv
	neverKeep      bool
	closeAttempted int
}

// dsmCon stands for a connection the server passes to the manager.
type dsmCon struct {
	wwr.Connection
	lock sync.RWMutex
	sess *wwr.Session
}

func (c *dsmCon) Session() *wwr.Session {
	c.lock.RLock()
	defer c.lock.RUnlock()
	return c.sess.Clone()
}
func (c *dsmCon) SessionKey() string {
	if s := c.Session(); s != nil {
		return s.Key
	}
	return ""
}
func (c *dsmCon) HasSession() bool { return c.Session() != nil }
func (c *dsmCon) SessionCreation() time.Time {
	if s := c.Session(); s != nil {
		return s.Creation
	}
	return time.Time{}
}
func (c *dsmCon) SessionInfo(n string) interface{} {
	if s := c.Session(); s != nil && s.Info != nil {
		return s.Info.Value(n)
	}
	return nil
}
func (c *dsmCon) IsActive() bool       { return true }
func (c *dsmCon) Info(int) interface{} { return nil }
func (c *dsmCon) Creation() time.Time  { return time.Unix(1, 0) }

type dsm struct {
	mode    int
	fs      *simfs.FS
	dir     string
	arg     string
	mng     *wwr.DefaultSessionManager
	grp     *simrt.Group
	sess    []*dsmSess
	nextKey int
	faultAt []uint64
	budget  int
	closes  []uint64
	calm    bool
	running int
	inner   func() bool
	used    map[string]bool // hostile keys given to sessions
}

// defaultDir decides how the process was started and returns the directory
// its sessions belong into by default.
func defaultDir(f *simfs.FS) string {
	switch wi(3) {
	case 0:
		simos.Args = []string{"/srv/server"} // from any working directory
		return "/srv/wwrsess"
	case 1:
		simos.Args = []string{"./server"}
	default:
		simos.Args = []string{"/cwd/server", "-x"}
	}
	return "/cwd/wwrsess"
}

// chdir: the next process may be started from elsewhere.
func chdir(f *simfs.FS) {
	if strings.HasPrefix(simos.Args[0], "/") {
		f.Cwd = []string{"/cwd", "/tmp", "/srv", "/data"}[wi(4)]
	}
}

func runDSM(mode int) {
	simos.Args = []string{"/cwd/server"}
	d := &dsm{used: map[string]bool{}, mode: mode, fs: simfs.New(), dir: "/data/sess", arg: "/data/sess"}
	simrt.SetFS(d.fs)
	d.fs.IsRoot = pct(50)
	if pct(20) {
		d.dir, d.arg = defaultDir(d.fs), ""
	} else if pct(30) {
		d.dir, d.arg = "/data/deep/er/sess", "/data/deep/er/sess"
	}
	d.plant()
	d.fs.AllowedDir = d.dir
	d.fs.Fault = d.fault
	d.fs.TornLen = func(n int) int { return simrt.FaultStream().Intn(n + 1) }
	d.budget = 1 + wi(3)
	lives := 1 + wi(3)
	for life := 0; life < lives; life++ {
		d.live(life, life == lives-1)
	}
	d.checkEscapes()
}

// plant creates files no key may ever name.
func (d *dsm) plant() {
	js := []byte(`{"c":"2001-01-01T00:00:00Z","l":"2001-01-01T00:00:00Z","i":{"secret":"x"}}`)
	put := func(dir, name string) {
		n := d.fs.Root
		for _, p := range strings.Split(strings.Trim(dir, "/"), "/") {
			if n.Kids[p] == nil {
				n.Kids[p] = &simfs.Node{IsDir: true, Mode: 0755 | 1<<31, Kids: map[string]*simfs.Node{}}
			}
			n = n.Kids[p]
		}
		n.Kids[name] = &simfs.Node{Mode: 0644, Data: append([]byte(nil), js...)}
	}
	par := d.dir[:strings.LastIndex(d.dir, "/")]
	put(par, "secret.wwrsess")
	put("/tmp", "other.wwrsess")
	if pct(40) {
		put(d.dir+"/sub", "inner.wwrsess")
		sub := d.fs.Root
		for _, p := range strings.Split(strings.Trim(d.dir+"/sub", "/"), "/") {
			sub = sub.Kids[p]
		}
		d.inner = func() bool {
			n := sub.Kids["inner.wwrsess"]
			return len(sub.Kids) == 1 && n != nil && string(n.Data) == string(js)
		}
	}
}

func (d *dsm) fault(op, path string, n int) (error, int) {
	if d.mode&dsmFault == 0 || d.calm || d.budget == 0 || !simrt.FaultStream().Chance(1, 12) {
		return nil, -1
	}
	d.budget--
	Stats["fault.fs."+op]++
	d.faultAt = append(d.faultAt, simrt.EvSeq())
	e := []error{syscall.EIO, syscall.ENOSPC, syscall.EMFILE}[simrt.FaultStream().Intn(3)]
	return e, simrt.FaultStream().Intn(n + 1)
}

// faulted: an injected failure hit something since seq.
func (d *dsm) faulted(since uint64) bool {
	return len(d.faultAt) > 0 && d.faultAt[len(d.faultAt)-1] >= since
}

func (d *dsm) checkEscapes() {
	if len(d.fs.Escapes) > 0 {
		simrt.Fail("check", c15, "files outside the session directory were touched: %v", d.fs.Escapes)
		d.fs.Escapes = nil
	}
	if d.inner != nil && !d.inner() {
		simrt.Fail("check", c15, "a file in a directory below the session directory was touched")
		d.inner = nil
	}
}

// live is the life of one process.
func (d *dsm) live(life int, last bool) {
	d.calm = true
	chdir(d.fs)
	if err := func() (err any) {
		defer func() { err = recover() }()
		d.mng = wwr.NewDefaultSessionManager(d.arg)
		return nil
	}(); err != nil {
		simrt.Fail("check", c14, "the session manager can't start over the session directory: %v", err)
		return
	}
	d.calm = false
	grp := &simrt.Group{Name: fmt.Sprint("process ", life)}
	d.grp = grp
	d.running = 0
	d.fs.Killed, d.fs.Victim, d.fs.KillAt = false, nil, 0
	if d.mode&dsmKill != 0 && !last {
		d.fs.Victim = grp
		d.fs.KillAt = d.fs.Ops + 1 + wi(30)
	}
	n := 2 + wi(4)
	for i := 0; i < n; i++ {
		d.running++
		ops := 1 + wi(5)
		simrt.GoIn(grp, fmt.Sprintf("harness: user %d.%d", life, i), func() {
			for j := 0; j < ops; j++ {
				d.op()
			}
			d.running--
		})
	}
	simrt.Settle(1000 * ms)
	if d.fs.Killed {
		for _, s := range d.sess {
			s.createBusy, s.closing = false, false
			for _, l := range s.looks {
				if l.open {
					l.open, l.t1 = false, simrt.Now()
				}
			}
		}
		Stats["fault.kill"]++
		simrt.Note("killed")
	} else if d.running > 0 {
		simrt.Fail("liveness", c1415, "a session manager call never returned: %s", strings.Join(simrt.Blocked(), "; "))
		return
	} else {
		d.fs.KillAt, d.calm = 0, true
		// At rest: every key must give a definite answer.
		for _, s := range append([]*dsmSess(nil), d.sess...) {
			d.lookup(s)
		}
		d.calm = false
	}
	if d.fs.Killed || pct(50) {
		// The survivors' view after a restart.
		d.fs.KillAt = 0
		d.calm = true
		grp.Dead = true
		chdir(d.fs)
		d.mng = wwr.NewDefaultSessionManager(d.arg)
		for _, s := range append([]*dsmSess(nil), d.sess...) {
			d.lookup(s)
		}
		d.calm = false
	}
	if last && pct(50) {
		for _, s := range d.sess {
			if s.closed == 0 && s.stored != 0 && s.closeAttempted == 0 {
				d.close(s)
				d.lookup(s)
			}
		}
	}
}

func (d *dsm) pick(f func(*dsmSess) bool) *dsmSess {
	var c []*dsmSess
	for _, s := range d.sess {
		if f == nil || f(s) {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[wi(len(c))]
}

func (d *dsm) op() {
	switch wi(4) {
	case 0:
		simrt.Sleep(int64(1+wi(5)) * ms)
	case 1:
		for i := wi(12); i > 0; i-- {
			simrt.Yield()
		}
	}
	k := wi(20)
	switch {
	case k < 5 || len(d.sess) == 0:
		d.create()
	case k < 13:
		if s := d.pick(nil); s != nil {
			d.lookup(s)
		}
	case k < 17:
		// The server closes a session once, after its creation hook returned.
		s := d.pick(func(s *dsmSess) bool { return !s.createBusy && !s.closing && s.closed == 0 })
		if s != nil {
			d.close(s)
		}
	case k < 19 && d.mode&dsmSwitch != 0:
		d.createSwitched()
	case k < 18:
		d.createBad()
	default:
		d.hostile()
	}
}

// createBad: a session whose info can't be stored, or whose key (made by a
// custom generator) can't name a file.
func (d *dsm) createBad() {
	s, w := d.newSess()
	s.neverKeep = true
	what := "info that can't be encoded"
	if wi(2) == 0 {
		what = "hostile key"
		w.Key = d.hostileKey()
		for _, o := range d.sess {
			if o.key == w.Key {
				return
			}
		}
		if d.used[w.Key] {
			return
		}
		d.used[w.Key] = true
		s.key = w.Key
	} else {
		if s.info == nil {
			s.info = map[string]interface{}{}
		}
		s.info["bad"] = []interface{}{math.NaN(), func() {}, make(chan int), map[int]chan int{1: nil}}[wi(4)]
		w.Info = badInfo(s.info)
	}
	Stats["fault.unstorable session"]++
	start := simrt.EvSeq()
	s.createBusy = true
	err := d.guard("OnSessionCreated", func() error { return d.mng.OnSessionCreated(&dsmCon{sess: w}) })
	s.createBusy = false
	simrt.Note("create %q with %s: %v", s.key, what, err)
	d.checkEscapes()
	clean := func() bool { return !d.faulted(start) && !d.fs.Killed }
	var r wwr.SessionLookupResult
	lerr := d.guard("OnSessionLookup", func() (err error) { r, err = d.mng.OnSessionLookup(s.key); return })
	found := lerr == nil && r != nil && !reflect.ValueOf(r).IsNil()
	simrt.Note("look it up: found %v, %v", found, lerr)
	d.checkEscapes()
	switch {
	case what == "hostile key" && err == nil && clean():
		if !found {
			simrt.Fail("check", c14, "the session with the key %q, reported as stored, was not found: %v", s.key, lerr)
		}
		cerr := d.guard("OnSessionClosed", func() error { return d.mng.OnSessionClosed(s.key) })
		d.checkEscapes()
		if cerr != nil && clean() {
			simrt.Fail("check", c15, "closing the stored session %q failed: %v", s.key, cerr)
		}
	case err == nil && what != "hostile key":
		if clean() {
			simrt.Fail("check", c14, "session %q was reported as stored with info that can't be stored: %v", s.key, s.info)
		}
	case found:
		if clean() {
			simrt.Fail("check", c14, "session %q, which could not be stored, was found", s.key)
		}
	case lerr != nil && what != "hostile key":
		if clean() {
			simrt.Fail("check", c14, "the attempt to store session %q, which has %s, makes looking it up fail: %v", s.key, what, lerr)
		}
	case wi(2) == 0:
		// The server may close a session its manager couldn't store.
		d.guard("OnSessionClosed", func() error { return d.mng.OnSessionClosed(s.key) })
		d.checkEscapes()
	}
}

// badInfo is a session info with values no file can hold.
type badInfo map[string]interface{}

func (b badInfo) Fields() []string {
	var f []string
	for k := range b {
		f = append(f, k)
	}
	sort.Strings(f)
	return f
}
func (b badInfo) Value(n string) interface{} { return b[n] }
func (b badInfo) Copy() wwr.SessionInfo {
	c := badInfo{}
	for k, v := range b {
		c[k] = v
	}
	return c
}

func (d *dsm) newSess() (*dsmSess, *wwr.Session) {
	d.nextKey++
	i := d.nextKey
	s := &dsmSess{key: fmt.Sprintf("key%d", i)}
	switch wi(8) {
	case 0:
		s.key = fmt.Sprintf("k%d-%s_=", i, string(fill(fmt.Sprint(i), 20, false)[:0]))
	case 1:
		s.key = "key" + strings.Repeat("x", i) // prefixes of each other
	case 2:
		s.key = fmt.Sprintf("..%d", i)
	case 3:
		s.key = fmt.Sprintf("a b%d.wwrsess", i)
	}
	base := time.Date(2020, 5, 5, 5, 5, 5, 0, time.UTC).Add(time.Duration(simrt.Now())).Add(time.Duration(i*1001) * time.Nanosecond)
	s.creation, s.last = base, base
	if wi(3) == 0 {
		s.last = base.Add(time.Duration(wi(1000)) * time.Millisecond)
	}
	switch wi(6) {
	case 0:
	case 4, 5:
		s.info = map[string]interface{}{}
		for _, k := range []string{"user", "", ".", "ünï", "User", "a<b>&c", "q\"\\", "\u2028", "k9"}[:wi(10)] {
			s.info[k] = jsonValue(0)
		}
	case 1:
		s.info = map[string]interface{}{"user": fmt.Sprintf("u%d", i)}
	case 2:
		s.info = map[string]interface{}{"user": fmt.Sprintf("u%d", i), "n": float64(i) + 0.25, "ok": true, "list": []interface{}{"a", float64(2), nil}}
	default:
		s.info = map[string]interface{}{"text": string(fill(fmt.Sprint("i", i), 40+wi(200), true))}
	}
	w := &wwr.Session{Key: s.key, Creation: s.creation, LastLookup: s.last}
	if s.info != nil {
		w.Info = wwr.GenericSessionInfoParser(s.info)
	}
	return s, w
}

func (d *dsm) create() {
	s, w := d.newSess()
	con := &dsmCon{sess: w}
	s.createBusy = true
	s.createStart = simrt.EvSeq()
	d.sess = append(d.sess, s)
	err := d.guard("OnSessionCreated", func() error { return d.mng.OnSessionCreated(con) })
	s.createBusy = false
	simrt.Note("create %s: %v", s.key, err)
	if err == nil {
		s.stored = simrt.EvSeq()
		Stats["reach.stored"]++
	} else {
		Stats["reach.store failed"]++
		if !d.faulted(s.createStart) {
			simrt.Fail("check", c14, "storing session %q failed without a cause: %v", s.key, err)
		}
	}
	d.checkEscapes()
}

func (d *dsm) guard(what string, f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if strings.Contains(fmt.Sprintf("%T", p), "simrt.") {
				panic(p)
			}
			err = errors.New("panic")
			simrt.Fail("check", c1415, "%s panicked: %v", what, p)
		}
	}()
	return f()
}

// createSwitched: while the creation hook of a new session runs, its connection
// loses the session or switches to an existing one, which may get closed.
func (d *dsm) createSwitched() {
	s, w := d.newSess()
	s.neverKeep = true // may not be stored although the hook reported success
	con := &dsmCon{sess: w}
	old := d.pick(func(o *dsmSess) bool {
		return o.stored != 0 && !o.closing && o.closed == 0 && o.closeAttempted == 0
	})
	mode := wi(3)
	y0, y1 := wi(12), wi(25)
	if old != nil && mode > 0 {
		old.closing = true // reserved for the switcher
	} else {
		old = nil
	}
	pause := func(n int) {
		for i := 0; i < n; i++ {
			simrt.Yield()
		}
	}
	d.running++
	simrt.GoIn(d.grp, "harness: switcher "+s.key, func() {
		pause(y0)
		con.lock.Lock()
		con.sess = nil
		con.lock.Unlock()
		if old != nil {
			Stats["reach.session switched"]++
			con.lock.Lock()
			con.sess = &wwr.Session{Key: old.key, Creation: old.creation, LastLookup: old.last}
			if old.info != nil {
				con.sess.Info = wwr.GenericSessionInfoParser(old.info)
			}
			con.lock.Unlock()
			pause(y1)
			if mode > 1 {
				// The server closes a session holding the connection's session lock.
				con.lock.Lock()
				d.close(old)
				con.sess = nil
				con.lock.Unlock()
			} else {
				// It leaves the session, another connection may close it then.
				con.lock.Lock()
				con.sess = nil
				con.lock.Unlock()
				old.closing = false
			}
		}
		d.running--
	})
	pause(wi(14))
	s.createBusy = true
	s.createStart = simrt.EvSeq()
	d.sess = append(d.sess, s)
	err := d.guard("OnSessionCreated", func() error { return d.mng.OnSessionCreated(con) })
	s.createBusy = false
	simrt.Note("create %s with a switched connection: %v", s.key, err)
}

func (d *dsm) lookup(s *dsmSess) {
	l := &dsmIv{t0: simrt.Now(), start: simrt.EvSeq(), open: true}
	s.looks = append(s.looks, l)
	var r wwr.SessionLookupResult
	err := d.guard("OnSessionLookup", func() (err error) { r, err = d.mng.OnSessionLookup(s.key); return })
	l.open, l.t1 = false, simrt.Now()
	found := err == nil && r != nil && !reflect.ValueOf(r).IsNil()
	simrt.Note("lookup %s: found %v, %v", s.key, found, err)
	d.checkEscapes()
	switch {
	case found:
		Stats["reach.found"]++
		if s.createStart == 0 {
			simrt.Fail("check", c1415, "session %q was found before it was created", s.key)
		}
		if s.closed != 0 && s.closed < l.start {
			simrt.Fail("check", c15, "the closed session %q was found again", s.key)
		}
		if !r.Creation().Equal(s.creation) {
			simrt.Fail("check", c14, "session %q was found with creation time %s instead of %s", s.key, r.Creation(), s.creation)
		}
		inf := r.Info()
		if len(inf) != len(s.info) || len(inf) > 0 && !reflect.DeepEqual(inf, s.info) {
			simrt.Fail("check", c14, "session %q was found with info %v instead of %v", s.key, inf, s.info)
		}
		ll := r.LastLookup()
		ok := ll.Equal(s.last)
		for _, o := range s.looks {
			end := o.t1
			if o.open {
				end = simrt.Now()
			}
			if !ll.Before(simTime(o.t0)) && !ll.After(simTime(end)) {
				ok = true
			}
		}
		if !ok {
			simrt.Fail("check", c14, "session %q was found with a last lookup time %s that was never recorded", s.key, ll)
		}
	case err != nil:
		Stats["reach.lookup error"]++
		if s.stored != 0 && s.stored < l.start && !s.neverKeep && !d.faulted(l.start) {
			simrt.Fail("check", c14, "looking up the stored session %q failed: %v", s.key, err)
		} else if s.createBusy && !d.faulted(s.createStart) {
			simrt.Fail("check", c14, "looking up session %q failed because it was being created: %v", s.key, err)
		}
	default:
		if s.stored != 0 && s.stored < l.start && s.closeStart == 0 && !s.neverKeep {
			props := c14
			if len(d.closes) > 0 {
				props = c1415
			}
			simrt.Fail("check", props, "the stored session %q was not found", s.key)
		}
		Stats["reach.not found"]++
	}
}

func (d *dsm) close(s *dsmSess) {
	s.closing = true
	s.closeAttempted++
	start := simrt.EvSeq()
	if s.closeStart == 0 {
		s.closeStart = start
	}
	err := d.guard("OnSessionClosed", func() error { return d.mng.OnSessionClosed(s.key) })
	s.closing = false
	d.closes = append(d.closes, simrt.EvSeq())
	simrt.Note("close %s: %v", s.key, err)
	if err == nil {
		s.closed = simrt.EvSeq()
		Stats["reach.closed"]++
	} else if s.stored != 0 && s.closeAttempted == 1 && !s.neverKeep && !d.faulted(start) {
		simrt.Fail("check", c15, "closing the stored session %q failed without a cause: %v", s.key, err)
	}
	d.checkEscapes()
}

func (d *dsm) hostileKey() string {
	real := "nothing"
	if s := d.pick(nil); s != nil {
		real = s.key
	}
	keys := []string{"../secret", "sub/inner", "/tmp/other", "../../tmp/other", "../../../tmp/other", "../../../../tmp/other",
		"x/../" + real, "./" + real, real + "/", real + "\x00", "sub/../" + real, "..", ".", "/", strings.Repeat("k", 300),
		real + ".wwrsess", "..\\secret", "", " ", real + "\n", "../" + d.dir[strings.LastIndex(d.dir, "/")+1:] + "/" + real, "//" + real}
	return keys[wi(len(keys))]
}

func (d *dsm) hostile() {
	k := d.hostileKey()
	if d.used[k] {
		return
	}
	for _, s := range d.sess {
		if s.key == k {
			return
		}
	}
	var r wwr.SessionLookupResult
	err := d.guard("OnSessionLookup", func() (err error) { r, err = d.mng.OnSessionLookup(k); return })
	if d.used[k] {
		return // a session got that key meanwhile
	}
	simrt.Note("hostile lookup %q: %v %v", k, r != nil, err)
	Stats["fault.hostile key"]++
	if err == nil && r != nil && !reflect.ValueOf(r).IsNil() {
		simrt.Fail("check", c15, "the key %q, which no session has, found a session", k)
	}
	d.checkEscapes()
	if wi(3) == 0 {
		d.guard("OnSessionClosed", func() error { return d.mng.OnSessionClosed(k) })
		Stats["fault.hostile closure"]++
		d.checkEscapes()
	}
}

func simTime(t int64) time.Time {
	return stime.Now().Round(0).Add(time.Duration(t - simrt.Now()))
}

// jsonValue makes anything a JSON document can hold.
func jsonValue(d int) interface{} {
	n := 14
	if d > 2 {
		n = 10
	}
	switch wi(n) {
	case 0:
		return nil
	case 1:
		return false
	case 2:
		return true
	case 3:
		return []float64{0, -1, 0.1, 1e21, 1e-9, 9007199254740993, -123456789.25}[wi(7)]
	case 4:
		return ""
	case 5:
		return "<script>&amp;\u2028\x00\t\"\\/"
	case 6:
		return "日本語 😀 é"
	case 7:
		return "2020-01-01T00:00:00Z"
	case 8:
		return map[string]interface{}{}
	case 9:
		return []interface{}{}
	case 10, 11:
		m := map[string]interface{}{}
		for _, k := range []string{"k", "", "K", "c", "l", "i"}[:wi(7)] {
			m[k] = jsonValue(d + 1)
		}
		return m
	default:
		var l = []interface{}{}
		for i := wi(6); i > 0; i-- {
			l = append(l, jsonValue(d+1))
		}
		return l
	}
}
