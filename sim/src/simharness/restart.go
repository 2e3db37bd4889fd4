package simharness

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"log"
	"reflect"
	"simfs"
	"simrt"
	simos "simshim/os"
	"strings"
	"syscall"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// The whole stack over its crashes: the real server with the real session
// manager, key generator and in-memory transport lives in a process that is
// killed inside or between file operations, shut down or abandoned, and starts
// again over the same simulated disk. What a session went through is known from
// the outside only: the operations the clients and handlers asked for, the
// answers they got, and what the session manager reported.

func init() {
	reg(&Scenario{Name: "restart", Main: func() { runRestart(0) }})
	reg(&Scenario{Name: "restartfault", Main: func() { runRestart(dsmFault) }})
}

type rSess struct {
	key      string
	creation time.Time // zero: not seen yet
	from, to int64     // simulated time of the creation call
	info     map[string]interface{}
	started  uint64
	creating bool
	stored   uint64
	hook     uint64 // the closed hook was called
	hooks    int
	closed   uint64 // it reported success
	expl     int    // explicit closures running
	explEver bool
	explEnd  uint64
	lastErr  bool
	conns    int
}

type rReq struct {
	kind  string
	sess  *rSess
	start uint64
	done  bool
	q     simrt.WaitQ
	f     frame
}

type rConn struct {
	l    *rLife
	idx  int
	sock wwr.ClientSocket
	con  wwr.Connection
	reqs map[[8]byte]*rReq
	next uint32
	view *rView
	eof  bool
	dead bool // closed by somebody on purpose
	lost bool // both sides may disagree: closed while something was in flight
}

type rView struct {
	key      string
	creation time.Time
	info     map[string]interface{}
}

// rLife is one process.
type rLife struct {
	w       *rWorld
	n       int
	grp     *simrt.Group
	srv     wwr.Server
	mt      *memchan.Transport
	conns   []*rConn
	dialing map[int]*rConn
	created map[int]*rSess // by goroutine
	running int
	shut    bool
	down    bool // Shutdown returned
	runDone bool
}

type rWorld struct {
	mode    int
	fs      *simfs.FS
	dir     string
	faultAt []uint64
	budget  int
	calm    bool
	sess    map[string]*rSess
	order   []*rSess
	max     int
	parse   bool
	l       *rLife
	infos   int

	byDefault bool // the server is left to choose manager, key generator and parser
}

func runRestart(mode int) {
	w := &rWorld{mode: mode, fs: simfs.New(), dir: "/data/sess", sess: map[string]*rSess{}, parse: !pct(25)}
	simrt.SetFS(w.fs)
	w.fs.IsRoot = pct(50)
	simos.Args = []string{"/cwd/server"}
	if w.byDefault = pct(35); w.byDefault {
		w.dir = defaultDir(w.fs)
	}
	w.fs.AllowedDir = w.dir
	w.fs.Fault = w.fault
	w.fs.TornLen = func(n int) int { return simrt.FaultStream().Intn(n + 1) }
	w.max = []int{0, 0, 1, 2, 3}[wi(5)]
	w.budget = 1 + wi(3)
	lives := 2 + wi(2)
	for i := 0; i < lives; i++ {
		if !w.live(i, i == lives-1) {
			return
		}
	}
	if len(w.fs.Escapes) > 0 {
		simrt.Fail("check", c15, "files outside the session directory were touched: %v", w.fs.Escapes)
	}
}

func (w *rWorld) fault(op, path string, n int) (error, int) {
	if w.mode&dsmFault == 0 || w.calm || w.budget == 0 || !simrt.FaultStream().Chance(1, 12) {
		return nil, -1
	}
	w.budget--
	Stats["fault.fs."+op]++
	w.faultAt = append(w.faultAt, simrt.EvSeq())
	e := []error{syscall.EIO, syscall.ENOSPC, syscall.EMFILE}[simrt.FaultStream().Intn(3)]
	return e, simrt.FaultStream().Intn(n + 1)
}

func (w *rWorld) faulted(since uint64) bool {
	return len(w.faultAt) > 0 && w.faultAt[len(w.faultAt)-1] >= since
}

// rGen is the real key generator, watched.
type rGen struct {
	l   *rLife
	gen wwr.SessionKeyGenerator
}

func (g rGen) Generate() string {
	k := g.gen.Generate()
	w := g.l.w
	if w.sess[k] != nil {
		simrt.Fail("check", []string{"C10", "C12"}, "the session key %q was generated twice", k)
		return k
	}
	if s := g.l.created[simrt.CurG()]; s != nil {
		s.key = k
		w.sess[k] = s
		w.order = append(w.order, s)
	}
	return k
}

// rStore is the real session manager, watched.
type rStore struct {
	l *rLife
	m wwr.SessionManager
}

func (s rStore) OnSessionCreated(con wwr.Connection) error {
	x := s.l.created[simrt.CurG()]
	same := func() bool { return x != nil && con.SessionKey() == x.key }
	before := same()
	since := simrt.EvSeq()
	err := s.m.OnSessionCreated(con)
	simrt.Note("created hook: %v", err)
	if before && same() {
		if err == nil {
			x.stored = simrt.EvSeq()
			Stats["reach.stored"]++
		} else if !s.l.w.faulted(since) {
			simrt.Fail("check", c14, "storing a session failed without a cause: %v", err)
		}
	}
	return err
}

func (s rStore) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	return s.m.OnSessionLookup(key)
}

func (s rStore) OnSessionClosed(key string) error {
	w := s.l.w
	x := w.sess[key]
	if x == nil {
		simrt.Fail("check", []string{"C12"}, "the closed hook was called for an unknown session %q", key)
		return s.m.OnSessionClosed(key)
	}
	since := simrt.EvSeq()
	x.hook = since
	if x.hooks++; x.hooks > 1 && x.closed != 0 {
		simrt.Fail("check", []string{"C12"}, "the closed hook was called %d times for a session", x.hooks)
	}
	if !x.explEver {
		simrt.Fail("check", []string{"C12"}, "a session was destroyed although nobody closed it")
	}
	err := s.m.OnSessionClosed(key)
	simrt.Note("closed hook: %v", err)
	if err == nil {
		x.closed = simrt.EvSeq()
		Stats["reach.closed"]++
	} else if x.stored != 0 && x.hooks == 1 && !w.faulted(since) {
		simrt.Fail("check", c15, "closing a stored session failed without a cause: %v", err)
	}
	return err
}

// rImpl is the server application.
type rImpl struct{ l *rLife }

func (i rImpl) OnClientConnected(_ wwr.ConnectionOptions, con wwr.Connection) {
	if c, ok := con.Info(1).(*rConn); ok {
		c.con = con
	}
}
func (i rImpl) OnClientDisconnected(wwr.Connection, error)            {}
func (i rImpl) OnSignal(context.Context, wwr.Connection, wwr.Message) {}
func (i rImpl) OnRequest(_ context.Context, con wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	w := i.l.w
	arg := string(m.Payload())
	switch string(m.Name()) {
	case "mk":
		s := &rSess{from: simrt.Now(), started: simrt.EvSeq(), creating: true}
		s.info = w.makeInfo(arg)
		i.l.created[simrt.CurG()] = s
		var info wwr.SessionInfo
		if s.info != nil {
			info = wwr.GenericSessionInfoParser(s.info)
		}
		err := con.CreateSession(info)
		delete(i.l.created, simrt.CurG())
		s.to, s.creating = simrt.Now(), false
		if err != nil {
			return wwr.Payload{}, wwr.ErrRequest{Code: "FAILED", Message: err.Error()}
		}
		return wwr.Payload{Data: []byte(s.key)}, nil
	case "cl":
		if s := w.sess[con.SessionKey()]; s != nil {
			s.beginClose()
			defer s.endClose()
		}
		if err := con.CloseSession(); err != nil {
			return wwr.Payload{}, err
		}
	case "sc":
		if s := w.sess[arg]; s != nil {
			s.beginClose()
			defer s.endClose()
		}
		i.l.srv.CloseSession(arg)
	case "bye":
		con.Close()
	}
	return wwr.Payload{Data: []byte("ok")}, nil
}

func (s *rSess) beginClose() { s.expl++; s.explEver = true }
func (s *rSess) endClose()   { s.expl--; s.explEnd = simrt.EvSeq() }

func (w *rWorld) makeInfo(seed string) map[string]interface{} {
	switch seed[0] % 4 {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{"user": seed}
	case 2:
		return map[string]interface{}{"user": seed, "n": float64(len(seed)) + 0.25, "ok": true, "list": []interface{}{"a", float64(2), nil}}
	}
	return map[string]interface{}{"text": string(fill(seed, 40+int(seed[1]), true))}
}

func (w *rWorld) live(n int, last bool) bool {
	l := &rLife{w: w, n: n, dialing: map[int]*rConn{}, created: map[int]*rSess{}}
	w.l = l
	l.grp = &simrt.Group{Name: fmt.Sprint("process ", n)}
	w.fs.Killed, w.fs.Victim, w.fs.KillAt = false, nil, 0
	w.calm = true
	chdir(w.fs)
	lg := log.New(ioutil.Discard, "", 0)
	o := wwr.ServerOptions{
		Sessions:              wwr.Enabled,
		MaxSessionConnections: uint(w.max), WarnLog: lg, ErrorLog: lg, ReadTimeout: time.Hour, MessageBufferSize: 2048,
	}
	if err := func() (err any) {
		defer func() { err = recover() }()
		if w.byDefault {
			o.Sessions = wwr.OptionUnset
			if e := o.Prepare(); e != nil {
				return e
			}
			Stats["reach.default options"]++
		} else {
			o.SessionManager = wwr.NewDefaultSessionManager(w.dir)
			o.SessionKeyGenerator = wwr.NewDefaultSessionKeyGenerator()
		}
		return nil
	}(); err != nil {
		simrt.Fail("check", c14, "the session manager can't start over the session directory: %v", err)
		return false
	}
	w.calm = false
	l.mt = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
		return wwr.ConnectionOptions{Connection: wwr.Accept, Info: map[int]interface{}{1: l.dialing[simrt.CurG()]}}
	}}
	if o.SessionManager == nil || o.SessionKeyGenerator == nil {
		simrt.Fail("check", c14, "a server without explicit session options has no session manager or no key generator")
		return false
	}
	o.SessionManager, o.SessionKeyGenerator = rStore{l, o.SessionManager}, rGen{l, o.SessionKeyGenerator}
	if w.parse && !w.byDefault {
		o.SessionInfoParser = wwr.GenericSessionInfoParser
	}
	srv, err := wwr.NewServer(rImpl{l}, o, l.mt)
	if err != nil {
		panic(fmt.Sprintf("harness: NewServer: %v", err))
	}
	l.srv = srv
	simrt.GoIn(l.grp, "harness: Run", func() {
		srv.Run()
		l.runDone = true
	})
	if n > 0 {
		// What the new process knows about everything that happened before.
		l.spawn("harness: survivor", func() { l.verify() })
		if !l.rest("a request after a restart") {
			return false
		}
	}
	end := wi(6) // how this life ends
	if end < 3 {
		w.fs.Victim = l.grp
		w.fs.KillAt = w.fs.Ops + 1 + wi(40)
	}
	clients := 2 + wi(3)
	for i := 0; i < clients; i++ {
		ops := 2 + wi(6)
		l.spawn(fmt.Sprintf("harness: client %d.%d", n, i), func() { l.client(ops) })
	}
	switch end {
	case 3:
		simrt.Sleep(int64(wi(30)) * ms)
		for i := wi(200); i > 0; i-- {
			simrt.Yield()
		}
		simrt.Kill(l.grp)
		w.fs.Killed = true
	case 4:
		simrt.Sleep(int64(wi(30)) * ms)
		l.shut = true
		l.spawn("harness: shutdown", func() {
			srv.Shutdown()
			l.down = true
		})
	}
	simrt.Settle(2000 * ms)
	if w.fs.Killed {
		Stats["fault.kill"]++
		simrt.Note("killed")
		w.forget()
		return true
	}
	if !l.rest("an operation") {
		return false
	}
	w.fs.KillAt = 0
	if l.shut {
		Stats["reach.shutdown"]++
		if !l.down || !l.runDone {
			simrt.Fail("liveness", []string{"C05"}, "the shutdown did not complete: %s", strings.Join(simrt.Blocked(), "; "))
			return false
		}
		w.forget()
		l.grp.Dead = true
		return true
	}
	l.check()
	if last {
		w.calm = true
		l.spawn("harness: survivor", func() { l.finish() })
		if !l.rest("a request at the end") {
			return false
		}
		w.calm = false
	}
	if pct(50) {
		l.grp.Dead = true // power off at rest
		w.forget()
		return true
	}
	for _, c := range l.conns {
		if !c.eof {
			c.dead = true
			c := c
			l.spawn("harness: hangup", func() { c.sock.Close() })
		}
	}
	simrt.Settle(2000 * ms)
	l.check()
	if srv.ActiveSessionsNum() != 0 {
		simrt.Fail("check", []string{"C10"}, "%d sessions are active although no connection is left", srv.ActiveSessionsNum())
	}
	l.grp.Dead = true
	w.forget()
	return true
}

// forget: whatever was going on in the process ended with it.
func (w *rWorld) forget() {
	for _, s := range w.order {
		s.creating, s.expl = false, 0
	}
}

func (l *rLife) spawn(name string, f func()) {
	l.running++
	simrt.GoIn(l.grp, name, func() {
		f()
		l.running--
	})
}

// rest waits until nothing goes on.
func (l *rLife) rest(what string) bool {
	simrt.Settle(2000 * ms)
	if l.running > 0 && !l.w.fs.Killed {
		simrt.Fail("liveness", []string{"C03", "C14", "C15"}, "%s never completed: %s", what, strings.Join(simrt.Blocked(), "; "))
		return false
	}
	return true
}

func (l *rLife) dial() *rConn {
	c := &rConn{l: l, idx: len(l.conns), reqs: map[[8]byte]*rReq{}}
	cs, err := (&memchan.ClientTransport{Server: l.mt}).NewSocket(time.Second)
	if err != nil {
		panic(err)
	}
	c.sock = cs
	l.dialing[simrt.CurG()] = c
	err = cs.Dial(time.Time{})
	delete(l.dialing, simrt.CurG())
	if err != nil {
		if !l.shut {
			simrt.Fail("check", []string{"C18", "C17"}, "dial failed on a running server: %v", err)
		}
		return nil
	}
	l.conns = append(l.conns, c)
	simrt.GoIn(l.grp, fmt.Sprintf("harness: receiver of %d.%d", l.n, c.idx), func() {
		m := message.NewMessage(2048)
		for {
			if err := cs.Read(m, time.Time{}); err != nil {
				c.eof = true
				for _, id := range c.ids() {
					r := c.reqs[id]
					r.done = true
					r.f.Type = -1
					r.q.Wake()
				}
				return
			}
			c.received(append([]byte(nil), m.MsgBuffer.Data()...))
		}
	})
	return c
}

// ids lists the open requests in their order.
func (c *rConn) ids() (out [][8]byte) {
	for n := uint32(1); n <= c.next; n++ {
		var id [8]byte
		binary.LittleEndian.PutUint32(id[:], n)
		if r := c.reqs[id]; r != nil && !r.done {
			out = append(out, id)
		}
	}
	return
}

func (c *rConn) received(b []byte) {
	f, err := decode(b)
	if err != nil {
		simrt.Fail("check", []string{"C22"}, "the client received a malformed frame: %v", err)
		return
	}
	switch f.Type {
	case tSessCreated:
		v, err := parseView(f.Payload)
		if err != nil {
			simrt.Fail("check", []string{"C13"}, "malformed session in a notification: %v", err)
			return
		}
		c.view = v
		c.content(v, "notification")
		return
	case tSessClosed:
		c.view = nil
		return
	case tConf:
		return
	}
	r := c.reqs[f.ID]
	if r == nil || r.done {
		simrt.Fail("check", []string{"C01", "C03"}, "a reply for no open request: type %d", f.Type)
		return
	}
	r.f = f
	isReply := f.Type >= tReply
	switch {
	case r.kind == "restore" && isReply:
		v, err := parseView(f.Payload)
		if err != nil {
			simrt.Fail("check", []string{"C13", "C14"}, "malformed session in a restore reply: %v", err)
			return
		}
		c.view = v
		c.content(v, "restore reply")
		s := r.sess
		if v.key != s.key {
			simrt.Fail("check", []string{"C13", "C14"}, "another session was restored than the one asked for")
		}
		Stats["reach.restored"]++
		if s.closed != 0 && s.closed < r.start {
			simrt.Fail("check", c15, "a closed session was restored")
		}
	case r.kind == "restore":
		s := r.sess
		switch f.Type {
		case tNotFound:
			Stats["reach.not found"]++
			if s.stored != 0 && s.stored < r.start && !s.creating && s.hook == 0 && s.expl == 0 && s.explEnd < r.start {
				simrt.Fail("check", c14, "a stored session was not found (created in life at %s)", fmtTime(s.creation))
			}
		case tMaxConns:
			Stats["reach.limit"]++
			if c.l.w.max == 0 {
				simrt.Fail("check", []string{"C11"}, "a restore was refused with the limit error although there's no limit")
			}
		case tShutdown:
			if !c.l.shut {
				simrt.Fail("check", []string{"C05", "C06"}, "a restore was refused for a shutdown that never began")
			}
		default:
			Stats["reach.restore error"]++
			if !c.l.w.faulted(r.start) {
				simrt.Fail("check", c14, "a restore failed without a cause: type %d %s", f.Type, f.Payload)
			}
		}
	case r.kind == "close" && isReply:
		c.view = nil
	}
	r.done = true
	r.q.Wake()
}

func fmtTime(t time.Time) string { return t.UTC().Format(time.RFC3339Nano) }

func parseView(b []byte) (*rView, error) {
	var x struct {
		K string                 `json:"k"`
		C time.Time              `json:"c"`
		L time.Time              `json:"l"`
		I map[string]interface{} `json:"i"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return nil, err
	}
	if x.K == "" {
		return nil, errors.New("no key")
	}
	return &rView{x.K, x.C, x.I}, nil
}

// content compares what the client was told with what the session is.
func (c *rConn) content(v *rView, where string) {
	s := c.l.w.sess[v.key]
	if s == nil {
		simrt.Fail("check", []string{"C13"}, "%s: unknown session key %q", where, v.key)
		return
	}
	if s.creation.IsZero() {
		s.creation = v.creation
	} else if !s.creation.Equal(v.creation) {
		simrt.Fail("check", []string{"C13", "C14"}, "%s: creation time %s instead of %s", where, fmtTime(v.creation), fmtTime(s.creation))
	}
	if len(v.info) != len(s.info) || len(v.info) > 0 && !reflect.DeepEqual(v.info, s.info) {
		simrt.Fail("check", []string{"C13", "C14"}, "%s: session info %v instead of %v", where, v.info, s.info)
	}
}

// call sends a request and waits for its reply.
func (c *rConn) call(kind string, s *rSess, mk func(id [8]byte) []byte) *rReq {
	c.next++
	var id [8]byte
	binary.LittleEndian.PutUint32(id[:], c.next)
	r := &rReq{kind: kind, sess: s, start: simrt.EvSeq()}
	c.reqs[id] = r
	b := mk(id)
	wr, err := c.sock.GetWriter()
	if err == nil {
		if _, err = wr.Write(b); err == nil {
			err = wr.Close()
		} else {
			wr.Close()
		}
	}
	if err != nil {
		r.done = true
		r.f.Type = -1
		return r
	}
	for !r.done && !c.eof {
		r.q.Wait("reply to " + kind)
	}
	if !r.done {
		r.done = true
		r.f.Type = -1
	}
	return r
}

func (c *rConn) restore(s *rSess) *rReq {
	return c.call("restore", s, func(id [8]byte) []byte { return encSimple(tRestore, id, s.key) })
}

func (c *rConn) closeSession() *rReq {
	var s *rSess
	if c.view != nil {
		s = c.l.w.sess[c.view.key]
	}
	if s != nil {
		s.beginClose()
	}
	r := c.call("close", s, func(id [8]byte) []byte { return encSimple(tCloseSession, id, "") })
	if s != nil {
		s.endClose()
	}
	return r
}

func (c *rConn) ask(name, arg string) *rReq {
	return c.call(name, nil, func(id [8]byte) []byte { return encRequest(id, []byte(name), encBin, []byte(arg)) })
}

func (l *rLife) pick() *rSess {
	if len(l.w.order) == 0 {
		return nil
	}
	if pct(60) { // a recent one
		n := len(l.w.order)
		k := 3
		if n < k {
			k = n
		}
		return l.w.order[n-1-wi(k)]
	}
	return l.w.order[wi(len(l.w.order))]
}

func (l *rLife) client(ops int) {
	w := l.w
	var c *rConn
	for i := 0; i < ops; i++ {
		switch wi(4) {
		case 0:
			simrt.Sleep(int64(1+wi(6)) * ms)
		case 1:
			for i := wi(12); i > 0; i-- {
				simrt.Yield()
			}
		}
		if c == nil || c.eof {
			if c = l.dial(); c == nil {
				return
			}
			i--
			if len(l.conns) > 40 {
				return
			}
			continue
		}
		s := l.pick()
		k := wi(20)
		switch {
		case k < 6 || s == nil:
			w.infos++
			r := c.ask("mk", fmt.Sprintf("%c%c%d", 'a'+wi(4), 'a'+wi(26), w.infos))
			simrt.Note("create: %d", r.f.Type)
		case k < 12:
			r := c.restore(s)
			simrt.Note("restore: %d", r.f.Type)
		case k < 14:
			c.closeSession()
		case k < 15:
			c.ask("cl", "x")
		case k < 16:
			c.ask("sc", s.key)
		case k < 17:
			c.dead = true
			c.ask("bye", "x")
			c = nil
		case k < 19:
			c.dead = true
			c.sock.Close()
			c = nil
		default:
			c.restore(s)
			c = nil // keeps the session until the end
		}
	}
}

// verify asks the new process for every session the old ones had.
func (l *rLife) verify() {
	for _, s := range append([]*rSess(nil), l.w.order...) {
		c := l.dial()
		if c == nil {
			return
		}
		c.restore(s)
		c.dead = true
		c.sock.Close()
	}
}

// finish restores and closes the sessions that are left, which must then be gone.
func (l *rLife) finish() {
	for _, c := range append([]*rConn(nil), l.conns...) {
		if !c.eof {
			c.dead = true
			c.sock.Close()
		}
	}
	for n := 0; n < 50 && l.srv.ActiveSessionsNum() > 0; n++ {
		simrt.Sleep(5 * ms)
	}
	for _, s := range append([]*rSess(nil), l.w.order...) {
		c := l.dial()
		if c == nil {
			return
		}
		r := c.restore(s)
		if r.f.Type >= tReply && pct(60) {
			hooks, since := s.hooks, simrt.EvSeq()
			q := c.closeSession()
			if q.f.Type >= tReply {
				simrt.Sleep(50 * ms)
				if s.hooks != hooks+1 {
					simrt.Fail("check", []string{"C12"}, "closing a session on its only connection called the closed hook %d times", s.hooks-hooks)
				}
				if s.closed < since && s.hooks == hooks+1 {
					simrt.Fail("check", []string{"C15"}, "closing a session at rest did not complete")
				}
				r := c.restore(s)
				if r.f.Type != tNotFound {
					simrt.Fail("check", c15, "a closed session was answered with type %d instead of not found", r.f.Type)
				}
			} else {
				simrt.Fail("check", []string{"C12", "C03"}, "closing a session at rest was answered with type %d", q.f.Type)
			}
		}
		c.dead = true
		c.sock.Close()
	}
}

// check compares the registry, the connections and the clients at rest.
func (l *rLife) check() {
	w := l.w
	held := map[string][]*rConn{}
	for _, c := range l.conns {
		if c.con == nil || c.eof || c.dead {
			continue
		}
		x := c.con.Session()
		switch {
		case x == nil && c.view != nil:
			simrt.Fail("check", []string{"C13"}, "a client has a session, the server has none for it")
		case x != nil && c.view == nil:
			simrt.Fail("check", []string{"C13"}, "the server has a session for a client that has none")
		case x != nil && (x.Key != c.view.key || !x.Creation.Equal(c.view.creation)):
			simrt.Fail("check", []string{"C13"}, "client and server have different sessions: %s and %s", c.view.key, x.Key)
		}
		if x != nil {
			held[x.Key] = append(held[x.Key], c)
		}
	}
	Stats["check.rest"]++
	for _, s := range w.order {
		n := l.srv.SessionConnectionsNum(s.key)
		list := l.srv.SessionConnections(s.key)
		want := len(held[s.key])
		if want == 0 && n >= 0 || want > 0 && n != want || len(list) != want {
			simrt.Fail("check", []string{"C10"}, "a session has %d connections, the server reports %d and lists %d", want, n, len(list))
		}
		if w.max > 0 && want > w.max {
			simrt.Fail("check", []string{"C11"}, "%d connections hold a session with a limit of %d", want, w.max)
		}
	}
	if l.srv.ActiveSessionsNum() != len(held) {
		simrt.Fail("check", []string{"C10"}, "%d sessions are active, the server reports %d", len(held), l.srv.ActiveSessionsNum())
	}
}
