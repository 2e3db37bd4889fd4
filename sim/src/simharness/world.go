package simharness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"simrt"
	"simshim/crypto/rand"
	stime "simshim/time"
	"sort"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// Profile says what a world run does, as chances out of 100.
type Profile struct {
	Name                                              string
	Mem                                               int // memchan instead of the simulated network
	Sess, NoSess, Gate, Shut, ConClose, Disc, Garbage int
	Fault, SMFault, Sig, Big, Single, Crowd           int
	Limit                                             []int
	MaxConns                                          []int
	Leak                                              int
	Epochs                                            int
	Stall                                             int
	Rush                                              int  // epochs that rush for one session
	Long                                              int  // runs with many messages
	Many                                              int  // runs with many connections
	Hoard                                             bool // more than 255 connections on a session
	Flood                                             bool // very many handlers at once
	Panics                                            bool // the application's code panics
	Keys                                              bool // generated session keys, failing generators
	Info                                              int  // rich session infos, getters that keep and overwrite
}

// World is one simulated server with its clients.
type World struct {
	p          Profile
	ks         *keySource
	guards     map[int]int // goroutines in the application's calls
	libN       int         // messages written by the library's means
	gen        wwr.SessionKeyGenerator
	srv        wwr.Server
	net        *Net
	mt         *memchan.Transport
	impl       *impl
	conns      []*Conn
	msgs       map[string][]*Msg
	sigs       map[string][]*SigCall
	bufSize    int
	maxConns   int
	sessOn     bool
	chunked    bool
	eager      bool
	minDelay   int64
	jitter     int64
	sub        string
	timeout    time.Duration
	held       int64 // how long nobody sent anything
	faultsOff  bool
	wfaults    int
	unreported map[string]bool // injected write failures
	silent     map[string]bool // failures of the application not yet logged
	common     map[string]int  // how often an ordinary error has to be logged yet
	vague      int             // reports that may be of any failure
	logs       int
	st         *store
	keys       []string
	keyOf      map[string]*keyRec
	asked      map[string]bool // keys in restore requests
	creating   map[int]*createCall
	nextTok    int
	nextID     uint64
	idMode     int
	long       int // operations per actor in long runs
	gateQ      simrt.WaitQ
	gateOpen   bool
	ep         *epochRec
	epN        int
	running    int
	dialing    map[int]*Conn

	shutBegun   bool
	shutSure    uint64 // sequence number from which on shutdown has surely begun
	shutCalls   int
	shutReturns int
	shutDoneSeq uint64
	runReturned bool
	runErr      error
	nConnected  int
	hookMode    hookMode
	late        bool // messages sent now are late ones
	leak        bool
	tinyN       int
	kept        []kept   // copies of sessions obtained earlier
	vc0         simrt.VC // after NewServer
	slowFlush   bool     // writes return after the data has left
	parser      int
	info        bool // rich session infos
}

type hookMode struct{ con, disc []step }

type epochRec struct {
	srvClose map[string]bool
	restores map[string]int
	destroys map[string]int
	wf0      int // injected write failures before the epoch

	srvCloses int // Server.CloseSession calls
}

type keyRec struct {
	key       string
	on        *Conn
	creation  time.Time
	info      string
	created   bool // CreateSession returned success
	epoch     int
	destroyed int
	ackDead   bool   // the last connection closed it and was told so
	destrSeq  uint64 // last completed destruction
	destrRun  int
	hookFail  bool
	stored    uint64
	explicit  uint64 // first explicit closing attempt that may concern it
	smFault   bool
	must      string // why it must be destroyed by the next rest, if it must
}

type createCall struct {
	c         *Conn
	key       string
	hooks     int  // created hook calls
	genFailed bool // the key generator was called and failed
}

// Conn is one connection as the harness sees it.
type Conn struct {
	w             *World
	idx           int
	limit         int
	refuse        bool
	accepted      bool
	dialDone      bool
	dialErr       error
	ss            *SSock
	mem           *memLink
	con           wwr.Connection
	infos         map[int]interface{} // given by the transport
	dialAt        time.Time
	createdAt     time.Time // as first reported
	addr          string
	inactive      bool // it has said so
	vc            simrt.VC
	dialVC        simrt.VC // orders the dialer before others using its socket
	connectedN    int
	connectedDone bool
	disconnectedN int
	faulty        bool
	from          *Conn // whose socket it's to reconnect on
	faultBudget   int
	wfaults       int
	overflow      int
	ends          []string
	clientGone    bool
	sawEOF        bool
	closeCalled   bool
	closeSeq      uint64 // Close returned
	garbage       bool
	odd           bool
	msgs          []*Msg
	byID          map[[8]byte]*Msg
	idN           uint64
	confSeen      bool
	rxN           int
	view          *sess
	viewOff       bool // view no longer comparable (a notification was lost to an injected fault)
	running       int
	idleGen       int // how often the last running handler returned
	lastStart     int
	sigOrder      map[string]int // last received call number per caller
	pot           map[string]int
	explicit      bool
	leaving       bool
	ctlOps        int
	restOK        map[string]bool
	heldAtRest    string
	sessOps       int // session operations in this epoch
	confAt        uint64
	mustClose     bool // sent something the server must close the connection for
}

// Msg is one client message.
type Msg struct {
	c        *Conn
	tok      string
	idx      int
	kind     int // tSignal, tRequest, tRestore, tCloseSession
	id       [8]byte
	enc      int
	name     []byte
	pay      []byte
	bytes    []byte
	key      string // restore
	script   []step
	out      outcome
	sendSeq  uint64 // send began
	sentOK   bool
	sendErr  error
	late     bool
	readSeq  uint64
	readN    int
	startN   int
	startSeq uint64
	endN     int
	replies  []frame
	replySeq uint64
	txSeq    uint64 // reply flushed by the server
	txN      int
	epoch    int
	ackDead  bool // restore: its last connection had closed the session when the request was sent
	keyDead  bool // restore: the session had been destroyed when the request was sent
	lookFail bool
	gated    bool
	probe    bool // must be answered whatever happened before
}

type outcome struct {
	kind string // payload, err, errp, other
	enc  int
	data []byte
	code string
	msg  string
	n    int  // kind other: which error
	bad  bool // cannot be sent: an internal error is expected
}

type step struct {
	kind string
	n    int
	d    int64
	op   *op
}

// SigCall is one server-side Signal call.
type SigCall struct {
	tok     string
	c       *Conn
	caller  string
	num     int
	enc     int
	name    []byte
	pay     []byte
	valid   bool
	err     error
	done    bool
	got     int
	owed    bool // must have succeeded and arrived
	closed0 bool
	wf0     int
}

func (w *World) stat(name string) { Stats[name]++ }

// Stats counts events over all runs of this process.
var Stats = map[string]int{}

func (w *World) viol(format string, props []string, args ...any) {
	simrt.Fail("oracle", props, format, args...)
}

func wi(n int) int         { return simrt.WorkStream().Intn(n) }
func pct(n int) bool       { return simrt.WorkStream().Chance(n, 100) }
func pickInt(xs []int) int { return xs[wi(len(xs))] }
func (w *World) tok(p string) string {
	w.nextTok++
	return fmt.Sprintf("%s%d", p, w.nextTok)
}

func (w *World) delay() int64 {
	if w.jitter == 0 {
		return w.minDelay
	}
	return w.minDelay + int64(simrt.FaultStream().Intn(int(w.jitter/1000)+1))*1000
}

type logSink struct{ w *World }

func (l logSink) Write(p []byte) (int, error) {
	l.w.logs++
	l.w.reported(string(p))
	if simrt.Tracing() {
		simrt.TraceOnly("log: %s", strings.TrimSpace(string(p)))
	}
	return len(p), nil
}

// NewWorld draws a configuration and builds the server.
func NewWorld(p Profile) *World {
	w := &World{p: p, unreported: map[string]bool{}, silent: map[string]bool{}, common: map[string]int{}, msgs: map[string][]*Msg{}, sigs: map[string][]*SigCall{}, keyOf: map[string]*keyRec{}, asked: map[string]bool{},
		creating: map[int]*createCall{}, dialing: map[int]*Conn{}, timeout: time.Hour}
	w.bufSize = []int{160, 128, 512, 2048, 300}[wi(5)]
	if p.Sess < 40 && pct(12) {
		w.bufSize = []int{64, 48, 40}[wi(3)]
	}
	w.sessOn = !pct(p.NoSess)
	w.idMode = wi(4)
	if pct(p.Long) {
		w.long = 20 << wi(5)
	}
	w.chunked = pct(50)
	w.eager = pct(50)
	w.minDelay = []int64{0, 1, 100_000, ms}[wi(4)]
	w.jitter = []int64{0, ms, 5 * ms, 20 * ms}[wi(4)]
	w.maxConns = 0
	if len(p.MaxConns) > 0 {
		w.maxConns = pickInt(p.MaxConns)
	}
	w.sub = []string{"", "sub", "a longer sub protocol"}[wi(3)]
	w.leak = pct(p.Leak)
	w.slowFlush = pct(20)
	w.st = &store{w: w, m: map[string]*sessRec{}, faults: pct(p.SMFault), slow: pct(50)}
	w.parser = [8]int{parseUser, parseUser, parseUser, parseUser, parseNil, parseGeneric, parseGeneric, parseGeneric}[wi(8)]
	if w.info = pct(p.Info); w.info {
		w.bufSize = 2048
		if wi(3) > 0 {
			w.parser = parseGeneric
		}
	}
	rand.Source = nil
	userPanic = nil
	if w.guards = map[int]int{}; p.Panics {
		w.parser = parseUser
		every := 2 + wi(12)
		userPanic = func(what string) {
			if w.guards[simrt.CurG()] > 0 && !w.faultsOff && simrt.FaultStream().Chance(1, every) {
				w.stat("fault.panic in " + what)
				simrt.AlsoFor("C36")
				panic(userPanicked{what})
			}
		}
	}
	if p.Keys {
		w.bufSize = 2048
		w.gen = wwr.NewDefaultSessionKeyGenerator()
		w.ks = w.newKeySource()
	}
	w.hookMode.con = w.genHook(true)
	w.hookMode.disc = w.genHook(false)
	w.ep = newEpochRec()
	mem := pct(p.Mem)
	lg := log.New(logSink{w}, "", 0)
	o := wwr.ServerOptions{
		Sessions: wwr.Enabled, SessionManager: w.st, SessionKeyGenerator: keyGen{w}, SessionInfoParser: w.parseInfo,
		MaxSessionConnections: uint(w.maxConns), WarnLog: lg, ErrorLog: lg, ReadTimeout: w.timeout,
		SubProtocolName: []byte(w.sub), MessageBufferSize: uint32(w.bufSize),
	}
	if w.parser == parseGeneric {
		o.SessionInfoParser = nil
	}
	if !w.sessOn {
		o.Sessions = wwr.Disabled
	}
	var tr wwr.Transport
	if mem {
		w.mt = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
			c := w.dialing[simrt.CurG()]
			mayPanic("OnBeforeCreation")
			return c.options()
		}}
		tr = w.mt
	} else {
		w.net = &Net{w: w, failShut: pct(10)}
		tr = w.net
	}
	w.impl = &impl{w}
	srv, err := wwr.NewServer(w.impl, o, tr)
	if err != nil {
		panic(fmt.Sprintf("harness: NewServer: %v", err))
	}
	w.srv = srv
	w.vc0 = simrt.SnapVC()
	simrt.GoNamed("harness: Run", func() {
		w.runErr = w.srv.Run()
		w.runReturned = true
		simrt.Note("Run returned %v", w.runErr)
	})
	return w
}

func newEpochRec() *epochRec {
	return &epochRec{srvClose: map[string]bool{}, restores: map[string]int{}, destroys: map[string]int{}}
}

func (c *Conn) options() wwr.ConnectionOptions {
	c.infos = map[int]interface{}{1: c, 7: c.idx}
	for i := wi(6) - 2; i > 0; i-- {
		c.infos[oddKeys[wi(len(oddKeys))]] = []interface{}{nil, c.idx, &c.limit, "text", wi(100), 1.5, wwr.Accept}[wi(7)]
	}
	o := wwr.ConnectionOptions{ConcurrencyLimit: c.limit, Info: map[int]interface{}{}}
	for k, v := range c.infos {
		o.Info[k] = v
	}
	if c.refuse {
		o.Connection = wwr.Refuse
	}
	return o
}

var oddKeys = []int{0, -1, 2, 3, 255, 256, 257, 263, 65543, 1<<32 + 7, 1<<62 + 1, -7, -1 << 63, 1<<63 - 1}

// about checks what a connection reports about itself.
func (w *World) about(c *Conn, con wwr.Connection, when string) {
	c35 := []string{"C35", "C08"}
	for _, k := range oddKeys {
		if v := con.Info(k); v != c.infos[k] {
			w.viol("conn %d: Info(%d) is %v %s, its transport gave %v", c35, c.idx, k, v, when, c.infos[k])
		}
	}
	if v := con.Info(7); v != c.idx {
		w.viol("conn %d: Info(7) is %v %s", c35, c.idx, v, when)
	}
	at, addr := con.Creation(), con.RemoteAddr()
	if addr == nil && c.ss != nil && c.ss.noAddr {
		return // closed by the transport before the server could ask
	}
	if addr == nil {
		w.viol("conn %d: it has no remote address %s", c35, c.idx, when)
		return
	}
	if c.ss != nil && addr != net.Addr(simAddr{fmt.Sprint("c", c.idx)}) {
		w.viol("conn %d: its remote address is %v %s", c35, c.idx, addr, when)
	}
	if c.createdAt.IsZero() {
		c.createdAt, c.addr = at, addr.String()
		if d := stime.Now().Sub(at); at.Before(c.dialAt) || d < 0 {
			w.viol("conn %d: it was dialed at %v and reports %v as its creation %s", c35, c.idx, c.dialAt, at, when)
		}
		for _, o := range w.conns {
			if o != c && o.addr == c.addr && (c.mem == nil || o.mem == nil || c.mem.sock != o.mem.sock) && (c.ss != nil || o.open()) {
				w.viol("conn %d and conn %d have the same remote address %s", c35, c.idx, o.idx, c.addr)
			}
		}
	}
	if !at.Equal(c.createdAt) {
		w.viol("conn %d: it reports %v as its creation %s, earlier %v", c35, c.idx, at, when, c.createdAt)
	}
	if addr.String() != c.addr {
		w.viol("conn %d: it reports the remote address %s %s, earlier %s", c35, c.idx, addr, when, c.addr)
	}
}

// active checks what a connection says about being active.
func (w *World) active(c *Conn, con wwr.Connection) {
	gone := c.inactive
	switch a := con.IsActive(); {
	case a && gone:
		w.viol("conn %d is active again", []string{"C35", "C07"}, c.idx)
	case !a && c.healthy() && !w.shutBegun:
		w.viol("conn %d is open but not active", []string{"C35", "C07"}, c.idx)
	case !a:
		c.inactive = true
	}
}

func (c *Conn) end(reason string) {
	c.leaving = true
	c.ends = append(c.ends, reason)
}

// open reports whether the server still holds the socket open.
func (c *Conn) open() bool {
	if !c.accepted {
		return false
	}
	if c.ss != nil {
		return !c.ss.closed
	}
	simrt.Acquire(&c.dialVC)
	return !c.mem.over && c.mem.sock.IsConnected()
}

// use returns the connection object (nil before the connected hook).
func (c *Conn) use() wwr.Connection {
	if c.con != nil {
		simrt.Acquire(&c.vc)
	}
	return c.con
}

// clean connections have no reason at all to end or to lose messages.
func (c *Conn) clean() bool { return len(c.ends) == 0 && !c.clientGone && !c.faulty && !c.garbage }

// healthy: may have suffered reported write failures, but has no reason to end.
func (c *Conn) healthy() bool { return len(c.ends) == 0 && !c.clientGone && !c.garbage }

// ---------------------------------------------------------------- session data

type sinfo map[string]interface{}

// userPanic lets the user's code panic now and then (nil: never).
var userPanic func(what string)

func mayPanic(what string) {
	if userPanic != nil {
		userPanic(what)
	}
}

// userPanicked is a panic of the user's code that was provoked.
type userPanicked struct{ what string }

// guarded runs a call of the application that survives panics of the user's code.
func (w *World) guarded(what string, f func()) (panicked bool) {
	g := simrt.CurG()
	w.guards[g]++
	defer func() {
		if w.guards[g]--; w.guards[g] == 0 {
			delete(w.guards, g)
		}
		p := recover()
		if p == nil {
			return
		}
		u, ok := p.(userPanicked)
		if !ok {
			panic(p)
		}
		panicked = true
		w.stat("reach.application recovered in " + what)
		simrt.Note("%s: %s panicked", what, u.what)
	}()
	f()
	return
}

func (s sinfo) Fields() []string {
	mayPanic("SessionInfo.Fields")
	var out []string
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
func (s sinfo) Value(f string) interface{} {
	mayPanic("SessionInfo.Value")
	return s[f]
}
func (s sinfo) Copy() wwr.SessionInfo {
	mayPanic("SessionInfo.Copy")
	return sinfo(deep(map[string]interface{}(s)).(map[string]interface{}))
}

// deep copies what scribble overwrites.
func deep(v any) any {
	switch x := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, v := range x {
			o[k] = deep(v)
		}
		return o
	case []interface{}:
		o := make([]interface{}, len(x))
		for i := range x {
			o[i] = deep(x[i])
		}
		return o
	case []map[string]interface{}:
		o := make([]map[string]interface{}, len(x))
		for i := range x {
			o[i] = deep(x[i]).(map[string]interface{})
		}
		return o
	case []string:
		return append([]string{}, x...)
	case []byte:
		return append([]byte{}, x...)
	case []float64:
		return append([]float64{}, x...)
	case map[string]string:
		o := map[string]string{}
		for k, v := range x {
			o[k] = v
		}
		return o
	case [][]int:
		o := make([][]int, len(x))
		for i := range x {
			o[i] = append([]int{}, x[i]...)
		}
		return o
	case map[string][]string:
		o := map[string][]string{}
		for k, v := range x {
			o[k] = append([]string{}, v...)
		}
		return o
	}
	return v
}

const (
	parseUser    = iota // the user's own parser and type
	parseNil            // the user's own parser drops everything
	parseGeneric        // no parser is configured
)

// parseInfo is the user's session info parser. It may decide that the stored
// information is of no use and return nil.
func (w *World) parseInfo(m map[string]interface{}) wwr.SessionInfo {
	o := sinfo{}
	if w.parser == parseNil {
		w.stat("reach.session info dropped")
		return nil
	}
	for k, v := range m {
		o[k] = deep(v)
	}
	return o
}

func infoMap(i wwr.SessionInfo) map[string]interface{} {
	if i == nil {
		return nil
	}
	o := map[string]interface{}{}
	l := i.Fields()
	for _, f := range l {
		o[f] = i.Value(f)
	}
	for n := range l {
		l[n] = "scribble" // the list is ours
	}
	return o
}

type keyGen struct{ w *World }

func (k keyGen) Generate() string {
	w := k.w
	key := fmt.Sprintf("K%d", len(w.keys)+1)
	if w.ks != nil {
		cc := w.creating[simrt.CurG()]
		if cc != nil {
			cc.genFailed = true
		}
		if w.ks.fail && !w.faultsOff {
			switch simrt.FaultStream().Intn(16) {
			case 14:
				w.stat("fault.key generator panicked")
				panic(keyPanic{"provoked"})
			case 15:
				w.stat("fault.key generator returned an empty key")
				return ""
			}
		}
		if key = w.ks.generate(w.gen); key == "" {
			return ""
		}
		if cc != nil {
			cc.genFailed = false
		}
		if w.keyOf[key] != nil {
			return key // reported
		}
	}
	w.keys = append(w.keys, key)
	r := &keyRec{key: key, epoch: w.epN}
	w.keyOf[key] = r
	if cc := w.creating[simrt.CurG()]; cc != nil {
		cc.key = key
		r.on = cc.c
		cc.c.pot[key]++
		// A closing operation that is under way may hit this session.
		if cc.c.explicit {
			r.explicit = simrt.EvSeq()
		}
	}
	return key
}

type sessRec struct {
	creation, last time.Time
	info           map[string]interface{}
}

// store is the session manager of the world: a map with delays and failures.
type store struct {
	w      *World
	m      map[string]*sessRec
	faults bool
	slow   bool
}

func (s *store) pause() {
	simrt.Yield()
	if s.slow && simrt.FaultStream().Chance(1, 2) {
		simrt.Sleep(int64(1+simrt.FaultStream().Intn(8)) * ms)
	}
}

func (s *store) fault(what string) bool {
	if s.faults && !s.w.faultsOff && simrt.FaultStream().Chance(1, 5) {
		s.w.stat("fault.manager." + what)
		simrt.Note("session manager failure: %s", what)
		return true
	}
	return false
}

// appFailure is a failure of the application's code, of which the log must tell.
func (w *World) appFailure(text string) error {
	w.silent[text] = true
	w.stat("fault.application failure")
	return errors.New(text)
}

func (s *store) err() error {
	return s.w.appFailure("session manager failure " + s.w.tok("f") + ".")
}

func (s *store) OnSessionCreated(con wwr.Connection) error {
	w := s.w
	cc := w.creating[simrt.CurG()]
	if cc == nil || w.keyOf[cc.key] == nil {
		w.viol("the created hook was called by a goroutine that creates no session", []string{"C12"})
		return nil
	}
	if r := w.keyOf[cc.key]; r.destroyed > 0 {
		w.viol("session %s: the created hook was called after the closed hook", []string{"C12"}, cc.key)
	}
	if cc.hooks++; cc.hooks > 1 {
		w.viol("session %s: the created hook was called %d times", []string{"C12"}, cc.key, cc.hooks)
	}
	s.pause()
	s.ask(cc.key, false)
	x := con.Session()
	if x == nil {
		return errors.New("no session")
	}
	if x.Key != cc.key {
		// The session was closed and replaced by another one already.
		return nil
	}
	r := w.keyOf[x.Key]
	if r == nil {
		w.viol("the created hook saw an unknown session key %q", []string{"C10", "C12", "C13"}, x.Key)
		return nil
	}
	mayPanic("OnSessionCreated")
	if s.fault("created") {
		r.smFault = true
		return s.err()
	}
	s.pause()
	s.m[x.Key] = &sessRec{x.Creation, x.LastLookup, infoMap(x.Info)}
	if r.stored == 0 {
		r.stored = simrt.EvSeq()
	}
	simrt.Note("session %s stored", x.Key)
	return nil
}

// ask lets a hook ask the server about its session.
func (s *store) ask(key string, closing bool) {
	if !simrt.FaultStream().Chance(1, 4) {
		return
	}
	w := s.w
	w.stat("reach.session manager asked the server")
	w.srv.ActiveSessionsNum()
	n := w.srv.SessionConnectionsNum(key)
	if w.maxConns > 0 && n > w.maxConns {
		w.viol("session %s has %d connections, the limit is %d", []string{"C11"}, key, n, w.maxConns)
	}
	l := w.srv.SessionConnections(key)
	if closing && (n != -1 || len(l) > 0) {
		w.viol("session %s is being destroyed with connections on it (%d, %d)", []string{"C12", "C10"}, key, n, len(l))
	}
	for _, x := range l {
		x.IsActive()
	}
	// Neither of these depends on any session.
	for _, c := range w.conns {
		con := c.use()
		if con == nil || !simrt.FaultStream().Chance(1, 3) {
			continue
		}
		if simrt.FaultStream().Chance(1, 2) {
			w.active(c, con)
		} else {
			w.about(c, con, "in a hook")
		}
	}
}

func (s *store) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	if !s.w.asked[key] {
		s.w.viol("the lookup hook was called for the session key %q, which no client asked for", []string{"C13", "C10"}, key)
	}
	s.pause()
	s.ask(key, false)
	if s.fault("lookup") {
		if r := s.w.keyOf[key]; r != nil {
			r.smFault = true
		}
		return nil, s.err()
	}
	r := s.m[key]
	if r == nil {
		return nil, nil
	}
	last := r.last
	r.last = last.Add(time.Second)
	info := map[string]interface{}{}
	for k, v := range r.info {
		info[k] = deep(v)
	}
	creation := r.creation
	s.pause()
	if s.fault("unencodable info") {
		if k := s.w.keyOf[key]; k != nil {
			k.smFault = true
		}
		info["call me"] = func() {}
	}
	return wwr.NewSessionLookupResult(creation, last, info), nil
}

func (s *store) OnSessionClosed(key string) error {
	w := s.w
	r := w.keyOf[key]
	simrt.Note("session %s: closed hook", key)
	if r == nil {
		w.viol("the closed hook was called for an unknown session key %q", []string{"C12", "C33"}, key)
		return nil
	}
	r.destroyed++
	w.ep.destroys[key]++
	r.destrRun++
	defer func() { r.destrRun-- }()
	if r.destroyed > 1 && !r.hookFail {
		w.viol("the closed hook was called %d times for session %s", []string{"C12"}, r.destroyed, key)
	}
	if r.explicit == 0 {
		w.viol("session %s was destroyed although nobody closed it", []string{"C12", "C10"}, key)
	}
	s.pause()
	s.ask(key, true)
	if s.fault("closed") {
		r.hookFail = true
		if simrt.FaultStream().Chance(1, 2) {
			w.stat("fault.manager.panic")
			panic(s.err())
		}
		return s.err()
	}
	delete(s.m, key)
	s.pause()
	r.destrSeq = simrt.EvSeq()
	return nil
}

// ---------------------------------------------------------------- server hooks

type impl struct{ w *World }

func (i *impl) connOf(con wwr.Connection) *Conn {
	c, _ := con.Info(1).(*Conn)
	if c == nil {
		i.w.viol("connection without its options", []string{"C08"})
	}
	return c
}

func (i *impl) OnClientConnected(o wwr.ConnectionOptions, con wwr.Connection) {
	w := i.w
	c, _ := o.Info[1].(*Conn)
	if c == nil || i.connOf(con) != c {
		w.viol("connected hook: the connection's options do not match", []string{"C08", "C02"})
		return
	}
	simrt.Note("conn %d connected hook", c.idx)
	c.connectedN++
	if c.connectedN > 1 {
		w.viol("conn %d: connected hook ran %d times", []string{"C08"}, c.idx, c.connectedN)
	}
	if c.confAt == 0 && c.ss != nil {
		w.viol("conn %d: connected hook before the configuration message was sent", []string{"C08"}, c.idx)
	}
	w.about(c, con, "in its connected hook")
	c.con = con
	simrt.Release(&c.vc)
	w.steps(w.hookMode.con, c, nil, fmt.Sprintf("connected hook of %d", c.idx))
	c.connectedDone = true
}

func (i *impl) OnClientDisconnected(con wwr.Connection, reason error) {
	w := i.w
	c := i.connOf(con)
	if c == nil {
		return
	}
	simrt.Note("conn %d disconnected hook", c.idx)
	w.about(c, con, "in its disconnected hook")
	if con.IsActive() {
		w.viol("conn %d is still active in its disconnected hook", []string{"C35", "C07"}, c.idx)
	}
	c.disconnectedN++
	if c.disconnectedN > 1 {
		w.viol("conn %d: disconnected hook ran %d times", []string{"C08"}, c.idx, c.disconnectedN)
	}
	if !c.connectedDone {
		w.viol("conn %d: disconnected hook before the connected hook returned", []string{"C08"}, c.idx)
	}
	if c.con != con {
		w.viol("conn %d: disconnected hook with another connection object", []string{"C08"}, c.idx)
	}
	if reason == nil {
		w.viol("conn %d: disconnected hook without a reason", []string{"C08"}, c.idx)
	}
	if c.ss != nil && c.ss.readErr == nil {
		w.viol("conn %d: disconnected hook although the connection did not end", []string{"C08"}, c.idx)
	}
	w.steps(w.hookMode.disc, c, nil, fmt.Sprintf("disconnected hook of %d", c.idx))
}

func (i *impl) OnSignal(_ context.Context, con wwr.Connection, m wwr.Message) {
	i.handle(con, m, tSignal)
}

func (i *impl) OnRequest(_ context.Context, con wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	x := i.handle(con, m, tRequest)
	if x == nil {
		return wwr.Payload{}, nil
	}
	p := wwr.Payload{Encoding: payload.Encoding(x.out.enc), Data: x.out.data}
	switch x.out.kind {
	case "err":
		return p, wwr.ErrRequest{Code: x.out.code, Message: x.out.msg}
	case "errp":
		return wwr.Payload{}, &wwr.ErrRequest{Code: x.out.code, Message: x.out.msg}
	case "other":
		return p, i.w.otherError(x.out)
	}
	return p, nil
}

// otherError is an error no client may learn anything about.
func (w *World) otherError(o outcome) error {
	var err error
	switch o.n {
	case 0:
		return (*wwr.ErrRequest)(nil)
	case 1:
		err = wwr.ErrSessionNotFound{}
	case 2:
		err = wwr.ErrMaxSessConnsReached{}
	case 3:
		err = wwr.ErrSessionsDisabled{}
	case 4:
		return wwr.ErrDisconnected{Cause: w.appFailure(o.msg)}
	case 5:
		err = wwr.ErrServerShutdown{}
	case 6:
		err = wwr.ErrBufferOverflow{}
	case 7:
		err = context.Canceled
	case 8:
		err = context.DeadlineExceeded
	case 9:
		err = io.EOF
	case 10:
		err = wwr.ErrInternal{}
	case 11:
		return wwr.ErrCanceled{Cause: w.appFailure(o.msg)}
	default:
		return w.appFailure(o.msg)
	}
	w.common[err.Error()]++
	w.stat("fault.application failure")
	return err
}

// token finds the token a message carries in its name or payload.
func token(name, pay []byte) string {
	if n := len(name) + len(pay); n == 1 || len(name) == 0 && n == 2 {
		return "~" + string(name) + string(pay)
	}
	if i := bytes.IndexByte(name, '.'); i > 0 {
		return string(name[:i])
	}
	if len(pay) > 0 && pay[0] == '#' {
		if i := bytes.IndexByte(pay, '.'); i > 0 {
			return string(pay[1:i])
		}
	}
	return ""
}

// content checks that the message still shows exactly what was sent.
func (w *World) content(x *Msg, m wwr.Message, when string) bool {
	bad := func(what string, got, want any) bool {
		w.viol("conn %d: message %s shows a wrong %s %s: got %q want %q", []string{"C02", "C03", "C01", "C17"},
			x.c.idx, x.tok, what, when, got, want)
		return false
	}
	if x.kind == tRequest {
		if m.Identifier() != x.id {
			return bad("identifier", fmt.Sprint(m.Identifier()), fmt.Sprint(x.id))
		}
	} else if m.Identifier() != [8]byte{} {
		return bad("identifier", fmt.Sprint(m.Identifier()), "none")
	}
	if !bytes.Equal(m.Name(), x.name) {
		return bad("name", m.Name(), x.name)
	}
	if int(m.PayloadEncoding()) != x.enc {
		return bad("encoding", fmt.Sprint(m.PayloadEncoding()), fmt.Sprint(x.enc))
	}
	if !bytes.Equal(m.Payload(), x.pay) {
		return bad("payload", m.Payload(), x.pay)
	}
	want, ok := x.pay, true
	if x.enc == encUtf16 {
		want, ok = utf16Text(x.pay)
	}
	if u, err := m.PayloadUtf8(); ok && (err != nil || !bytes.Equal(u, want)) {
		return bad("UTF-8 payload", u, want)
	}
	return true
}

// meant finds the message m must be: of identical requests that with its identifier,
// of identical signals the first that was not handled.
func (w *World) meant(c *Conn, tok string, m wwr.Message, kind int) (x *Msg) {
	for _, y := range w.msgs[tok] {
		if kind == tRequest && y.id != m.Identifier() && x != nil {
			continue
		}
		if x = y; x.startN == 0 && (kind != tRequest || x.id == m.Identifier()) {
			return
		}
	}
	return
}

func (i *impl) handle(con wwr.Connection, m wwr.Message, kind int) *Msg {
	w := i.w
	c := i.connOf(con)
	if c == nil {
		return nil
	}
	tok := token(m.Name(), m.Payload())
	x := w.meant(c, tok, m, kind)
	simrt.Note("conn %d handler starts for %q", c.idx, tok)
	if c.garbage && x == nil {
		return nil
	}
	if x == nil || x.c != c || x.kind != kind {
		w.viol("conn %d: a handler got a message nobody sent on this connection: name %q payload %q",
			[]string{"C02", "C03", "C01", "C17"}, c.idx, m.Name(), m.Payload())
		return nil
	}
	x.startN++
	x.startSeq = simrt.EvSeq()
	if x.startN > 1 {
		w.viol("conn %d: the handler of %s ran %d times", []string{"C01", "C03"}, c.idx, tok, x.startN)
	}
	if c.con != con {
		w.viol("conn %d: handler of %s got another connection object", []string{"C02", "C08"}, c.idx, tok)
	}
	if !c.connectedDone {
		w.viol("conn %d: handler of %s started before the connected hook returned", []string{"C08"}, c.idx, tok)
	}
	if w.shutReturns > 0 {
		w.viol("conn %d: handler of %s started after Shutdown returned", []string{"C05"}, c.idx, tok)
	}
	arrived := x.readSeq
	if c.mem != nil {
		arrived = x.sendSeq
	}
	if w.shutSure > 0 && arrived > w.shutSure {
		w.viol("conn %d: handler of %s started although it arrived during shutdown", []string{"C06", "C05"}, c.idx, tok)
	}
	if c.closeSeq > 0 && arrived > c.closeSeq {
		w.viol("conn %d: handler of %s started although it arrived after Close returned", []string{"C07"}, c.idx, tok)
	}
	c.running++
	w.running++
	switch {
	case c.limit >= 0 && c.limit <= 1:
		if c.running > 1 {
			w.viol("conn %d: %d handlers overlap with a concurrency limit of %d", []string{"C04"}, c.idx, c.running, c.limit)
		}
		if x.idx < c.lastStart {
			w.viol("conn %d: handler of %s started out of arrival order", []string{"C04", "C03"}, c.idx, tok)
		}
		c.lastStart = x.idx
	case c.limit > 1:
		if c.running > c.limit {
			w.viol("conn %d: %d handlers run with a concurrency limit of %d", []string{"C04"}, c.idx, c.running, c.limit)
		}
	}
	if c.running > 1 {
		w.stat("reach.overlapping handlers")
	}
	ok := w.content(x, m, "when its handler started")
	w.steps(x.script, c, func() {
		if ok {
			ok = w.content(x, m, "while its handler was running")
		}
	}, "handler of "+tok)
	if ok {
		w.content(x, m, "just before its handler returned")
	}
	if c.running--; c.running == 0 {
		c.idleGen++
	}
	w.running--
	x.endN++
	simrt.Note("conn %d handler of %s ends", c.idx, tok)
	return x
}

// steps performs a script on c.
func (w *World) steps(ss []step, c *Conn, between func(), who string) {
	for i, s := range ss {
		switch s.kind {
		case "sleep":
			simrt.Sleep(s.d)
		case "yield":
			for j := 0; j <= s.n; j++ {
				simrt.Yield()
			}
		case "gate":
			for !w.gateOpen {
				w.gateQ.Wait("gate")
			}
		case "op":
			w.admin(s.op, c, fmt.Sprintf("%s.%d", who, i))
		}
		if between != nil {
			between()
		}
	}
}
