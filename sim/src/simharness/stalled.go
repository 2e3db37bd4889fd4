package simharness

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/url"
	"simrt"
	stime "simshim/time"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// Clients that stop reading for good while the server wants to tell them
// something. Whoever writes to them is blocked, and nobody else: the other
// connections are served promptly and the server answers questions. Once a
// stalled connection ends, for whatever reason, nothing of it stays behind.

func init() {
	reg(&Scenario{Name: "stalled", Main: func() { runStalled(false) }})
	reg(&Scenario{Name: "stalledmem", Main: func() { runStalled(true) }})
}

// promptly is how long what depends on no stalled client may take.
const promptly = int64(60 * time.Second)

type stWorld struct {
	mem     bool
	T       int64
	delay   int64
	room    int // frames the network takes although the client doesn't read
	conns   []*stConn
	dialing map[int]*stConn
	mt      *memchan.Transport
	nt      *stNet
	srv     wwr.Server
	keys    int
	store   map[string]time.Time
	known   []string
	calls   map[*stCall]struct{}
	runRet  bool
	over    bool
	// actors at work
	stallers, healthy int
}

// stCall is a call that has to return promptly.
type stCall struct {
	what  string
	props []string
	start int64
}

type stConn struct {
	w        *stWorld
	idx      int
	limit    int
	mem      wwr.ClientSocket
	sock     *stSock
	con      wwr.Connection
	conn     int // hook invocations
	disc     int
	stalled  bool
	left     bool
	eof      bool
	conf     bool
	reading  bool // the receiver holds a message it read
	sq       simrt.WaitQ
	next     uint32
	reqs     map[[8]byte]*stReq
	key      string
	blocked  map[string]int // operations the stall may block
	handling int
	lastSend int64
}

type stReq struct {
	done bool
	f    frame
	q    simrt.WaitQ
}

var (
	c17     = []string{"C17"}
	stalled = []string{"C17", "C08"}
)

func runStalled(mem bool) {
	w := &stWorld{mem: mem, dialing: map[int]*stConn{}, store: map[string]time.Time{}, calls: map[*stCall]struct{}{}}
	w.T = []int64{10 * int64(time.Hour), 30_000 * ms, 300_000 * ms}[wi(3)]
	w.delay = []int64{0, ms, 30 * ms}[wi(3)]
	w.room = []int{0, 0, 1, 3}[wi(4)]
	lg := log.New(io.Discard, "", 0)
	o := wwr.ServerOptions{Sessions: wwr.Enabled, SessionManager: stStore{w}, SessionKeyGenerator: stGen{w},
		WarnLog: lg, ErrorLog: lg, ReadTimeout: time.Duration(w.T), MessageBufferSize: 1024}
	var tr wwr.Transport
	if mem {
		w.mt = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions { return w.dialing[simrt.CurG()].options() }}
		tr = w.mt
	} else {
		w.nt = &stNet{w: w}
		tr = w.nt
	}
	srv, err := wwr.NewServer(stImpl{w}, o, tr)
	if err != nil {
		panic(fmt.Sprintf("harness: NewServer: %v", err))
	}
	w.srv = srv
	simrt.GoNamed("harness: Run", func() { srv.Run(); w.runRet = true })
	for i := 1 + wi(2); i > 0; i-- {
		w.spawnHealthy()
	}
	n := 1 + wi(3)
	for i := 0; i < n; i++ {
		w.stallers++
		simrt.GoNamed(fmt.Sprintf("harness: stalling %d", i), func() { w.staller(); w.stallers-- })
	}
	if pct(60) {
		w.spawnAsker()
	}
	if pct(40) {
		simrt.Sleep(int64(wi(600_000)) * ms)
		w.spawnHealthy()
	}
	for i := 0; w.stallers+w.healthy > 0; i++ {
		w.over = w.stallers == 0
		if i > 100_000 {
			simrt.Fail("liveness", stalled, "the actors didn't end: %s", strings.Join(simrt.Blocked(), "; "))
			return
		}
		simrt.Sleep(int64(10 * time.Second))
		w.overdue()
	}
	w.over = true
	simrt.Sleep(6 * promptly)
	simrt.Sleep(2 * promptly)
	w.overdue()
	var shut bool
	simrt.GoNamed("harness: shutdown", func() {
		w.call("Shutdown", []string{"C05", "C17"}, func() { srv.Shutdown() })
		shut = true
	})
	simrt.Sleep(2 * promptly)
	w.overdue()
	if !shut || !w.runRet {
		simrt.Fail("liveness", []string{"C05", "C17"}, "the server didn't shut down: %s", strings.Join(simrt.Blocked(), "; "))
	}
	for _, c := range w.conns {
		c.ended("the server was shut down")
	}
	if n := srv.ActiveSessionsNum(); n != 0 {
		simrt.Fail("check", []string{"C10", "C17"}, "%d sessions are active although all connections ended", n)
	}
}

// call runs what has to return promptly.
func (w *stWorld) call(what string, props []string, f func()) {
	c := &stCall{what, props, simrt.Now()}
	w.calls[c] = struct{}{}
	f()
	delete(w.calls, c)
	if d := simrt.Now() - c.start; d > promptly {
		simrt.Fail("check", props, "%s took %s while clients were stalled", what, time.Duration(d))
	}
}

// overdue looks for calls that should have returned.
func (w *stWorld) overdue() {
	var o *stCall
	for c := range w.calls {
		if simrt.Now()-c.start > promptly && (o == nil || c.start < o.start || c.start == o.start && c.what < o.what) {
			o = c
		}
	}
	if o != nil {
		simrt.Fail("liveness", o.props, "%s hasn't returned for %s: %s", o.what, time.Duration(simrt.Now()-o.start), strings.Join(simrt.Blocked(), "; "))
		delete(w.calls, o)
	}
}

// ------------------------------------------------------------------- clients

func (c *stConn) options() wwr.ConnectionOptions {
	return wwr.ConnectionOptions{ConcurrencyLimit: c.limit, Info: map[int]interface{}{1: c}}
}

// dial connects; a client stalled already doesn't even read the configuration.
func (w *stWorld) dial(stall bool) *stConn {
	c := &stConn{w: w, idx: len(w.conns), limit: []int{-1, 0, 1, 2}[wi(4)], stalled: stall, reqs: map[[8]byte]*stReq{}, blocked: map[string]int{}}
	w.conns = append(w.conns, c)
	c.lastSend = simrt.Now()
	if !w.mem {
		s := &stSock{c: c}
		c.sock = s
		w.nt.socks = append(w.nt.socks, s)
		simrt.GoNamed(fmt.Sprintf("server side of conn %d", c.idx), func() {
			w.nt.onNew(c.options(), s)
			s.returned = true
		})
		return c
	}
	cs, err := (&memchan.ClientTransport{Server: w.mt}).NewSocket(time.Second)
	if err != nil {
		panic(err)
	}
	c.mem = cs
	w.call(fmt.Sprintf("conn %d: Dial", c.idx), c17, func() {
		w.dialing[simrt.CurG()] = c
		err = cs.Dial(time.Time{})
		delete(w.dialing, simrt.CurG())
	})
	if err != nil {
		simrt.Fail("check", []string{"C18", "C17"}, "dial failed on a running server: %v", err)
		c.left, c.eof = true, true
		return c
	}
	simrt.GoNamed(fmt.Sprintf("harness: receiver of %d", c.idx), func() {
		msg := message.NewMessage(1024)
		for {
			for c.stalled && !c.left {
				c.sq.Wait("client stalled")
			}
			if err := cs.Read(msg, time.Time{}); err != nil {
				c.onEOF()
				return
			}
			c.received(append([]byte(nil), msg.MsgBuffer.Data()...))
		}
	})
	return c
}

func (c *stConn) onEOF() {
	c.eof = true
	for _, r := range c.reqs {
		r.q.Wake()
	}
}

func (c *stConn) send(b []byte) bool {
	c.lastSend = simrt.Now()
	if c.sock != nil {
		s := c.sock
		simrt.After(c.w.delay, func() {
			if !s.closed {
				s.in = append(s.in, b)
				s.rq.Wake()
			}
		})
		return true
	}
	wr, err := c.mem.GetWriter()
	if err != nil {
		return false
	}
	if _, err = wr.Write(b); err != nil {
		wr.Close()
		return false
	}
	return wr.Close() == nil
}

func (c *stConn) leave() {
	c.left = true
	c.sq.Wake()
	if c.mem != nil {
		c.w.call(fmt.Sprintf("conn %d: closing the client's socket", c.idx), []string{"C18", "C17"}, func() { c.mem.Close() })
		return
	}
	s := c.sock
	simrt.After(c.w.delay, func() { s.peerGone = true; s.rq.Wake(); s.wq.Wake() })
}

func (c *stConn) received(b []byte) {
	f, err := decode(b)
	if err != nil {
		simrt.Fail("check", []string{"C22", "C17"}, "conn %d: received a malformed frame: %v", c.idx, err)
		return
	}
	if !c.conf != (f.Type == tConf) {
		simrt.Fail("check", []string{"C08"}, "conn %d: received a message of type %d, configured: %t", c.idx, f.Type, c.conf)
	}
	switch {
	case f.Type == tConf:
		c.conf = true
	case f.HasID:
		r := c.reqs[f.ID]
		if r == nil || r.done {
			simrt.Fail("check", []string{"C01", "C17"}, "conn %d: a reply for no open request (type %d)", c.idx, f.Type)
			return
		}
		r.f, r.done = f, true
		r.q.Wake()
	}
}

func (c *stConn) request(mk func(id [8]byte) []byte) *stReq {
	c.next++
	var id [8]byte
	binary.LittleEndian.PutUint32(id[:], c.next)
	r := &stReq{}
	c.reqs[id] = r
	if !c.send(mk(id)) {
		r.done, r.f.Type = true, -1
	}
	return r
}

func named(name, arg string) func(id [8]byte) []byte {
	return func(id [8]byte) []byte { return encRequest(id, []byte(name), encBin, []byte(arg)) }
}

// ask waits for the reply, which has to arrive promptly on an open connection.
func (c *stConn) ask(what string, mk func(id [8]byte) []byte) *stReq {
	r := c.request(mk)
	c.w.call(fmt.Sprintf("conn %d: %s", c.idx, what), stalled, func() {
		for !r.done && !c.eof {
			r.q.Wait("reply to " + what)
		}
	})
	if !r.done {
		r.done, r.f.Type = true, -1
		if !c.left {
			simrt.Fail("check", c17, "conn %d ended while it was used", c.idx)
		}
	}
	return r
}

// spawnHealthy adds a client that has nothing to do with the stalled ones.
func (w *stWorld) spawnHealthy() {
	w.healthy++
	simrt.GoNamed("harness: healthy", func() {
		defer func() { w.healthy-- }()
		c := w.dial(false)
		w.call(fmt.Sprintf("conn %d: configuration", c.idx), stalled, func() {
			for !c.conf && !c.eof {
				simrt.Sleep(10 * ms)
			}
		})
		for i := 0; i < 200 && !w.over; i++ {
			max := w.T / 3
			if max > 600_000*ms {
				max = 600_000 * ms
			}
			simrt.Sleep(int64(wi(1000)+1) * max / 1000)
			c.send([]byte{message.MsgHeartbeat})
			switch wi(6) {
			case 0, 1:
				if r := c.ask("request", named("ping", fmt.Sprint(i))); r.f.Type == tReply && string(r.f.Payload) != fmt.Sprint(i) || r.f.Type != tReply && r.f.Type >= 0 {
					simrt.Fail("check", []string{"C01", "C17"}, "conn %d: the reply to a request has type %d and payload %q", c.idx, r.f.Type, r.f.Payload)
				}
			case 2:
				if r := c.ask("session creation", named("mk", "")); r.f.Type == tReply {
					c.key = string(r.f.Payload)
				}
			case 3:
				r := c.ask("session closure", func(id [8]byte) []byte { return encSimple(tCloseSession, id, "") })
				if c.key = ""; r.f.Type != tReply && r.f.Type >= 0 {
					simrt.Fail("check", c17, "conn %d: closing the session failed: type %d", c.idx, r.f.Type)
				}
			case 4:
				if len(w.known) > 0 && c.key == "" {
					k := w.known[wi(len(w.known))]
					if r := c.ask("session restoration", func(id [8]byte) []byte { return encSimple(tRestore, id, k) }); r.f.Type >= tReply {
						c.key = k
						Stats["reach.restored"]++
					}
				}
			case 5:
				if pct(20) {
					c.leave()
					simrt.Sleep(promptly)
					c.ended("its client left")
					c = w.dial(false)
					w.call(fmt.Sprintf("conn %d: configuration", c.idx), stalled, func() {
						for !c.conf && !c.eof {
							simrt.Sleep(10 * ms)
						}
					})
				}
			}
		}
		c.leave()
		simrt.Sleep(promptly)
		c.ended("its client left")
	})
}

// spawnAsker asks the server about its sessions.
func (w *stWorld) spawnAsker() {
	simrt.GoNamed("harness: asker", func() {
		for !w.over {
			simrt.Sleep(int64(1+wi(300_000)) * ms)
			k := ""
			if len(w.known) > 0 {
				k = w.known[wi(len(w.known))]
			}
			w.call("asking the server about its sessions", []string{"C17", "C10"}, func() {
				w.srv.ActiveSessionsNum()
				w.srv.SessionConnectionsNum(k)
				for _, x := range w.srv.SessionConnections(k) {
					x.IsActive()
				}
			})
		}
	})
}

// ---------------------------------------------------------- stalled clients

func (c *stConn) admin(what string, f func()) {
	c.blocked[what]++
	simrt.GoNamed(fmt.Sprintf("harness: %s on conn %d", what, c.idx), func() {
		f()
		c.blocked[what]--
	})
}

// staller is a client that stops reading and whose connection ends some time.
func (w *stWorld) staller() {
	simrt.Sleep(int64(wi(5000)) * ms)
	early := pct(15)
	c := w.dial(early)
	Stats["fault.stalled for good"]++
	if !early {
		w.call(fmt.Sprintf("conn %d: configuration", c.idx), stalled, func() {
			for !c.conf && !c.eof {
				simrt.Sleep(10 * ms)
			}
		})
		if pct(60) {
			k := w.pick()
			if k != "" && pct(40) {
				c.ask("session restoration", func(id [8]byte) []byte { return encSimple(tRestore, id, k) })
			} else {
				c.ask("session creation", named("mk", ""))
			}
		}
		simrt.Sleep(int64(wi(1000)) * ms)
		c.stalled = true
	}
	end := wi(3) // 0: the client leaves, 1: closed by the server, 2: timeout
	if end == 1 && early {
		end = 0
	}
	if end == 2 && (early || w.T > int64(time.Hour)) {
		end = 0
	}
	// The receiver may hold a read already.
	if c.mem != nil && !early {
		c.admin("signal", func() { c.con.Signal([]byte("wake"), wwr.Payload{Data: []byte("x")}) })
	}
	owed := false
	for i := wi(5); i > 0; i-- {
		simrt.Sleep(int64(wi(2000)) * ms)
		con := c.con
		k := wi(6)
		if con == nil && k < 4 {
			k = 5
		}
		switch k {
		case 0:
			c.admin("signal", func() {
				for j := w.room; j >= 0; j-- {
					con.Signal([]byte("s"), wwr.Payload{Data: []byte("data")})
				}
			})
		case 1:
			c.admin("create", func() { con.CreateSession(nil) })
		case 2:
			c.admin("close session", func() { con.CloseSession() })
		case 3:
			if k := con.SessionKey; len(c.blocked) == 0 && !owed {
				// Nobody holds its session's lock yet.
				if key := k(); key != "" {
					c.admin("close session by key", func() { w.srv.CloseSession(key) })
				}
			}
		case 4:
			if end == 0 && !early {
				owed = true
				name := []string{"ping", "mk", "sig"}[wi(3)]
				c.admin("request", func() { c.request(named(name, "x")) })
				Stats["reach.handler blocked"]++
			}
		}
	}
	for _, n := range c.blocked {
		if n > 0 {
			Stats["reach.blocked by a stalled client"]++
		}
	}
	why := ""
	hold := int64(1+wi(7_200_000)) * ms
	switch end {
	case 0:
		simrt.Sleep(hold)
		why = "its client left"
		c.leave()
	case 1:
		if hold > w.T/2 {
			hold = w.T / 2
		}
		simrt.Sleep(hold)
		why = "it was closed"
		for i := 1 + wi(2); i > 0; i-- {
			simrt.GoNamed("harness: closer", func() {
				w.call(fmt.Sprintf("conn %d: Close", c.idx), []string{"C07", "C08", "C17"}, c.con.Close)
			})
		}
	case 2:
		why = "its client was silent"
		simrt.Sleep(w.T + w.T/4 + c.lastSend - simrt.Now())
	}
	Stats["reach.ended: "+why]++
	simrt.Sleep(promptly)
	c.ended(why)
	c.left = true
	c.sq.Wake()
	if end != 0 && c.mem != nil {
		c.leave()
	}
}

func (w *stWorld) pick() string {
	if len(w.known) == 0 {
		return ""
	}
	return w.known[wi(len(w.known))]
}

// ended checks that a connection that came to its end is gone completely.
func (c *stConn) ended(why string) {
	props := []string{"C08", "C07", "C17", "C09", "C10"}
	if c.disc != c.conn {
		simrt.Fail("liveness", props, "conn %d: %s long ago, the connected hook ran %d times, the disconnected hook %d times: %s",
			c.idx, why, c.conn, c.disc, strings.Join(simrt.Blocked(), "; "))
		return
	}
	if c.sock != nil && (!c.sock.closed || !c.sock.returned) || c.mem != nil && c.mem.IsConnected() {
		simrt.Fail("liveness", props, "conn %d: %s long ago, its socket is still open: %s", c.idx, why, strings.Join(simrt.Blocked(), "; "))
		return
	}
	for _, k := range []string{"close session", "close session by key", "create", "signal"} {
		// Closing a session by key may wait for another stalled client.
		if k != "close session by key" && c.blocked[k] > 0 {
			simrt.Fail("liveness", append([]string{"C22"}, props...), "conn %d: %s long ago, a call (%s) is still blocked: %s", c.idx, why, k, strings.Join(simrt.Blocked(), "; "))
			return
		}
	}
	if c.handling > 0 {
		simrt.Fail("liveness", props, "conn %d: %s long ago, %d handlers still run: %s", c.idx, why, c.handling, strings.Join(simrt.Blocked(), "; "))
		return
	}
	if c.con == nil {
		return
	}
	c.w.call(fmt.Sprintf("conn %d: looking at it after its end", c.idx), props, func() {
		if c.con.IsActive() || c.con.HasSession() || c.con.SessionKey() != "" {
			simrt.Fail("check", []string{"C10", "C07", "C35"}, "conn %d: %s long ago, active: %t, session: %q", c.idx, why, c.con.IsActive(), c.con.SessionKey())
		}
	})
	for _, k := range c.w.known {
		for _, x := range c.w.srv.SessionConnections(k) {
			if x == c.con {
				simrt.Fail("check", []string{"C10"}, "conn %d: %s long ago, session %q still lists it", c.idx, why, k)
			}
		}
	}
}

// --------------------------------------------------------------- application

type stGen struct{ w *stWorld }

func (g stGen) Generate() string { g.w.keys++; return fmt.Sprint("key", g.w.keys) }

type stStore struct{ w *stWorld }

func (s stStore) OnSessionCreated(con wwr.Connection) error {
	if k := con.SessionKey(); k != "" {
		s.w.store[k] = con.SessionCreation()
		s.w.known = append(s.w.known, k)
	}
	return nil
}
func (s stStore) OnSessionLookup(key string) (wwr.SessionLookupResult, error) {
	at, ok := s.w.store[key]
	if !ok {
		return nil, nil
	}
	return wwr.NewSessionLookupResult(at, at, nil), nil
}
func (s stStore) OnSessionClosed(key string) error {
	delete(s.w.store, key)
	return nil
}

type stImpl struct{ w *stWorld }

func (i stImpl) OnClientConnected(_ wwr.ConnectionOptions, con wwr.Connection) {
	c := con.Info(1).(*stConn)
	c.con = con
	c.conn++
}

func (i stImpl) OnClientDisconnected(con wwr.Connection, _ error) { con.Info(1).(*stConn).disc++ }

func (i stImpl) OnSignal(context.Context, wwr.Connection, wwr.Message) {}

func (i stImpl) OnRequest(_ context.Context, con wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	c := con.Info(1).(*stConn)
	c.handling++
	defer func() { c.handling-- }()
	switch string(m.Name()) {
	case "mk":
		if err := con.CreateSession(nil); err != nil {
			return wwr.Payload{}, wwr.ErrRequest{Code: "FAILED", Message: err.Error()}
		}
		return wwr.Payload{Data: []byte(con.SessionKey())}, nil
	case "sig":
		con.Signal([]byte("s"), wwr.Payload{Data: []byte("data")})
	}
	return wwr.Payload{Data: append([]byte(nil), m.Payload()...)}, nil
}

// ----------------------------------------------------------------- transport

type stNet struct {
	w      *stWorld
	socks  []*stSock
	onNew  wwr.OnNewConnection
	closed bool
	q      simrt.WaitQ
}

func (n *stNet) Initialize(_ wwr.ServerOptions, _ wwr.IsShuttingDown, b wwr.OnNewConnection) error {
	n.onNew = b
	return nil
}
func (n *stNet) Serve() error {
	for !n.closed {
		n.q.Wait("transport serving")
	}
	return nil
}
func (n *stNet) Shutdown() error {
	n.closed = true
	n.q.Wake()
	for _, s := range n.socks {
		s.Close()
	}
	return nil
}
func (n *stNet) Address() url.URL { return url.URL{Scheme: "sim"} }

type stSock struct {
	c        *stConn
	readMu   simrt.Mutex
	wMu      simrt.Mutex
	in       [][]byte
	unread   int
	closed   bool
	peerGone bool
	returned bool
	rq, wq   simrt.WaitQ
}

func (s *stSock) IsConnected() bool    { simrt.Yield(); return !s.closed }
func (s *stSock) RemoteAddr() net.Addr { return simAddr{fmt.Sprint("s", s.c.idx)} }

func (s *stSock) Read(msg *message.Message, deadline time.Time) wwr.ErrSockRead {
	simrt.Yield()
	s.readMu.Lock()
	defer s.readMu.Unlock()
	for {
		switch {
		case s.closed:
			return readErr{true, "socket closed"}
		case len(s.in) > 0:
			b := s.in[0]
			s.in = s.in[1:]
			if ok, err := msg.ReadBytes(b); err != nil || !ok {
				simrt.Fail("check", []string{"C20"}, "valid message %x refused: %v", b, err)
				return readErr{false, "bad message"}
			}
			return nil
		case s.peerGone:
			return readErr{true, "closed by peer"}
		case deadline.IsZero():
			s.rq.Wait("socket read")
		default:
			left := int64(stime.Until(deadline))
			if left <= 0 {
				return readErr{false, "read deadline exceeded"}
			}
			s.rq.WaitUntil(simrt.Now()+left, "socket read")
		}
	}
}

func (s *stSock) GetWriter() (io.WriteCloser, error) {
	simrt.Yield()
	s.wMu.Lock()
	if s.closed {
		s.wMu.Unlock()
		return nil, wwr.ErrDisconnected{Cause: errors.New("can't write to a closed socket")}
	}
	return &stWriter{s: s}, nil
}

type stWriter struct {
	s   *stSock
	buf []byte
}

func (w *stWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *stWriter) Close() error {
	simrt.Yield()
	s := w.s
	defer s.wMu.Unlock()
	if len(w.buf) == 0 {
		return errors.New("no data written")
	}
	for !s.closed && !s.peerGone && s.c.stalled && s.unread >= s.c.w.room {
		s.wq.Wait("socket write (the client doesn't read)")
	}
	if s.closed || s.peerGone {
		return wwr.ErrDisconnected{Cause: errors.New("connection lost while writing")}
	}
	if s.c.stalled {
		s.unread++
		return nil
	}
	b := w.buf
	simrt.After(s.c.w.delay, func() {
		if !s.peerGone && !s.c.stalled {
			s.c.received(b)
		}
	})
	return nil
}

func (s *stSock) Close() error {
	simrt.Yield()
	if s.closed {
		return nil
	}
	s.closed = true
	s.rq.Wake()
	s.wq.Wake()
	simrt.After(s.c.w.delay, s.c.onEOF)
	return nil
}
