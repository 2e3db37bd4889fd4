package simharness

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/url"
	"simrt"
	stime "simshim/time"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// Read timeouts (C09): clients that are silent, fall silent, vanish without a
// trace, or keep sending messages or heartbeats right within the advertised
// timeout, while handlers block for long and the wall clock jumps.

func init() {
	reg(&Scenario{Name: "timeout", Main: func() { runTimeout(false) }})
	reg(&Scenario{Name: "timeoutmem", Main: func() { runTimeout(true) }})
}

var c09 = []string{"C09"}

// toConn is one connection of a timeout run.
type toConn struct {
	w        *toWorld
	idx      int
	limit    int
	sock     *toSock
	mem      wwr.ClientSocket
	confSeen bool
	adv      int64 // advertised timeout
	dialAt   int64
	gone     bool // the client closed or cut the connection itself
	eof      bool
	lastSend int64 // start of the last transmission the server could read
	lastBusy int64 // when the server last did anything that keeps it from reading
	lastArr  int64
	sends    int
	handled  map[string]int
	ids      map[[8]byte]int // answers seen
	sent     map[string]bool // tokens sent
	frames   int             // non-conf frames received
	expect   int
	running  int // handlers and hooks
	connHook int
	discHook int
	discAt   int64
	discErr  error
	timedOut bool
	con      wwr.Connection
	done     bool
	overlong bool // the client let more than the timeout pass on purpose
}

type toWorld struct {
	mem      bool
	T        int64
	opt      int64
	conns    []*toConn
	mt       *memchan.Transport
	nt       *toNet
	srv      wwr.Server
	dialing  map[int]*toConn
	delay    int64
	jitter   int64
	runRet   bool
	shutDone bool
	jumps    int
}

func runTimeout(mem bool) {
	w := &toWorld{mem: mem, dialing: map[int]*toConn{}}
	w.opt = []int64{1000 * ms, 1500*ms + 400_000, 3000 * ms, 60_000 * ms, 500 * ms, 0, 5000*ms + 999_999,
		66_000*ms + 500_000, 130_000 * ms, 5 * 3_600_000 * ms}[wi(10)]
	w.delay = []int64{0, ms, 30 * ms}[wi(3)]
	w.jitter = []int64{0, ms, 50 * ms}[wi(3)]
	lg := log.New(io.Discard, "", 0)
	o := wwr.ServerOptions{Sessions: wwr.Disabled, WarnLog: lg, ErrorLog: lg,
		ReadTimeout: time.Duration(w.opt), MessageBufferSize: 256}
	var tr wwr.Transport
	if mem {
		w.mt = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
			return w.dialing[simrt.CurG()].options()
		}}
		tr = w.mt
	} else {
		w.nt = &toNet{w: w}
		tr = w.nt
	}
	srv, err := wwr.NewServer(&toImpl{w}, o, tr)
	if err != nil {
		panic(fmt.Sprintf("harness: NewServer: %v", err))
	}
	w.srv = srv
	simrt.GoNamed("harness: Run", func() { srv.Run(); w.runRet = true })
	n := 1 + wi(4)
	for i := 0; i < n; i++ {
		c := &toConn{w: w, idx: i, limit: []int{-1, 0, 1, 2, 3}[wi(5)], handled: map[string]int{}, ids: map[[8]byte]int{}, sent: map[string]bool{}}
		w.conns = append(w.conns, c)
		simrt.GoNamed(fmt.Sprintf("harness: client %d", i), func() { c.client(); c.done = true })
	}
	if pct(60) {
		k := 1 + wi(4)
		simrt.GoNamed("harness: wall clock", func() {
			for ; k > 0; k-- {
				simrt.Sleep(int64(wi(4000)) * ms)
				d := int64(1+wi(200_000)) * ms
				if pct(30) {
					d *= 1000
				}
				if pct(50) {
					d = -d
				}
				w.jumps++
				Stats["fault.wall clock jump"]++
				simrt.Note("wall clock jumps by %s", time.Duration(d))
				simrt.JumpWall(d)
			}
		})
	}
	simrt.Settle(int64(1000 * time.Hour))
	for _, c := range w.conns {
		c.final()
	}
	simrt.GoNamed("harness: shutdown", func() { srv.Shutdown(); w.shutDone = true })
	simrt.Settle(int64(1000 * time.Hour))
	if !w.shutDone || !w.runRet {
		simrt.Fail("liveness", []string{"C05", "C09"}, "the server didn't shut down: %s", strings.Join(simrt.Blocked(), "; "))
	}
}

func (c *toConn) options() wwr.ConnectionOptions {
	return wwr.ConnectionOptions{ConcurrencyLimit: c.limit, Info: map[int]interface{}{1: c}}
}

// busy notes that the server did something else than waiting for messages.
func (c *toConn) busy() { c.lastBusy = simrt.Now() }

// client drives the connection.
func (c *toConn) client() {
	w := c.w
	simrt.Sleep(int64(wi(3000)) * ms)
	if !c.dial() {
		return
	}
	// Learn the timeout.
	for i := 0; !c.confSeen && i < 1000; i++ {
		simrt.Sleep(10 * ms)
	}
	if !c.confSeen {
		simrt.Fail("check", c09, "conn %d: no configuration message arrived", c.idx)
		return
	}
	T := c.adv
	margin := w.delay + w.jitter + 20*ms
	rounds := wi(9)
	phases := 1 + wi(2)
	for p := 0; p < phases; p++ {
		// Per phase: only heartbeats, only messages or both.
		style := wi(4)
		for r := 0; r < rounds; r++ {
			gap := int64(simrt.WorkStream().Intn(1001)) * (T - margin) / 1000
			switch wi(4) {
			case 0:
				gap = T - margin
			case 1:
				gap = gap / 20
			}
			simrt.Sleep(gap)
			if c.eof {
				return
			}
			c.transmit(style)
		}
		if c.eof {
			return
		}
		if p+1 < phases && pct(50) && w.nt != nil {
			// A burst.
			for k := 1 + wi(6); k > 0 && !c.eof; k-- {
				c.transmit(style)
			}
		}
	}
	switch wi(5) {
	case 0:
		// Close orderly.
		simrt.Sleep(gapBelow(T, margin))
		if !c.eof {
			c.gone = true
			Stats["reach.client closed"]++
			c.closeClient()
		}
	case 1:
		if c.sock != nil {
			// Vanish: neither an end nor acknowledgements arrive any more.
			simrt.Sleep(gapBelow(T, margin))
			if !c.eof {
				Stats["fault.half-open"]++
				c.sock.lost = true
			}
		}
	case 2:
		// Too late by a little or a lot.
		c.overlong = true
		simrt.Sleep(T + int64(1+wi(300))*ms*int64(1+wi(5)))
		if !c.eof {
			c.transmit(0)
		}
	}
	// Silence from here on.
	Stats["reach.silent"]++
}

func gapBelow(T, margin int64) int64 { return int64(wi(1001)) * (T - margin) / 1000 }

func (c *toConn) transmit(style int) {
	w := c.w
	kind := wi(3)
	if style == 0 || style == 3 && pct(50) {
		kind = 0
	}
	if kind == 0 {
		b := []byte{message.MsgHeartbeat}
		Stats["reach.heartbeat"]++
		c.send(b)
		return
	}
	// The handler sleeps for as long as the payload says.
	dur := 0
	switch wi(5) {
	case 0:
		dur = wi(20)
	case 1:
		dur = wi(int(c.adv/ms)*3 + 1)
	case 2:
		dur = int(c.adv/ms) + wi(100)
	}
	c.sends++
	tok := fmt.Sprintf("c%dm%d", c.idx, c.sends)
	pay := make([]byte, 4, 4+len(tok))
	binary.LittleEndian.PutUint32(pay, uint32(dur))
	pay = append(pay, tok...)
	c.sent[tok] = true
	if kind == 1 {
		b := append([]byte{message.MsgSignalBinary, 0}, pay...)
		c.send(b)
		return
	}
	var id [8]byte
	binary.LittleEndian.PutUint64(id[:], uint64(c.sends))
	b := append([]byte{message.MsgRequestBinary}, id[:]...)
	b = append(append(b, 0), pay...)
	c.expect++
	_ = w
	c.send(b)
}

func (c *toConn) dial() bool {
	w := c.w
	c.dialAt = simrt.Now()
	c.lastSend = c.dialAt
	if !w.mem {
		s := &toSock{c: c, n: w.nt}
		c.sock = s
		if w.nt.isShut() {
			return false
		}
		w.nt.socks = append(w.nt.socks, s)
		simrt.GoNamed(fmt.Sprintf("server side of conn %d", c.idx), func() {
			w.nt.onNew(c.options(), s)
			s.returned = true
		})
		return true
	}
	cs, err := (&memchan.ClientTransport{Server: w.mt}).NewSocket(time.Second)
	if err != nil {
		panic(err)
	}
	c.mem = cs
	w.dialing[simrt.CurG()] = c
	err = cs.Dial(time.Time{})
	delete(w.dialing, simrt.CurG())
	if err != nil {
		simrt.Fail("check", []string{"C18", "C09"}, "dial failed on a running server: %v", err)
		return false
	}
	simrt.GoNamed(fmt.Sprintf("harness: receiver of %d", c.idx), func() {
		msg := message.NewMessage(256)
		for {
			if err := cs.Read(msg, time.Time{}); err != nil {
				if !err.IsCloseErr() {
					simrt.Fail("check", []string{"C18"}, "client read failed: %v", err)
				}
				c.eof = true
				return
			}
			c.received(append([]byte(nil), msg.MsgBuffer.Data()...))
		}
	})
	return true
}

func (c *toConn) send(b []byte) {
	start := simrt.Now()
	if c.mem == nil {
		c.sock.arrive(b)
		return
	}
	wr, err := c.mem.GetWriter()
	if err == nil {
		if _, err = wr.Write(b); err == nil {
			err = wr.Close()
		} else {
			wr.Close()
		}
	}
	simrt.Note("conn %d sent %x: %v", c.idx, b[:1], err)
	if err == nil {
		if start > c.lastSend {
			c.lastSend = start
		}
		c.busy()
	}
}

func (c *toConn) closeClient() {
	if c.mem != nil {
		c.mem.Close()
		return
	}
	s := c.sock
	s.later(func() { s.peerGone = true; s.rq.Wake(); s.wq.Wake() })
}

func (c *toConn) received(b []byte) {
	if len(b) > 0 && b[0] == message.MsgAcceptConf {
		m := message.NewMessage(256)
		if _, err := m.ReadBytes(b); err != nil {
			simrt.Fail("check", []string{"C08", "C09"}, "unreadable configuration message: %v", err)
			return
		}
		if c.confSeen {
			simrt.Fail("check", []string{"C08"}, "conn %d: second configuration message", c.idx)
		}
		c.adv = int64(m.ServerConfiguration.ReadTimeout)
		c.confSeen = true
		want := c.w.opt
		if want >= 1000*ms && (c.adv > want || c.adv < want-ms) {
			simrt.Fail("check", c09, "the advertised read timeout is %s, the configured one %s", time.Duration(c.adv), time.Duration(want))
		}
		if c.adv <= 0 {
			simrt.Fail("check", c09, "the advertised read timeout is %s", time.Duration(c.adv))
			c.confSeen = false
		}
		return
	}
	c.frames++
	m := message.NewMessage(256)
	if _, err := m.ReadBytes(b); err != nil || m.MsgType != message.MsgReplyBinary {
		simrt.Fail("check", c09, "conn %d: unexpected message %x from the server", c.idx, b)
		return
	}
	c.ids[m.MsgIdentifier]++
	if c.ids[m.MsgIdentifier] > 1 {
		simrt.Fail("check", []string{"C01"}, "conn %d: a second reply", c.idx)
	}
}

// timeoutMs is what the server has to observe: never less than it advertises.
func (c *toConn) limitLow() int64 { return c.adv }

// closedForTime is called when the server gives the connection up on account of
// time.
func (c *toConn) closedForTime() {
	now := simrt.Now()
	c.timedOut = true
	Stats["reach.timed out"]++
	if !c.confSeen {
		return
	}
	T := c.limitLow()
	base := c.lastSend
	if c.sock != nil {
		base = c.sock.lastRead
	}
	if now-base < T {
		simrt.Fail("check", c09, "conn %d was closed on account of time %s after the server read its last message, the timeout is %s",
			c.idx, time.Duration(now-base), time.Duration(T))
	}
	if simrt.Slips() {
		return
	}
	if c.sock != nil && c.lastArr > base {
		base = c.lastArr
		if now-base < T {
			simrt.Fail("check", c09, "conn %d was closed on account of time although a message arrived %s before, the timeout is %s",
				c.idx, time.Duration(now-base), time.Duration(T))
		}
	}
	if c.lastBusy > base {
		base = c.lastBusy
	}
	if now-base > T+T/4+50*ms {
		simrt.Fail("check", c09, "conn %d was closed only after %s of silence, the timeout is %s",
			c.idx, time.Duration(now-base), time.Duration(T))
	}
}

func (c *toConn) final() {
	if c.dialAt == 0 && c.sock == nil && c.mem == nil || !c.confSeen {
		return
	}
	if !c.done {
		simrt.Fail("liveness", c09, "client %d is stuck: %s", c.idx, strings.Join(simrt.Blocked(), "; "))
		return
	}
	if c.discHook != 1 {
		simrt.Fail("liveness", c09, "conn %d is silent for good but was reported disconnected %d times", c.idx, c.discHook)
	}
	if c.con != nil && c.con.IsActive() {
		simrt.Fail("liveness", c09, "conn %d is silent for good but still active", c.idx)
	}
	if c.sock != nil && !c.sock.closed {
		simrt.Fail("liveness", c09, "conn %d is silent for good but its socket was never closed: %s", c.idx, strings.Join(simrt.Blocked(), "; "))
	}
	if c.mem != nil && (c.mem.IsConnected() || !c.eof) {
		simrt.Fail("liveness", c09, "conn %d is silent for good but its socket was never closed", c.idx)
	}
	if c.sock != nil && !c.sock.returned {
		simrt.Fail("liveness", c09, "conn %d: the server still works on the silent connection: %s", c.idx, strings.Join(simrt.Blocked(), "; "))
	}
	for tok, n := range c.handled {
		if !c.sent[tok] || n > 1 {
			simrt.Fail("check", []string{"C01", "C09"}, "conn %d: handler invoked %d times for %q", c.idx, n, tok)
		}
	}
	if c.frames > c.expect {
		simrt.Fail("check", c09, "conn %d: received %d messages, at most %d replies are due", c.idx, c.frames, c.expect)
	}
}

// ------------------------------------------------------------ implementation

type toImpl struct{ w *toWorld }

func (i *toImpl) connOf(con wwr.Connection) *toConn { return con.Info(1).(*toConn) }

func (i *toImpl) OnClientConnected(o wwr.ConnectionOptions, con wwr.Connection) {
	c := i.connOf(con)
	c.con = con
	c.connHook++
	if wi(4) == 0 {
		simrt.Sleep(int64(wi(3000)) * ms)
	}
	c.busy()
}

func (i *toImpl) OnClientDisconnected(con wwr.Connection, reason error) {
	c := i.connOf(con)
	c.discHook++
	c.discAt = simrt.Now()
	c.discErr = reason
	simrt.Note("conn %d disconnected: %v", c.idx, reason)
	if e, ok := reason.(wwr.ErrSockRead); ok && !e.IsCloseErr() && c.mem != nil {
		if c.gone {
			simrt.Note("closed anyway")
		}
		c.closedForTime()
	}
}

func (i *toImpl) handle(con wwr.Connection, m wwr.Message) {
	c := i.connOf(con)
	p := m.Payload()
	if len(p) < 4 {
		simrt.Fail("check", []string{"C02", "C09"}, "conn %d: handler invoked with %x, which nobody sent", c.idx, p)
		return
	}
	tok := string(p[4:])
	c.handled[tok]++
	c.running++
	defer func() { c.running-- }()
	if max := c.limit; max >= 0 && (c.running > max && c.running > 1) {
		simrt.Fail("check", []string{"C04"}, "conn %d: %d handlers run with a concurrency limit of %d", c.idx, c.running, c.limit)
	}
	if c.running > 1 && c.running == c.limit {
		Stats["reach.slots exhausted"]++
	}
	if d := binary.LittleEndian.Uint32(p); d > 0 {
		simrt.Sleep(int64(d) * ms)
		Stats["reach.slow handler"]++
	}
	c.busy()
}

func (i *toImpl) OnSignal(_ context.Context, con wwr.Connection, m wwr.Message) { i.handle(con, m) }
func (i *toImpl) OnRequest(_ context.Context, con wwr.Connection, m wwr.Message) (wwr.Payload, error) {
	i.handle(con, m)
	return wwr.Payload{Encoding: wwr.EncodingBinary, Data: []byte("ok")}, nil
}

// ----------------------------------------------------------------- transport

type toNet struct {
	w      *toWorld
	socks  []*toSock
	isShut wwr.IsShuttingDown
	onNew  wwr.OnNewConnection
	closed bool
	q      simrt.WaitQ
}

func (n *toNet) Initialize(o wwr.ServerOptions, a wwr.IsShuttingDown, b wwr.OnNewConnection) error {
	n.isShut, n.onNew = a, b
	return nil
}
func (n *toNet) Serve() error {
	for !n.closed {
		n.q.Wait("transport serving")
	}
	return nil
}
func (n *toNet) Shutdown() error {
	n.closed = true
	n.q.Wake()
	for _, s := range n.socks {
		s.Close()
	}
	return nil
}
func (n *toNet) Address() url.URL { return url.URL{Scheme: "sim"} }

type toSock struct {
	c        *toConn
	n        *toNet
	readMu   simrt.Mutex
	wMu      simrt.Mutex
	in       [][]byte
	lastIn   int64
	lastRead int64 // return time of the last successful read
	closed   bool
	peerGone bool
	lost     bool
	returned bool
	rq, wq   simrt.WaitQ
}

func (s *toSock) later(f func()) {
	d := s.n.w.delay
	if j := s.n.w.jitter; j > 0 {
		d += int64(simrt.FaultStream().Intn(int(j/1000)+1)) * 1000
	}
	at := simrt.Now() + d
	if at < s.lastIn {
		at = s.lastIn
	}
	s.lastIn = at
	simrt.After(at-simrt.Now(), func() {
		if !s.lost {
			f()
		}
	})
}

func (s *toSock) arrive(b []byte) {
	s.later(func() {
		if s.closed {
			return
		}
		s.c.lastArr = simrt.Now()
		s.in = append(s.in, b)
		s.rq.Wake()
	})
}

func (s *toSock) IsConnected() bool    { simrt.Yield(); return !s.closed }
func (s *toSock) RemoteAddr() net.Addr { return simAddr{fmt.Sprint("t", s.c.idx)} }

func (s *toSock) Read(msg *message.Message, deadline time.Time) wwr.ErrSockRead {
	simrt.Yield()
	s.readMu.Lock()
	defer s.readMu.Unlock()
	for {
		if s.closed {
			return readErr{true, "socket closed"}
		}
		var left int64 = 1
		if !deadline.IsZero() {
			if left = int64(stime.Until(deadline)); left <= 0 {
				s.c.closedForTime()
				return readErr{false, "read deadline exceeded"}
			}
		}
		if len(s.in) > 0 {
			b := s.in[0]
			s.in = s.in[1:]
			s.lastRead = simrt.Now()
			s.c.busy()
			simrt.Note("conn %d server reads %x", s.c.idx, b[:1])
			ok, err := msg.ReadBytes(b)
			if err != nil || !ok {
				simrt.Fail("check", []string{"C20"}, "valid message %x refused: %v", b, err)
				return readErr{false, "bad message"}
			}
			return nil
		}
		if s.peerGone {
			return readErr{true, "closed by peer"}
		}
		if deadline.IsZero() {
			s.rq.Wait("socket read")
		} else {
			s.rq.WaitUntil(simrt.Now()+left, "socket read")
		}
	}
}

func (s *toSock) GetWriter() (io.WriteCloser, error) {
	simrt.Yield()
	s.wMu.Lock()
	if s.closed {
		s.wMu.Unlock()
		return nil, wwr.ErrDisconnected{Cause: errors.New("can't write to a closed socket")}
	}
	return &toWriter{s: s}, nil
}

type toWriter struct {
	s   *toSock
	buf []byte
}

func (w *toWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *toWriter) Close() error {
	simrt.Yield()
	s := w.s
	defer s.wMu.Unlock()
	if s.closed {
		return errors.New("closed")
	}
	if len(w.buf) == 0 {
		return errors.New("no data written")
	}
	b := append([]byte(nil), w.buf...)
	s.c.busy()
	d := s.n.w.delay
	simrt.After(d, func() {
		if !s.lost && !s.peerGone {
			s.c.received(b)
		}
	})
	return nil
}

func (s *toSock) Close() error {
	simrt.Yield()
	if s.closed {
		return nil
	}
	s.closed = true
	simrt.Note("conn %d socket closed by the server", s.c.idx)
	s.rq.Wake()
	s.wq.Wake()
	simrt.After(s.n.w.delay, func() {
		if !s.lost {
			s.c.eof = true
		}
	})
	return nil
}
