package simharness

import (
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"regexp"
	"simrt"
	stime "simshim/time"
	"strconv"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
)

const ms = int64(time.Millisecond)

// Net is the simulated network: a webwire transport whose every delay, stall,
// cut and failure is drawn from the run's choice streams. Synchronisation inside
// it uses wait queues, which add no happens-before edges; only the writer lock a
// real transport would have does.
type Net struct {
	w      *World
	socks  []*SSock
	closed bool
	isShut wwr.IsShuttingDown
	onNew  wwr.OnNewConnection
	opts   wwr.ServerOptions
	serveQ simrt.WaitQ
	inits  int
	// failShut makes shutting down report an error after everything is closed.
	failShut bool
	shutErrs int
}

func (n *Net) Initialize(o wwr.ServerOptions, isShut wwr.IsShuttingDown, onNew wwr.OnNewConnection) error {
	n.opts, n.isShut, n.onNew = o, isShut, onNew
	n.inits++
	return nil
}

func (n *Net) Serve() error {
	for !n.closed {
		n.serveQ.Wait("transport serving")
	}
	return nil
}

func (n *Net) Shutdown() error {
	simrt.Yield()
	if n.closed {
		return nil
	}
	n.closed = true
	simrt.Note("transport shut down")
	n.serveQ.Wake()
	for len(n.socks) > 0 {
		s := n.socks[0]
		s.byShutdown = true
		s.Close()
	}
	if n.failShut {
		n.shutErrs++
		n.w.stat("fault.shutdown")
		return errors.New("injected failure shutting the transport down")
	}
	return nil
}

func (n *Net) Address() url.URL { return url.URL{Scheme: "sim"} }

// dial connects c; it runs on the client's goroutine.
func (n *Net) dial(c *Conn) error {
	simrt.Yield()
	if c.refuse {
		return errors.New("refused by options")
	}
	if n.isShut() {
		return errors.New("server is shutting down")
	}
	if n.closed {
		return errors.New("server is closed")
	}
	s := &SSock{n: n, c: c}
	c.ss = s
	c.accepted = true
	n.socks = append(n.socks, s)
	simrt.Note("conn %d accepted", c.idx)
	opts := c.options()
	simrt.GoNamed(fmt.Sprintf("server side of conn %d", c.idx), func() {
		n.onNew(opts, s)
		s.returned = true
	})
	return nil
}

type inItem struct {
	b   []byte
	m   *Msg
	bad bool
}

// SSock is the server's end of a simulated connection.
type SSock struct {
	n          *Net
	c          *Conn
	readMu     simrt.Mutex
	wMu        simrt.Mutex
	inq        []inItem
	lastIn     int64
	lastOut    int64
	noAddr     bool // asked for its address when it was closed, before the connected hook
	closed     bool // closed by the server
	closeSeq   uint64
	peerGone   bool
	peerErr    error
	broken     bool
	byShutdown bool
	readErr    error
	returned   bool
	rq         simrt.WaitQ
	wq         simrt.WaitQ
	cur        *swriter
	flushing   int
	inFlight   int // frames on the way to the client
	stalled    bool
	lost       bool // half-open: nothing reaches the client any more
	reads      int
	closeAt    int64
	lastRead   int64
}

type readErr struct {
	closed bool
	msg    string
}

func (e readErr) Error() string    { return e.msg }
func (e readErr) IsCloseErr() bool { return e.closed }

type simAddr struct{ s string }

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return a.s }

func (s *SSock) up() bool { return !s.closed && !s.broken && !(s.peerGone && s.n.w.eager) }

// IsConnected implements Socket.
func (s *SSock) IsConnected() bool { simrt.Yield(); return s.up() }

// RemoteAddr implements Socket.
func (s *SSock) RemoteAddr() net.Addr {
	if s.closed {
		s.noAddr = s.noAddr || s.c.connectedN == 0
		return nil // as the interface says
	}
	return simAddr{fmt.Sprint("c", s.c.idx)}
}

func (s *SSock) fail(closed bool, msg string) wwr.ErrSockRead {
	e := readErr{closed, msg}
	if s.readErr == nil {
		s.readErr = e
	}
	simrt.Note("conn %d read error: %s", s.c.idx, msg)
	return e
}

// Read implements Socket.
func (s *SSock) Read(msg *message.Message, deadline time.Time) wwr.ErrSockRead {
	simrt.Yield()
	s.readMu.Lock()
	defer s.readMu.Unlock()
	s.reads++
	for {
		if s.closed {
			return s.fail(true, "socket closed")
		}
		if s.broken {
			return s.fail(false, "connection broken")
		}
		var left int64 = 1
		if !deadline.IsZero() {
			left = int64(stime.Until(deadline))
			if left <= 0 {
				return s.fail(false, "read deadline exceeded")
			}
		}
		if len(s.inq) > 0 {
			it := s.inq[0]
			s.inq = s.inq[1:]
			s.lastRead = simrt.Now()
			if it.m != nil {
				it.m.readSeq = simrt.EvSeq()
				it.m.readN++
			}
			simrt.Note("conn %d server reads %s", s.c.idx, describe(it.b))
			var ok bool
			var err error
			if s.n.w.chunked {
				ok, err = msg.Read(&chunkReader{b: it.b, w: s.n.w})
			} else {
				ok, err = msg.ReadBytes(it.b)
			}
			if err != nil {
				return s.fail(false, "bad message: "+err.Error())
			}
			if !ok {
				return s.fail(false, "no message type")
			}
			return nil
		}
		if s.peerGone {
			if s.peerErr != nil {
				return s.fail(false, s.peerErr.Error())
			}
			return s.fail(true, "closed by peer")
		}
		if deadline.IsZero() {
			s.rq.Wait("socket read")
		} else {
			s.rq.WaitUntil(simrt.Now()+left, "socket read")
		}
	}
}

// chunkReader hands a frame out in arbitrary pieces.
type chunkReader struct {
	b []byte
	w *World
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(r.b) {
		n = len(r.b)
	}
	if n > 1 && simrt.FaultStream().Chance(1, 2) {
		n = 1 + simrt.FaultStream().Intn(n)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

var injText = regexp.MustCompile(`injected write failure (\d+);`)

// Lines that certainly don't report a write failure.
var noise = []string{"request handler internal error", "invalid reply for", "invalid error reply", "abnormal closure error",
	"OnSessionCreated hook failed", "session search handler failed", "couldn't encode session", "session closure hook", "couldn't close socket"}

// reported sees everything that is logged or returned to a caller.
func (w *World) reported(text string) {
	for t := range w.silent {
		if strings.Contains(text, t) {
			delete(w.silent, t)
		}
	}
	for t := range w.common {
		if strings.Contains(text, t) {
			w.common[t]--
		}
	}
	if m := injText.FindAllStringSubmatch(text, -1); m != nil {
		for _, x := range m {
			delete(w.unreported, x[1])
		}
		return
	}
	for _, n := range noise {
		if strings.HasPrefix(text, n) {
			return
		}
	}
	w.vague++
}

// writeFault decides whether a writer operation fails.
func (s *SSock) writeFault(where string) error {
	w := s.n.w
	if !s.c.faulty || w.faultsOff || s.c.faultBudget <= 0 || !simrt.FaultStream().Chance(1, 6) {
		return nil
	}
	s.c.faultBudget--
	s.c.wfaults++
	w.wfaults++
	err := fmt.Errorf("injected write failure %d;", w.wfaults)
	w.unreported[strconv.Itoa(w.wfaults)] = true
	w.stat("fault.write." + where)
	simrt.Note("conn %d injected failure of %s", s.c.idx, where)
	if simrt.FaultStream().Chance(1, 4) {
		s.c.end("fatal write failure")
		w.stat("fault.write.fatal")
		s.broken = true
		s.rq.Wake()
		s.wq.Wake()
	}
	return err
}

// GetWriter implements Socket.
func (s *SSock) GetWriter() (io.WriteCloser, error) {
	simrt.Yield()
	s.wMu.Lock()
	if !s.up() {
		s.wMu.Unlock()
		return nil, wwr.ErrDisconnected{Cause: errors.New("can't write to a closed socket")}
	}
	if err := s.writeFault("getwriter"); err != nil {
		s.wMu.Unlock()
		return nil, err
	}
	wr := &swriter{s: s, g: simrt.CurG()}
	s.cur = wr
	return wr, nil
}

type swriter struct {
	s      *SSock
	g      int
	buf    []byte
	bad    bool
	closed bool
}

func (w *swriter) Write(p []byte) (int, error) {
	simrt.Yield()
	s := w.s
	if w.closed {
		s.n.w.viol("conn %d: write to a writer that was already released", []string{"C22"}, s.c.idx)
		return 0, errors.New("writer released")
	}
	if w.bad || !s.up() {
		w.bad = true
		return 0, errors.New("broken connection")
	}
	if err := s.writeFault("write"); err != nil {
		w.bad = true
		return 0, err
	}
	if len(w.buf)+len(p) > int(s.n.w.bufSize) {
		w.buf = w.buf[:0]
		s.c.overflow++
		return 0, wwr.ErrBufferOverflow{}
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *swriter) release() {
	w.s.cur = nil
	w.s.wMu.Unlock()
}

func (w *swriter) Close() error {
	simrt.Yield()
	s := w.s
	if w.closed {
		s.n.w.viol("conn %d: a writer was released twice", []string{"C22"}, s.c.idx)
		return errors.New("writer released twice")
	}
	w.closed = true
	if w.bad {
		w.release()
		if simrt.FaultStream().Chance(1, 2) {
			s.n.w.stat("fault.write.release")
			return errors.New("injected failure releasing a broken writer")
		}
		return nil
	}
	if len(w.buf) == 0 {
		w.release()
		return errors.New("no data written")
	}
	if err := s.writeFault("flush"); err != nil {
		w.release()
		return err
	}
	s.flushing++
	for s.up() && !s.peerGone && (s.stalled || s.inFlight > 6) {
		s.wq.Wait("socket write (slow peer)")
	}
	s.flushing--
	if !s.up() {
		w.release()
		return wwr.ErrDisconnected{Cause: errors.New("connection closed while writing")}
	}
	s.n.w.sent(s.c, w.buf)
	s.push(w.buf)
	if s.n.w.slowFlush && simrt.FaultStream().Chance(1, 3) {
		// The data is on its way, but the call returns late.
		s.n.w.stat("fault.slow write")
		simrt.Sleep(int64(1+simrt.FaultStream().Intn(40)) * ms)
	}
	w.release()
	return nil
}

// push puts a frame on the wire to the client.
func (s *SSock) push(b []byte) {
	if s.peerGone || s.lost {
		return
	}
	s.inFlight++
	s.after(&s.lastOut, s.n.w.delay(), func() {
		s.inFlight--
		s.wq.Wake()
		if !s.c.clientGone && !s.lost {
			s.n.w.received(s.c, b)
		}
	})
}

// after schedules an arrival, keeping the direction's order.
func (s *SSock) after(last *int64, d int64, f func()) {
	at := simrt.Now() + d
	if at < *last {
		at = *last
	}
	*last = at
	simrt.After(at-simrt.Now(), f)
}

// Close implements Socket.
func (s *SSock) Close() error {
	simrt.Yield()
	if s.closed {
		return nil
	}
	s.closed = true
	s.closeSeq = simrt.EvSeq()
	s.closeAt = simrt.Now()
	simrt.Note("conn %d socket closed by the server", s.c.idx)
	s.n.w.onSockClosed(s)
	for i, x := range s.n.socks {
		if x == s {
			s.n.socks = append(s.n.socks[:i:i], s.n.socks[i+1:]...)
			break
		}
	}
	s.rq.Wake()
	s.wq.Wake()
	s.after(&s.lastOut, s.n.w.delay(), func() { s.c.onEOF() })
	if s.c.faulty && simrt.FaultStream().Chance(1, 4) {
		s.n.w.stat("fault.close")
		return errors.New("injected failure closing the socket")
	}
	return nil
}

// send puts a client frame on the wire.
func (s *SSock) send(b []byte, m *Msg) {
	if s.closed || s.lost || s.peerGone {
		return
	}
	s.after(&s.lastIn, s.n.w.delay(), func() {
		if !s.closed && !s.lost && !s.peerGone {
			s.inq = append(s.inq, inItem{b: b, m: m})
			s.rq.Wake()
		}
	})
}

// hangUp ends the client's side. A graceful close arrives after what was sent, a
// cut drops what is in flight with some probability.
func (s *SSock) hangUp(err error) {
	f := func() {
		s.peerGone, s.peerErr = true, err
		s.rq.Wake()
		s.wq.Wake()
	}
	if err != nil && simrt.FaultStream().Chance(1, 2) {
		s.inq = nil
		f()
		return
	}
	s.after(&s.lastIn, s.n.w.delay(), f)
}

func describe(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x.. (%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}
