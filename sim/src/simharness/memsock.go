package simharness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"simrt"
	stime "simshim/time"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// The in-memory transport by itself (C18): socket pairs used directly by
// concurrent readers, writers, closers, dialers and a transport shutdown.

func init() {
	reg(&Scenario{Name: "memsock", Main: func() { runMemsock(msAll) }})
	reg(&Scenario{Name: "memflow", Main: func() { runMemsock(msFlow) }})
	reg(&Scenario{Name: "memredial", Main: func() { runMemsock(msRedial) }})
}

const (
	msAll    = iota
	msFlow   // few closures, much traffic
	msRedial // many closures, deadlines and dials
)

var c18 = []string{"C18"}

type iv struct{ start, end uint64 } // end 0: running

// msMsg is a message somebody tried to write.
type msMsg struct {
	tok    string
	writer int // harness actor
	seq    int // per actor
	sock   *msSock
	name   []byte
	pay    []byte
	iv
	err   error
	reads []*msRead
	junk  bool   // not a message
	got   uint64 // had the writer
	flush uint64 // about to close the writer
}

type msRead struct {
	iv
	sock    *msSock
	err     wwr.ErrSockRead
	m       *msMsg
	hasDL   bool
	dl      int64
	doomed  bool // must not find data: the whole pair is closed
	afterDL int64
}

type msSock struct {
	w     *memW
	pair  *msPair
	side  string
	s     *memchan.Socket
	opp   *msSock
	wr    int // writers currently handed out
	reads []*msRead
	msgs  []*msMsg
}

// msEv is a dial, closure or anything else that changes whether the pair is
// connected.
type msEv struct {
	iv
	dial  bool
	ok    bool
	err   error
	why   string
	maybe bool // may have closed the connection, needn't

	sock *memchan.Socket // the server's, for an established connection
	pair *msPair
}

type msPair struct {
	idx      int
	srv, clt *msSock
	evs      []*msEv
	accepted int
}

type memW struct {
	tr      *memchan.Transport
	pairs   []*msPair
	byTok   map[string]*msMsg
	buf     int
	nextTok int
	running int
	shut    []*iv
	shutSet bool // the "server" refuses connections
	setAt   uint64
	serve   int // Serve calls that have not returned
	refuse  map[int]bool
	dialing map[int]*msEv // by goroutine
	kind    int
	yields  int
	actorsN int
	stop    bool
}

func runMemsock(kind int) {
	w := &memW{byTok: map[string]*msMsg{}, refuse: map[int]bool{}, dialing: map[int]*msEv{}, kind: kind}
	w.buf = []int{16, 64, 200}[wi(3)]
	w.yields = wi(12)
	w.tr = &memchan.Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
		o := wwr.ConnectionOptions{Info: map[int]interface{}{1: "x", 2: w.dialing[simrt.CurG()]}}
		if w.refuse[simrt.CurG()] {
			o.Connection = wwr.Refuse
		}
		return o
	}}
	if err := w.tr.Initialize(wwr.ServerOptions{MessageBufferSize: uint32(w.buf), ReadTimeout: time.Second},
		func() bool { simrt.Yield(); return w.shutSet },
		func(o wwr.ConnectionOptions, s wwr.Socket) {
			e, _ := o.Info[2].(*msEv)
			if e == nil || o.Info[1] != "x" {
				simrt.Fail("check", c18, "the transport announced a connection with the wrong options")
				return
			}
			e.pair.accepted++
			if e.sock != nil {
				simrt.Fail("check", c18, "the transport announced a connection twice")
			}
			e.sock = s.(*memchan.Socket)
			for _, d := range e.pair.evs {
				if d != e && d.sock == e.sock {
					simrt.Fail("check", c18, "the transport announced two connections on one server socket")
				}
			}
		}); err != nil {
		panic(err)
	}
	if pct(70) {
		w.serve++
		simrt.GoNamed("harness: Serve", func() {
			if err := w.tr.Serve(); err != nil && len(w.shut) == 0 {
				simrt.Fail("check", c18, "Serve failed: %v", err)
			}
			w.serve--
			if len(w.shut) == 0 {
				simrt.Fail("check", c18, "Serve returned without a shutdown")
			}
		})
	}
	np := 1
	if pct(25) {
		np = 2
	}
	for i := 0; i < np; i++ {
		p := &msPair{idx: i}
		var a, b *memchan.Socket
		if pct(50) {
			a, b = memchan.NewEntangledSockets(w.tr)
		} else {
			// The socket pair as a client sees it.
			a, b = memchan.NewEntangledSockets(w.tr)
		}
		p.srv = &msSock{w: w, pair: p, side: "server", s: a}
		p.clt = &msSock{w: w, pair: p, side: "client", s: b}
		p.srv.opp, p.clt.opp = p.clt, p.srv
		w.pairs = append(w.pairs, p)
	}
	w.early()
	epochs := 1 + wi(3)
	for e := 0; e < epochs; e++ {
		n := 2 + wi(5)
		for i := 0; i < n; i++ {
			w.running++
			id := w.actorsN
			w.actorsN++
			role := wi(4)
			sock := w.pick()
			simrt.GoNamed(fmt.Sprintf("harness: actor %d", id), func() {
				w.actor(id, role, sock)
				w.running--
			})
		}
		simrt.Settle(10 * 1000 * ms)
		w.rest()
		if pct(50) {
			// Release whoever is left and look again.
			for _, p := range w.pairs {
				w.close([]*msSock{p.srv, p.clt}[wi(2)])
			}
			simrt.Settle(10 * 1000 * ms)
			w.rest()
			w.quiet("a closure")
		}
	}
	w.stop = true
	simrt.Settle(10 * 1000 * ms)
	if pct(50) {
		// Some clients dial just now.
		for i := wi(3); i > 0; i-- {
			w.running++
			p := w.pairs[wi(len(w.pairs))]
			simrt.GoNamed("harness: late dialer", func() {
				for n := 1 + wi(3); n > 0; n-- {
					for i := wi(w.yields + 1); i > 0; i-- {
						simrt.Yield()
					}
					w.dial(p, false)
				}
				w.running--
			})
		}
		for i := wi(w.yields + 1); i > 0; i-- {
			simrt.Yield()
		}
		w.shutdown()
	} else {
		for _, p := range w.pairs {
			w.close([]*msSock{p.srv, p.clt}[wi(2)])
		}
	}
	simrt.Settle(10 * 1000 * ms)
	w.rest()
	w.quiet("the final closure")
	for _, p := range w.pairs {
		for _, s := range []*msSock{p.srv, p.clt} {
			if len(w.shut) == 0 && pct(30) {
				continue
			}
			if _, err := s.s.GetWriter(); err == nil {
				simrt.Fail("check", c18, "a closed %s socket returned a writer", s.side)
			}
		}
	}
	if len(w.shut) == 0 {
		w.shutdown()
		simrt.Settle(10 * 1000 * ms)
	}
	if w.serve != 0 {
		simrt.Fail("liveness", c18, "Serve did not return after the shutdown")
	}
	w.history()
}

func (w *memW) pick() *msSock {
	p := w.pairs[wi(len(w.pairs))]
	if pct(50) {
		return p.srv
	}
	return p.clt
}

// early looks at sockets that were never connected.
func (w *memW) early() {
	if pct(30) {
		p := w.pairs[0]
		for _, s := range []*msSock{p.srv, p.clt} {
			if s.s.IsConnected() {
				simrt.Fail("check", c18, "a fresh %s socket claims to be connected", s.side)
			}
			if err := s.s.Close(); err != nil {
				simrt.Fail("check", c18, "closing a fresh socket failed: %v", err)
			}
		}
		if err := p.srv.s.Dial(time.Time{}); err == nil {
			simrt.Fail("check", c18, "a server socket can dial")
		}
		d, err := (&memchan.ClientTransport{}).NewSocket(time.Second)
		if err != nil {
			simrt.Fail("check", c18, "creating a disconnected socket failed: %v", err)
			return
		}
		if d.Dial(time.Time{}) == nil || d.IsConnected() {
			simrt.Fail("check", c18, "a socket without a server got connected")
		}
		if wr, err := d.GetWriter(); err == nil || wr != nil && !isNilWriter(wr) {
			simrt.Fail("check", c18, "a disconnected socket returned a writer")
		}
		if err := d.Read(message.NewMessage(32), time.Time{}); err == nil || !err.IsCloseErr() {
			simrt.Fail("check", c18, "reading a disconnected socket: %v", err)
		}
		if err := d.Close(); err != nil {
			simrt.Fail("check", c18, "closing a disconnected socket: %v", err)
		}
	}
}

func isNilWriter(w io.WriteCloser) bool { return w == nil }

func (w *memW) pause() {
	switch wi(5) {
	case 0:
		simrt.Sleep(int64(1+wi(20)) * ms)
	case 1, 2:
		for i := wi(w.yields + 1); i > 0; i-- {
			simrt.Yield()
		}
	}
}

func (w *memW) actor(id, role int, home *msSock) {
	n := 1 + wi(6)
	seq := 0
	closeW, dialW := 4, 8
	switch w.kind {
	case msFlow:
		closeW, dialW = 1, 5
		n = 2 + wi(8)
	case msRedial:
		closeW, dialW = 9, 22
	}
	for i := 0; i < n; i++ {
		w.pause()
		if w.stop {
			return
		}
		s := home
		if pct(15) {
			s = w.pick()
		}
		k := wi(100)
		switch {
		case k < closeW:
			w.close(s)
		case k < closeW+dialW:
			w.dial(s.pair, pct(8))
		case k < closeW+dialW+4:
			s.s.IsConnected()
			s.s.RemoteAddr()
		case k < closeW+dialW+5 && w.kind == msAll:
			if pct(50) {
				w.shutdown()
			} else if !w.shutSet {
				w.shutSet = true
				w.setAt = simrt.EvSeq()
			}
		default:
			read := role < 2
			if pct(15) {
				read = !read
			}
			if read {
				w.read(s)
			} else {
				seq++
				w.write(id, seq, s)
			}
		}
	}
}

func (w *memW) close(s *msSock) {
	e := &msEv{iv: iv{start: simrt.EvSeq()}, why: s.side + " Close"}
	s.pair.evs = append(s.pair.evs, e)
	err := s.s.Close()
	e.end = simrt.EvSeq()
	simrt.Note("pair %d closed by the %s: %v", s.pair.idx, s.side, err)
	Stats["reach.close"]++
	if err != nil {
		simrt.Fail("check", c18, "closing the %s socket failed: %v", s.side, err)
	}
}

func (w *memW) dial(p *msPair, refuse bool) {
	e := &msEv{iv: iv{start: simrt.EvSeq()}, dial: true, why: "dial", pair: p}
	p.evs = append(p.evs, e)
	w.dialing[simrt.CurG()] = e
	if refuse {
		w.refuse[simrt.CurG()] = true
	}
	err := p.clt.s.Dial(time.Time{})
	delete(w.refuse, simrt.CurG())
	delete(w.dialing, simrt.CurG())
	e.end, e.ok, e.err = simrt.EvSeq(), err == nil, err
	simrt.Note("pair %d dialed: %v", p.idx, err)
	if err == nil {
		Stats["reach.dialed"]++
		if refuse {
			simrt.Fail("check", c18, "a refused connection was established")
		}
		if w.shutSet && w.setAt < e.start {
			simrt.Fail("check", []string{"C18", "C06"}, "a connection was established although the server is shutting down")
		}
		for _, s := range w.shut {
			if s.end != 0 && s.end < e.start {
				simrt.Fail("check", c18, "a connection was established although the transport is shut down")
				break
			}
		}
		return
	}
	if refuse || w.shutSet || len(w.shut) > 0 {
		return
	}
	// Nothing else explains the refusal but an established connection.
	if p.surelyDown(e) {
		simrt.Fail("check", c18, "dialing a disconnected socket failed: %v", err)
	}
}

// surelyDown: no successful dial can be in effect throughout e.
func (p *msPair) surelyDown(e *msEv) bool {
	for _, d := range p.evs {
		if !d.dial || d == e || d.end != 0 && !d.ok && d.end < e.start {
			continue
		}
		if d.end == 0 || d.end > e.start {
			return false // overlapping dial
		}
		if !d.ok {
			continue
		}
		// d succeeded before e: something must have closed it before e started.
		closed := false
		for _, c := range p.evs {
			if !c.dial && !c.maybe && c.start > d.end && c.end != 0 && c.end < e.start {
				closed = true
			}
		}
		if !closed {
			return false
		}
	}
	return true
}

func (w *memW) shutdown() {
	v := &iv{start: simrt.EvSeq()}
	w.shut = append(w.shut, v)
	var evs []*msEv
	for _, p := range w.pairs {
		e := &msEv{iv: iv{start: v.start}, why: "shutdown"}
		p.evs = append(p.evs, e)
		evs = append(evs, e)
	}
	err := w.tr.Shutdown()
	v.end = simrt.EvSeq()
	for _, e := range evs {
		e.end = v.end
	}
	Stats["reach.shutdown"]++
	simrt.Note("transport shut down: %v", err)
	if err != nil {
		simrt.Fail("check", c18, "Shutdown failed: %v", err)
	}
	for _, p := range w.pairs {
		for _, d := range p.evs {
			if d.dial && d.start < v.end && (d.end == 0 || d.end > v.start) {
				return // a dial overlapped
			}
		}
		if p.srv.s.IsConnected() || p.clt.s.IsConnected() {
			simrt.Fail("check", []string{"C18", "C05"}, "Shutdown returned with pair %d still connected", p.idx)
		}
	}
}

func (w *memW) write(id, seq int, s *msSock) {
	w.nextTok++
	m := &msMsg{tok: fmt.Sprintf("t%d", w.nextTok), writer: id, seq: seq, sock: s}
	m.start = simrt.EvSeq()
	w.byTok[m.tok] = m
	s.msgs = append(s.msgs, m)
	m.name = []byte(m.tok)
	size := 1 + wi(w.buf)
	over := false
	if 2+len(m.name)+size > w.buf {
		if pct(15) {
			over = true
		} else {
			size = w.buf - 2 - len(m.name)
		}
	}
	if size > 0 {
		m.pay = fill(m.tok, size, false)
	}
	if len(m.pay) == 0 {
		m.pay = []byte{7}
	}
	over = 2+len(m.name)+len(m.pay) > w.buf
	wr, err := s.s.GetWriter()
	if err != nil {
		m.err, m.end = err, simrt.EvSeq()
		simrt.Note("pair %d %s got no writer: %v", s.pair.idx, s.side, err)
		if _, ok := err.(wwr.ErrDisconnected); !ok {
			simrt.Fail("check", c18, "GetWriter failed with %T: %v", err, err)
		}
		if s.pair.surelyUp(m.iv) {
			simrt.Fail("check", c18, "no writer could be obtained on an open connection: %v", err)
		}
		return
	}
	m.got = simrt.EvSeq()
	s.wr++
	if s.wr > 1 {
		simrt.Fail("check", []string{"C18", "C22"}, "two writers of one socket were handed out at once")
	}
	switch {
	case pct(5):
		// Nothing at all.
		w.pause()
		s.wr--
		if err := wr.Close(); err == nil {
			simrt.Fail("check", c18, "an empty message was sent")
		}
		m.err, m.end = errors.New("empty"), simrt.EvSeq()
		return
	case pct(6):
		// Something that is no message: the reader fails, the writer must get free.
		m.junk = true
		Stats["fault.junk message"]++
		junk := [][]byte{{0xFF}, {message.MsgSignalBinary}, {message.MsgRequestBinary, 1, 2, 3}, {message.MsgSignalUtf16, 3, 'a', 'b'}, {0}}[wi(5)]
		wr.Write(junk)
		s.wr--
		m.err = wr.Close()
		m.end = simrt.EvSeq()
		return
	case pct(50):
		s.wr--
		m.err = message.WriteMsgSignal(&msWriter{wr, m}, m.name, payload.Binary, m.pay, true)
	default:
		b := append([]byte{message.MsgSignalBinary, byte(len(m.name))}, m.name...)
		b = append(b, m.pay...)
		var we error
		for len(b) > 0 && we == nil {
			k := 1 + wi(len(b))
			if pct(50) {
				w.pause()
			}
			_, we = wr.Write(b[:k])
			b = b[k:]
		}
		if pct(50) {
			w.pause()
		}
		s.wr--
		m.flush = simrt.EvSeq()
		ce := wr.Close()
		if we != nil {
			m.err = we
		} else {
			m.err = ce
		}
	}
	m.end = simrt.EvSeq()
	simrt.Note("pair %d %s wrote %s: %v", s.pair.idx, s.side, m.tok, m.err)
	if over && m.err == nil {
		simrt.Fail("check", c18, "a message larger than the buffer was sent")
	}
	if m.err == nil {
		Stats["reach.written"]++
		for _, e := range s.pair.evs {
			if !e.dial && !e.maybe && e.start > m.got && e.end != 0 && e.end < m.flush {
				simrt.Fail("check", c18, "%s was written by a writer of a connection that was closed before (%s)", m.tok, e.why)
			}
		}
	} else if !over {
		Stats["reach.write failed"]++
		// Only a closure may make it fail.
		if !s.pair.closing(m.iv) {
			simrt.Fail("check", c18, "writing a message of %d bytes (buffer %d) failed on an open connection: %v",
				2+len(m.name)+len(m.pay), w.buf, m.err)
		}
	}
}

// msWriter tells when the writer is released.
type msWriter struct {
	io.WriteCloser
	m *msMsg
}

func (w *msWriter) Close() error {
	if pct(20) {
		w.m.sock.w.pause()
	}
	w.m.flush = simrt.EvSeq()
	return w.WriteCloser.Close()
}

// surelyUp: the pair was connected all through v.
func (p *msPair) surelyUp(v iv) bool {
	for _, d := range p.evs {
		if !d.dial || !d.ok || d.end > v.start {
			continue
		}
		up := true
		for _, e := range p.evs {
			if !e.dial && e.start < v.end && (e.end == 0 || e.end > d.start) {
				up = false
			}
		}
		if up {
			return true
		}
	}
	return false
}

// closing: something that closes a connection overlapped v.
func (p *msPair) closing(v iv) bool {
	for _, e := range p.evs {
		if !e.dial && (e.end == 0 || e.end > v.start) && e.start < v.end {
			return true
		}
	}
	return false
}

func (w *memW) read(s *msSock) {
	r := &msRead{sock: s}
	r.start = simrt.EvSeq()
	s.reads = append(s.reads, r)
	var dl time.Time
	t0 := simrt.Now()
	if pct(35) {
		r.hasDL = true
		d := int64(wi(60)-5) * ms
		r.dl = t0 + d
		dl = stime.Now().Add(time.Duration(d))
		if pct(20) {
			simrt.JumpWall(int64(wi(100_000)-50_000) * ms)
			Stats["fault.wall clock jump"]++
		}
	}
	// A read that times out closes the connection.
	var e *msEv
	if r.hasDL {
		e = &msEv{iv: iv{start: r.start}, why: "read deadline"}
		s.pair.evs = append(s.pair.evs, e)
	}
	msg := message.NewMessage(uint32(w.buf))
	r.err = s.s.Read(msg, dl)
	closeErr := r.err != nil && r.err.IsCloseErr() // may be preempted
	r.end = simrt.EvSeq()
	if e != nil {
		e.end = r.end
		if r.err == nil || closeErr {
			// It closed nothing.
			for i, x := range s.pair.evs {
				if x == e {
					s.pair.evs = append(s.pair.evs[:i:i], s.pair.evs[i+1:]...)
					break
				}
			}
		}
	}
	junk := r.err != nil && !closeErr && s.opp.junkDuring(r.iv)
	if junk {
		Stats["reach.junk read"]++
		if e == nil {
			s.pair.evs = append(s.pair.evs, &msEv{iv: r.iv, why: "junk", maybe: true})
		} else {
			e.maybe = true
		}
	}
	// Printing the error runs code of the transport: nothing above may follow it.
	if r.err != nil {
		simrt.Note("pair %d %s read: %v", s.pair.idx, s.side, r.err)
		if junk {
			return
		}
		if !closeErr {
			Stats["reach.read timed out"]++
			if !r.hasDL {
				simrt.Fail("check", c18, "a read without a deadline failed: %v", r.err)
			} else if simrt.Now() < r.dl {
				simrt.Fail("check", []string{"C18", "C09"}, "a read timed out %s before its deadline", time.Duration(r.dl-simrt.Now()))
			}
		} else {
			Stats["reach.read closed"]++
			if s.pair.surelyUp(r.iv) {
				simrt.Fail("check", c18, "a read reported an open connection closed")
			}
		}
		if r.hasDL && !simrt.Slips() && simrt.Now() > r.dl && simrt.Now() > t0 && len(s.reads) == 1 {
			simrt.Fail("check", []string{"C18", "C09"}, "a read returned %s after its deadline", time.Duration(simrt.Now()-r.dl))
		}
		return
	}
	tok := string(msg.MsgName)
	m := w.byTok[tok]
	simrt.Note("pair %d %s read %s", s.pair.idx, s.side, tok)
	Stats["reach.read"]++
	if m == nil || m.sock != s.opp {
		simrt.Fail("check", c18, "the %s received %q, which the other side never wrote", s.side, tok)
		return
	}
	r.m = m
	m.reads = append(m.reads, r)
	if len(m.reads) > 1 {
		simrt.Fail("check", c18, "message %s was received twice", tok)
	}
	if msg.MsgType != message.MsgSignalBinary || !bytes.Equal(msg.MsgPayload.Data, m.pay) {
		simrt.Fail("check", c18, "message %s was altered: %x instead of %x", tok, msg.MsgPayload.Data, m.pay)
	}
	if m.end != 0 && m.err != nil {
		simrt.Fail("check", c18, "message %s was received after its write had failed with: %v", tok, m.err)
	}
	if pct(30) {
		// What was read must not change once the writer goes on.
		w.pause()
		if string(msg.MsgName) != tok || !bytes.Equal(msg.MsgPayload.Data, m.pay) {
			simrt.Fail("check", c18, "message %s changed after it was received", tok)
		}
	}
}

// junkDuring: the socket may have handed over junk during v.
func (s *msSock) junkDuring(v iv) bool {
	for _, m := range s.msgs {
		if m.junk && m.start < v.end && (m.end == 0 || m.end > v.start) {
			return true
		}
	}
	return false
}

// quiet: after everything was closed nobody may be left waiting.
func (w *memW) quiet(what string) {
	if w.running == 0 {
		return
	}
	for _, p := range w.pairs {
		for _, s := range []*msSock{p.srv, p.clt} {
			for _, r := range s.reads {
				if r.end == 0 && !p.maybeUp(r.start) {
					simrt.Fail("liveness", c18, "a reader of the %s socket is still blocked after %s", s.side, what)
					return
				}
			}
			for _, m := range s.msgs {
				if m.end == 0 && !p.maybeUp(m.start) {
					simrt.Fail("liveness", c18, "a writer of the %s socket is still blocked after %s", s.side, what)
					return
				}
			}
		}
	}
}

// state tells whether the pair is connected now, at rest: 1 yes, 0 no, -1
// unknown.
func (p *msPair) state() int {
	st := 0
	for _, d := range p.evs {
		if !d.dial || !d.ok {
			continue
		}
		closed, clear := false, true
		for _, e := range p.evs {
			if e.dial || e.end == 0 && e.why == "read deadline" {
				continue
			}
			if e.end == 0 || e.maybe && e.end > d.start {
				clear = false
			} else if e.start > d.end {
				closed = true
			} else if e.end > d.start {
				clear = false
			}
		}
		if closed {
			continue
		}
		if clear {
			return 1
		}
		st = -1
	}
	return st
}

func (p *msPair) maybeUp(uint64) bool { return p.state() != 0 }

// rest checks the quiescent state.
func (w *memW) rest() {
	for _, v := range w.shut {
		if v.end == 0 {
			simrt.Fail("liveness", []string{"C18", "C05"}, "Shutdown never returned: %s", strings.Join(simrt.Blocked(), "; "))
		}
	}
	for _, p := range w.pairs {
		for _, e := range p.evs {
			if e.end == 0 && e.why != "read deadline" {
				simrt.Fail("liveness", c18, "%s never returned: %s", e.why, strings.Join(simrt.Blocked(), "; "))
				return
			}
		}
		a, b := p.srv.s.IsConnected(), p.clt.s.IsConnected()
		if a != b {
			simrt.Fail("check", c18, "the server socket reports connected %v, the client socket %v", a, b)
		}
		for _, v := range w.shut {
			if a && v.end != 0 {
				simrt.Fail("check", []string{"C18", "C05"}, "pair %d is connected although the transport was shut down", p.idx)
				break
			}
		}
		st := p.state()
		if st == 1 && !a {
			simrt.Fail("check", c18, "pair %d is disconnected although nothing closed it", p.idx)
		} else if st == 0 && a {
			simrt.Fail("check", c18, "pair %d is connected although it was closed", p.idx)
		}
		oks := 0
		for _, e := range p.evs {
			if e.dial && e.ok {
				oks++
			}
		}
		if oks != p.accepted {
			simrt.Fail("check", c18, "pair %d was dialed successfully %d times, the server was told of %d connections", p.idx, oks, p.accepted)
		}
		w.stale(p)
		for _, s := range []*msSock{p.srv, p.clt} {
			pr, pw := 0, 0
			for _, r := range s.reads {
				if r.end == 0 {
					pr++
					if r.hasDL && r.dl <= simrt.Now() {
						blockedBehind := false
						for _, o := range s.reads {
							if o != r && o.end == 0 && !o.hasDL {
								blockedBehind = true // reads are serialised
							}
						}
						if !blockedBehind {
							simrt.Fail("liveness", []string{"C18", "C09"}, "a read of the %s socket is still blocked after its deadline", s.side)
						}
					}
				}
			}
			for _, m := range s.opp.msgs {
				if m.end == 0 {
					pw++
				}
			}
			if pr > 0 && pw > 0 {
				simrt.Fail("liveness", c18, "a reader of the %s socket and a writer of the other side wait for each other", s.side)
			}
			if !a && (pr > 0 || pw > 0) {
				simrt.Fail("liveness", c18, "the pair is disconnected, but a reader or writer is still blocked: %s", strings.Join(simrt.Blocked(), "; "))
			}
		}
	}
}

// stale looks at the sockets the server was given for the pair's connections: a
// socket serves its own connection and no later one.
func (w *memW) stale(p *msPair) {
	for _, d := range p.evs {
		if !d.dial || !d.ok || d.sock == nil {
			continue
		}
		old, last := false, true
		for _, e := range p.evs {
			if e != d && e.dial && e.ok {
				old = old || e.start > d.end
				last = last && e.end < d.start
			}
		}
		up := p.clt.s.IsConnected()
		switch {
		case last:
			if d.sock.IsConnected() != up {
				simrt.Fail("check", c18, "the server's socket reports connected %v, the client's %v", !up, up)
			}
		case old:
			Stats["reach.stale server socket"]++
			if d.sock.IsConnected() {
				simrt.Fail("check", c18, "the server's socket of an earlier connection reports to be connected again")
				continue
			}
			if _, err := d.sock.GetWriter(); err == nil {
				simrt.Fail("check", c18, "the server's socket of an earlier connection returned a writer")
				continue
			}
			if err := d.sock.Read(message.NewMessage(uint32(w.buf)), time.Time{}); err == nil || !err.IsCloseErr() {
				simrt.Fail("check", c18, "reading the server's socket of an earlier connection: %v", err)
			}
			if err := d.sock.Close(); err != nil {
				simrt.Fail("check", c18, "closing the server's socket of an earlier connection failed: %v", err)
			}
			if p.clt.s.IsConnected() != up {
				simrt.Fail("check", c18, "closing the server's socket of an earlier connection closed the current one")
			}
		}
	}
}

// history checks the whole record.
func (w *memW) history() {
	for _, p := range w.pairs {
		// Two connections can't be open at once.
		for i, d := range p.evs {
			if !d.dial || !d.ok {
				continue
			}
			for _, e := range p.evs[i+1:] {
				if !e.dial || !e.ok {
					continue
				}
				a, b := d, e
				if b.end < a.end {
					a, b = b, a
				}
				ok := a.end > b.start // overlapping dials took effect in any order
				for _, c := range p.evs {
					if !c.dial && c.start < b.end && (c.end == 0 || c.end > a.start) {
						ok = true
					}
				}
				if !ok {
					simrt.Fail("check", c18, "the pair was dialed twice without a closure in between")
				}
			}
		}
		for _, s := range []*msSock{p.srv, p.clt} {
			for _, m := range s.msgs {
				if m.end != 0 && m.err == nil && !m.junk && len(m.reads) == 0 {
					simrt.Fail("check", c18, "message %s was written successfully but never received", m.tok)
				}
				if m.end != 0 && m.err == nil && !p.wasUp(m.iv) {
					simrt.Fail("check", c18, "message %s was written on a disconnected pair", m.tok)
				}
			}
			// Per writer order.
			for i, m := range s.msgs {
				for _, n := range s.msgs[i+1:] {
					if m.writer == n.writer && len(m.reads) == 1 && len(n.reads) == 1 && m.err == nil && n.err == nil &&
						m.seq < n.seq && m.reads[0].start > n.reads[0].end {
						simrt.Fail("check", c18, "messages %s and %s of one writer were received in reverse order", m.tok, n.tok)
					}
				}
			}
		}
	}
}

// wasUp: a successful dial began before v ended, and not every moment of v lay
// behind a closure.
func (p *msPair) wasUp(v iv) bool {
	for _, d := range p.evs {
		if !d.dial || !d.ok || d.start > v.end {
			continue
		}
		down := false
		for _, c := range p.evs {
			if !c.dial && !c.maybe && c.start > d.end && c.end != 0 && c.end < v.start {
				down = true
			}
		}
		if !down {
			return true
		}
	}
	return false
}
