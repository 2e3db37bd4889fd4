package simharness

import (
	"bytes"
	"fmt"
	"simrt"
	"sort"
	"strings"

	wwr "github.com/qbeon/webwire-go"
)

func frameName(f frame) string {
	switch f.Type {
	case tErr:
		return fmt.Sprintf("error reply %q %q", f.Code, f.Payload)
	case tShutdown:
		return "shutdown error"
	case tInternal:
		return "internal error"
	case tNotFound:
		return "session-not-found error"
	case tMaxConns:
		return "connection-limit error"
	case tDisabled:
		return "sessions-disabled error"
	case tReply:
		return fmt.Sprintf("reply (encoding %d) %q", f.Enc, f.Payload)
	}
	return fmt.Sprintf("frame of type %d", f.Type)
}

// sent sees every frame the server hands to a simulated socket.
func (w *World) sent(c *Conn, b []byte) {
	seq := simrt.EvSeq()
	simrt.Note("conn %d server sends %s", c.idx, describe(b))
	if len(b) > w.bufSize {
		w.viol("conn %d: the server sent %d bytes, the message buffer has %d", []string{"C22"}, c.idx, len(b), w.bufSize)
	}
	f, err := decode(b)
	if err != nil {
		w.viol("conn %d: the server sent a broken frame %s: %v", []string{"C22", "C01", "C03"}, c.idx, describe(b), err)
		return
	}
	if f.Type == tConf {
		c.confAt = seq
	}
	if f.HasID {
		if m := c.byID[f.ID]; m != nil {
			m.txN++
			m.txSeq = seq
			if m.kind == tRestore && f.Type == tReply {
				w.restored(c, m)
			}
		}
	}
}

// restored runs the online limit check when a successful restore is sent.
func (w *World) restored(c *Conn, m *Msg) {
	c.restOK[m.key] = true
	if w.maxConns == 0 {
		return
	}
	n := 0
	var who []string
	for _, o := range w.conns {
		if o.leaving && !(o == c && !o.explicit && len(o.ends) == 0) || w.ep.srvClose[m.key] {
			continue
		}
		if o == c || o.heldAtRest == m.key || o.restOK[m.key] {
			n++
			who = append(who, fmt.Sprint(o.idx))
		}
	}
	if n > w.maxConns {
		w.viol("session %s is held by connections %s, the limit is %d", []string{"C11"}, m.key, strings.Join(who, ","), w.maxConns)
	}
}

// received sees every frame a client gets.
func (w *World) received(c *Conn, b []byte) {
	c.rxN++
	simrt.Note("conn %d client receives %s", c.idx, describe(b))
	if c.mem != nil {
		w.sent(c, b)
	}
	f, err := decode(b)
	if err != nil {
		return // reported when it was sent
	}
	w.libParse(c, b, f)
	if c.rxN == 1 != (f.Type == tConf) {
		w.viol("conn %d: frame %d is of type %d; the configuration must come first and once", []string{"C08"}, c.idx, c.rxN, f.Type)
	}
	switch {
	case f.Type == tConf:
		want := confMsg{2, 0, uint32(w.timeout.Milliseconds()), uint32(w.bufSize), w.sub}
		if f.Conf != want {
			w.viol("conn %d: configuration is %+v, want %+v", []string{"C08"}, c.idx, f.Conf, want)
		}
	case f.HasID:
		m := c.byID[f.ID]
		if m == nil && c.has("fuzz") {
			return
		}
		if m == nil {
			w.viol("conn %d: %s with an identifier that is not outstanding: %x", []string{"C01", "C02", "C22"}, c.idx, frameName(f), f.ID)
			return
		}
		m.replies = append(m.replies, f)
		m.replySeq = simrt.EvSeq()
		if len(m.replies) > 1 {
			w.viol("conn %d: %d replies to %s: %s, %s", []string{"C01", "C06", "C22"}, c.idx, len(m.replies), m.tok,
				frameName(m.replies[0]), frameName(f))
			return
		}
		w.checkReply(c, m, f)
	case f.Type == tSignal:
		w.checkSignal(c, f)
	case f.Type == tSessCreated:
		s, _ := decSession(f.Payload)
		c.view = s
		if r := w.keyOf[s.Key]; r == nil || r.on != c {
			w.viol("conn %d was told about session %s, which was not created on it", []string{"C13", "C02"}, c.idx, s.Key)
		}
		w.informed(c, s.Key)
	case f.Type == tSessClosed:
		c.view = nil
	}
}

func (w *World) checkSignal(c *Conn, f frame) {
	tok := token(f.Name, f.Payload)
	var s *SigCall
	for _, s = range w.sigs[tok] { // the first call it can come from
		if s.got == 0 && !(s.done && s.err != nil) {
			break
		}
	}
	if s == nil || s.c != c {
		w.viol("conn %d received a signal nobody sent to it: name %q payload %q", []string{"C03", "C02", "C22"}, c.idx, f.Name, f.Payload)
		return
	}
	s.got++
	if s.got > 1 {
		w.viol("conn %d received signal %s %d times", []string{"C03", "C18"}, c.idx, tok, s.got)
	}
	if f.Enc != s.enc || !bytes.Equal(f.Name, s.name) || !bytes.Equal(f.Payload, s.pay) {
		w.viol("conn %d: signal %s arrived as name %q payload %q encoding %d, sent was %q %q %d", []string{"C03", "C02", "C22"},
			c.idx, tok, f.Name, f.Payload, f.Enc, s.name, s.pay, s.enc)
	}
	if s.done && s.err != nil {
		w.viol("conn %d received signal %s although Signal had failed: %v", []string{"C03", "C18"}, c.idx, tok, s.err)
	}
	if last := c.sigOrder[s.caller]; last > s.num {
		w.viol("conn %d: signals of one caller arrived out of order (%s)", []string{"C03", "C18"}, c.idx, tok)
	}
	c.sigOrder[s.caller] = s.num
}

func (w *World) checkReply(c *Conn, m *Msg, f frame) {
	refusable := w.shutBegun || len(c.ends) > 0
	if f.Type == tShutdown {
		if !refusable {
			w.viol("conn %d: %s refused with the shutdown error although nothing is shutting down", []string{"C01", "C06", "C04"}, c.idx, m.tok)
		}
		if m.startN > 0 {
			w.viol("conn %d: %s was handled and then refused", []string{"C01", "C06", "C05"}, c.idx, m.tok)
		}
		return
	}
	switch m.kind {
	case tRequest:
		if f.Type == tInternal && m.startN == 0 && refusable {
			return
		}
		if m.startN == 0 {
			w.viol("conn %d: %s got %s without having been handled", []string{"C01"}, c.idx, m.tok, frameName(f))
			return
		}
		if m.endN == 0 {
			w.viol("conn %d: %s was answered before its handler returned", []string{"C01"}, c.idx, m.tok)
		}
		o := m.out
		ok := false
		want := ""
		switch {
		case o.bad || o.kind == "other":
			ok = f.Type == tInternal
			want = "internal error"
		case o.kind == "payload":
			ok = f.Type == tReply && f.Enc == o.enc && bytes.Equal(f.Payload, o.data)
			want = fmt.Sprintf("reply (encoding %d) %q", o.enc, o.data)
		default:
			ok = f.Type == tErr && f.Code == o.code && string(f.Payload) == o.msg
			want = fmt.Sprintf("error reply %q %q", o.code, o.msg)
		}
		if !ok && f.Type == tInternal && c.wfaults > 0 {
			return // the first attempt was hit by an injected failure
		}
		if !ok {
			w.viol("conn %d: %s got %s, want %s", []string{"C01", "C02", "C22"}, c.idx, m.tok, frameName(f), want)
		}
	case tRestore:
		w.checkRestore(c, m, f)
	case tCloseSession:
		switch {
		case !w.sessOn:
			if f.Type != tDisabled {
				w.viol("conn %d: closing a session with sessions disabled got %s", []string{"C13"}, c.idx, frameName(f))
			}
		case f.Type == tReply && len(f.Payload) == 0:
			if c.view != nil {
				w.closedByClient(c, c.view.Key)
			}
			c.view = nil
		case f.Type == tInternal && refusable:
		default:
			w.viol("conn %d: closing the session got %s", []string{"C13", "C01"}, c.idx, frameName(f))
		}
	}
}

// closedByClient: c closed session key and was told so. If no other connection
// can be part of it then the session is gone from now on.
func (w *World) closedByClient(c *Conn, key string) {
	for _, o := range w.conns {
		if o != c && o.pot[key] > 0 {
			return
		}
	}
	if r := w.keyOf[key]; r != nil {
		r.ackDead = true
		w.stat("reach.last connection closed the session")
		w.react(c, key)
		simrt.After(0, func() {
			simrt.Spawn("harness: informed", func() {
				n, l := w.srv.SessionConnectionsNum(key), len(w.srv.SessionConnections(key))
				if (n >= 0 || l > 0) && !r.hookFail {
					w.viol("session %s has %d/%d connections after its last connection had closed it", []string{"C10", "C12"}, key, n, l)
				}
			}, w.vc0)
		})
	}
}

// informed: c learned that it has a session now. The server has to know it, too,
// as long as nothing happens that may end it.
func (w *World) informed(c *Conn, key string) {
	r := w.keyOf[key]
	steady := func() bool {
		return r != nil && r.explicit == 0 && !w.ep.srvClose[key] && len(c.pot) == 1 && c.pot[key] > 0 &&
			c.healthy() && !c.leaving && !w.shutBegun && c.open()
	}
	if !steady() || !simrt.FaultStream().Chance(1, 3) {
		return
	}
	simrt.After(0, func() {
		simrt.Spawn("harness: informed", func() {
			con := c.use()
			if con == nil {
				return
			}
			got, n, has := con.SessionKey(), w.srv.SessionConnectionsNum(key), false
			for _, x := range w.srv.SessionConnections(key) {
				has = has || x == con
			}
			if !steady() {
				return
			}
			w.stat("check.informed")
			if got != key || n < 1 || !has {
				w.viol("conn %d was told that it is part of session %s, but the server says %q with %d connections (it is one: %v)",
					[]string{"C10", "C13"}, c.idx, key, got, n, has)
			}
		}, w.vc0)
	})
}

// react lets another client try to restore the session c just got news about.
func (w *World) react(c *Conn, key string) {
	if !simrt.FaultStream().Chance(1, 2) {
		return
	}
	var others []*Conn
	for _, o := range w.conns {
		if o.accepted && !o.clientGone && (o != c || simrt.FaultStream().Chance(1, 2)) {
			others = append(others, o)
		}
	}
	if len(others) > 0 {
		o := others[simrt.FaultStream().Intn(len(others))]
		simrt.After(0, func() {
			simrt.Spawn("harness: reaction", func() { w.client(&op{kind: "restore", tok: key}, o) }, w.vc0)
		})
		w.stat("reach.reaction")
	}
}

func (w *World) checkRestore(c *Conn, m *Msg, f frame) {
	r := w.keyOf[m.key]
	refusable := w.shutBegun || len(c.ends) > 0
	switch f.Type {
	case tReply:
		s, err := decSession(f.Payload)
		if !w.sessOn || err != nil || s.Key != m.key || f.Enc != encUtf8 || r == nil {
			w.viol("conn %d: restoring %s got %s", []string{"C13", "C11"}, c.idx, m.key, frameName(f))
			return
		}
		c.view = s
		w.informed(c, m.key)
		if m.ackDead && !r.hookFail {
			w.viol("conn %d: session %s was restored after its last connection had closed it", []string{"C12"}, c.idx, m.key)
		}
		if m.keyDead {
			w.viol("conn %d: session %s was restored after it had been destroyed", []string{"C12"}, c.idx, m.key)
		}
		if !s.Creation.Equal(r.creation) && !r.creation.IsZero() {
			w.viol("conn %d: session %s restored with creation time %s, it was created at %s", []string{"C13"}, c.idx, m.key, s.Creation, r.creation)
		}
		if r.created && s.Info != r.info {
			w.viol("conn %d: session %s restored with info %s, it was created with %s", []string{"C13"}, c.idx, m.key, s.Info, r.info)
		}
	case tNotFound:
		if r != nil && r.stored > 0 && r.stored < m.sendSeq && r.explicit == 0 && w.sessOn {
			w.viol("conn %d: stored session %s, which nobody closed, was not found", []string{"C12", "C10"}, c.idx, m.key)
		}
		if !w.sessOn {
			w.viol("conn %d: restoring with sessions disabled got %s", []string{"C13"}, c.idx, frameName(f))
		}
	case tMaxConns:
		n := 0
		for _, o := range w.conns {
			h := o.pot[m.key]
			if o == c {
				h--
			}
			if h > 0 {
				n++
			}
		}
		if w.maxConns == 0 || n < w.maxConns {
			w.viol("conn %d: restoring %s was refused for the limit of %d while at most %d connections can hold it",
				[]string{"C11", "C10"}, c.idx, m.key, w.maxConns, n)
		}
	case tInternal:
		if !(r != nil && (r.smFault || len(r.info)+140 > w.bufSize) || c.wfaults > 0 || refusable || w.st.faults) {
			w.viol("conn %d: restoring %s got an internal error", []string{"C11", "C13", "C17"}, c.idx, m.key)
		}
	case tDisabled:
		if w.sessOn {
			w.viol("conn %d: restoring %s: sessions are not disabled", []string{"C13"}, c.idx, m.key)
		}
	default:
		w.viol("conn %d: restoring %s got %s", []string{"C13", "C01"}, c.idx, m.key, frameName(f))
	}
}

func (w *World) onSockClosed(s *SSock) {
	c := s.c
	if c.running > 0 && s.readErr == nil {
		p := []string{"C07"}
		if w.shutBegun {
			p = append(p, "C05")
		}
		w.viol("conn %d: the socket was closed while %d handlers are running", p, c.idx, c.running)
	}
	if s.cur != nil && s.flushing == 0 && s.readErr == nil && !s.byShutdown && c.healthyButClosing() {
		// A reply or signal is just being written; losing it is judged by the
		// replies that arrive.
		w.stat("reach.close while writing")
	}
}

func (c *Conn) healthyButClosing() bool { return !c.clientGone }

func (c *Conn) onlyServerEnds() bool {
	for _, e := range c.ends {
		if e != "server close" && e != "shutdown" {
			return false
		}
	}
	return !c.clientGone && !c.garbage
}

func (c *Conn) has(reason string) bool {
	for _, e := range c.ends {
		if e == reason {
			return true
		}
	}
	return false
}

func (c *Conn) capacity() int {
	switch {
	case c.limit < 0:
		return 1 << 30
	case c.limit < 2:
		return 1
	}
	return c.limit
}

// stopped tells whether m was sent when its server or connection had surely
// begun to stop.
func (w *World) stopped(c *Conn, m *Msg) bool {
	return w.shutSure > 0 && m.sendSeq > w.shutSure || c.closeSeq > 0 && m.sendSeq > c.closeSeq
}

// midCheck looks at the server at rest while gated handlers are waiting.
func (w *World) midCheck(late bool) {
	w.stat("reach.gated rest")
	for _, c := range w.conns {
		if !c.accepted || !c.open() || !c.onlyServerEnds() || c.faulty {
			continue
		}
		stopped := w.shutBegun || c.closeCalled
		if c.con != nil && !c.viewOff && c.wfaults == 0 {
			if w.viewCheck(c); stopped {
				w.stat("reach.session compared on a draining connection")
			}
		}
		if !stopped {
			un := 0
			for _, m := range c.msgs {
				if (m.kind == tSignal || m.kind == tRequest) && m.endN == 0 {
					un++
				}
			}
			want := un
			if want > c.capacity() {
				want = c.capacity()
			}
			if c.running < want {
				w.viol("conn %d: only %d of %d waiting handlers run with a concurrency limit of %d (server at rest)\n%s",
					[]string{"C04", "C01", "C03", "C17"}, c.idx, c.running, un, c.limit, simrt.Stuck())
			}
			if c.running > 1 && c.running == c.capacity() {
				w.stat("reach.slots exhausted")
			}
			continue
		}
		if late && c.closeCalled && c.running == 0 && !w.shutBegun {
			w.viol("conn %d: Close returned, no handler runs, but the socket is still open (server at rest)", []string{"C07"}, c.idx)
		}
		if !late || c.running >= c.capacity() {
			continue
		}
		for _, m := range c.msgs {
			if !w.stopped(c, m) || c.mem == nil && m.readSeq == 0 || m.startN > 0 {
				continue
			}
			if m.kind == tSignal {
				continue
			}
			p := []string{"C06"}
			if w.shutSure == 0 || m.sendSeq < w.shutSure {
				p = []string{"C07"}
			}
			w.stat("reach.late request")
			if len(m.replies) == 0 {
				w.viol("conn %d: %s arrived while draining and was not refused (server at rest)", p, c.idx, m.tok)
			} else if f := m.replies[0]; f.Type != tShutdown && !(f.Type == tInternal && !w.shutBegun) {
				w.viol("conn %d: %s arrived while draining and got %s", p, c.idx, m.tok, frameName(f))
			}
		}
		// A message the reader is free to take must have been taken.
		for _, m := range c.msgs {
			if c.mem == nil && w.stopped(c, m) && m.readSeq == 0 && (c.limit < 0 || c.limit > 1) {
				w.viol("conn %d: %s arrived while draining and is never read (server at rest)", []string{"C06", "C07", "C04"}, c.idx, m.tok)
				break
			}
		}
	}
	w.registryCheck()
}

// registryCheck compares the session registry with the connections at rest.
func (w *World) registryCheck() {
	for _, key := range w.keys {
		if r := w.keyOf[key]; r.must != "" && r.destroyed == 0 {
			w.viol("session %s was never destroyed: %s", []string{"C12"}, key, r.must)
		}
	}
	want := map[string][]wwr.Connection{}
	for _, c := range w.conns {
		if c.con == nil {
			continue
		}
		con := c.use()
		key := con.SessionKey()
		s := con.Session()
		if (s == nil) != (key == "") || s != nil && s.Key != key || con.HasSession() != (s != nil) {
			w.viol("conn %d: SessionKey %q, Session %v and HasSession disagree", []string{"C10", "C13"}, c.idx, key, s)
		}
		if s != nil && !con.SessionCreation().Equal(s.Creation) {
			w.viol("conn %d: SessionCreation disagrees with Session", []string{"C10", "C13"}, c.idx)
		}
		if !c.open() && c.running == 0 {
			// (a closed connection keeps its session until its last handler
			// has returned)
			if key != "" {
				w.viol("conn %d is closed but still has session %s", []string{"C07", "C10"}, c.idx, key)
			}
			continue
		}
		if key != "" {
			want[key] = append(want[key], con)
		}
	}
	for _, key := range w.keys {
		cons := want[key]
		n := w.srv.SessionConnectionsNum(key)
		got := w.srv.SessionConnections(key)
		exp := len(cons)
		if exp == 0 {
			exp = -1
		}
		tags := []string{"C10", "C11"}
		for _, x := range got {
			if x != nil && !x.IsActive() {
				tags = []string{"C10", "C11", "C07"}
			}
		}
		if n != exp && !(exp == -1 && n < 0) {
			w.viol("SessionConnectionsNum(%s) is %d, the session has %d open connections %s", tags, key, n, len(cons), ids(cons))
		}
		if !sameSet(got, cons) {
			w.viol("SessionConnections(%s) lists %s, the open connections with it are %s", tags, key, ids(got), ids(cons))
		}
		if w.maxConns > 0 && len(cons) > w.maxConns {
			w.viol("session %s has %d open connections, the limit is %d", []string{"C11"}, key, len(cons), w.maxConns)
		}
	}
	if n := w.srv.ActiveSessionsNum(); n != len(want) {
		w.viol("ActiveSessionsNum is %d, %d sessions are in use", []string{"C10"}, n, len(want))
	}
	if n := w.srv.SessionConnectionsNum("nosuch"); n >= 0 {
		w.viol("an unknown session has %d connections", []string{"C10"}, n)
	}
	if x := w.srv.SessionConnections("nosuch"); len(x) != 0 {
		w.viol("an unknown session lists connections", []string{"C10"})
	}
}

func ids(cons []wwr.Connection) string {
	var out []string
	for _, x := range cons {
		if x == nil {
			simrt.Fail("oracle", []string{"C10", "C33"}, "a list of a session's connections contains nil")
		}
		if c, _ := x.Info(1).(*Conn); c != nil {
			out = append(out, fmt.Sprint(c.idx))
		} else {
			out = append(out, "?")
		}
	}
	sort.Strings(out)
	return "[" + strings.Join(out, " ") + "]"
}

func sameSet(a, b []wwr.Connection) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range a {
			if x == y {
				n++
			}
		}
		in := false
		for _, y := range b {
			in = in || x == y
		}
		if n != 1 || !in {
			return false
		}
	}
	return true
}

// fullCheck looks at the server at rest with no handler waiting.
func (w *World) fullCheck() {
	w.checkKept()
	for _, c := range w.conns {
		if c.mem != nil && !c.dialDone {
			w.viol("conn %d: dialing never returned (server at rest)\n%s", []string{"C18", "C08", "C17"}, c.idx, simrt.Stuck())
			break
		}
	}
	if w.running > 0 {
		w.viol("%d handlers never returned (server at rest)\n%s", []string{"C01", "C03", "C04", "C17", "C22"}, w.running, simrt.Stuck())
	}
	if w.shutReturns < w.shutCalls {
		w.viol("%d of %d Shutdown calls have not returned although no handler runs (server at rest)\n%s", []string{"C05", "C06"},
			w.shutCalls-w.shutReturns, w.shutCalls, simrt.Stuck())
	}
	if w.shutReturns > 0 && !w.runReturned {
		w.viol("Run has not returned after Shutdown (server at rest)", []string{"C05"})
	}
	if w.runReturned && w.runErr != nil {
		w.viol("Run failed: %v", []string{"C05"}, w.runErr)
	}
	if w.runReturned && w.shutReturns == 0 {
		w.viol("Run returned although nobody shut the server down", []string{"C05", "C17"})
	}
	lost := 0
	for _, c := range w.conns {
		if c.accepted {
			lost += w.connCheck(c)
			if c.con != nil {
				w.about(c, c.use(), "at rest")
				w.active(c, c.con)
			}
		}
		if !c.accepted && c.dialDone && (c.connectedN > 0 || c.disconnectedN > 0) {
			w.viol("conn %d was refused but its hooks ran", []string{"C08", "C06"}, c.idx)
		}
	}
	var calls []*SigCall
	for _, l := range w.sigs {
		calls = append(calls, l...)
	}
	for _, s := range calls {
		c := s.c
		if !s.done {
			w.viol("conn %d: Signal %s never returned (server at rest)\n%s", []string{"C03", "C22", "C07", "C17"}, c.idx, s.tok, simrt.Stuck())
			continue
		}
		if s.err != nil && s.got > 0 {
			w.viol("conn %d: Signal %s failed (%v) but was delivered", []string{"C03"}, c.idx, s.tok, s.err)
		}
		if s.owed && s.got == 0 && c.healthy() && c.open() {
			w.viol("conn %d: Signal %s succeeded but was never delivered", []string{"C03", "C18", "C22"}, c.idx, s.tok)
		}
	}
	// Every injected write failure must have been reported somewhere.
	if n := len(w.unreported); n > w.vague {
		w.viol("%d write failures were injected, %d were neither reported to a caller nor logged", []string{"C22"}, w.wfaults, n)
	}
	if len(w.silent) > 0 {
		var l []string
		for t := range w.silent {
			l = append(l, t)
		}
		sort.Strings(l)
		w.viol("the application failed with %q, which was never logged", []string{"C36"}, l[0])
	}
	var l []string
	for t, n := range w.common {
		if n > 0 {
			l = append(l, t)
		}
	}
	if sort.Strings(l); len(l) > 0 {
		w.viol("request handlers failed with %q, which was logged less often", []string{"C36"}, l[0])
	}
	w.registryCheck()
	w.sessionCheck()
}

// connCheck judges one connection at rest.
func (w *World) connCheck(c *Conn) int {
	open := c.open()
	stuck := func() string { return simrt.Stuck() }
	mustEnd := c.clientGone || c.closeCalled || w.shutReturns > 0 || c.has("fatal write failure") ||
		c.mustClose || c.ss != nil && c.ss.readErr != nil
	if c.ss != nil && c.ss.lost && !c.clientGone && !w.shutBegun && !c.closeCalled {
		mustEnd = false
	}
	confLost := c.ss != nil && c.confAt == 0
	if open && mustEnd {
		p := []string{"C08", "C07", "C05", "C17"}
		if c.con != nil && c.use().SessionKey() != "" {
			p = append(p, "C10")
		}
		w.viol("conn %d should have been closed (%v) but is open (server at rest)\n%s", p, c.idx, c.ends, stuck())
	}
	if !open && c.healthy() && !w.shutBegun && !(confLost && c.wfaults > 0) {
		w.viol("conn %d was closed by the server for no reason", []string{"C17", "C01", "C03", "C07", "C09", "C22", "C04", "C18"}, c.idx)
	}
	if !open {
		if c.connectedN != c.disconnectedN {
			w.viol("conn %d is closed: connected hook ran %d times, disconnected hook %d times (server at rest)\n%s",
				[]string{"C08", "C17"}, c.idx, c.connectedN, c.disconnectedN, stuck())
		}
		if c.connectedN == 0 && !(confLost && (c.wfaults > 0 || len(c.ends) > 0)) && !(c.mem != nil && len(c.ends) > 0) {
			w.viol("conn %d was established but its connected hook never ran", []string{"C08"}, c.idx)
		}
		if c.con != nil && c.con.IsActive() {
			w.viol("conn %d is closed but still active", []string{"C07"}, c.idx)
		}
	} else {
		if c.connectedN != 1 || !c.connectedDone {
			w.viol("conn %d is open but its connected hook ran %d times\n%s", []string{"C08"}, c.idx, c.connectedN, stuck())
		}
		if c.disconnectedN != 0 && c.healthy() {
			w.viol("conn %d is open but its disconnected hook ran", []string{"C08"}, c.idx)
		}
		if c.healthy() && !c.use().IsActive() && !w.shutBegun {
			w.viol("conn %d is open but not active", []string{"C07", "C10"}, c.idx)
		}
		if c.ss != nil && c.healthy() && !c.confSeenOK() {
			w.viol("conn %d is open but never got the configuration message", []string{"C08"}, c.idx)
		}
	}
	if c.ss != nil && c.ss.cur != nil {
		w.viol("conn %d: a writer was never released (server at rest)\n%s", []string{"C22", "C01", "C03"}, c.idx, stuck())
	}
	missing := 0
	full := open && c.healthy() && !w.shutBegun
	served := !open && c.onlyServerEnds() && !c.faulty // closed by the server alone
	for _, m := range c.msgs {
		app := m.kind == tSignal || m.kind == tRequest
		if app && m.endN < m.startN {
			continue
		}
		if full && m.sendErr != nil {
			w.viol("conn %d: sending %s on a healthy connection failed: %v", []string{"C18", "C01", "C03"}, c.idx, m.tok, m.sendErr)
			continue
		}
		if full && app && m.startN != 1 {
			w.viol("conn %d: %s was never handled (limit %d, server at rest)\n%s", []string{"C01", "C03", "C04", "C17", "C22"}, c.idx, m.tok, c.limit, stuck())
			continue
		}
		if m.kind == tSignal {
			continue
		}
		if len(m.replies) == 0 && (full || served && m.startN > 0) {
			missing++
			if missing > c.wfaults || m.probe {
				p := []string{"C01", "C22", "C17", "C04"}
				if served {
					p = append(p, "C07", "C05")
				}
				w.viol("conn %d: %s was never answered (handled %d times, server at rest)\n%s", p, c.idx, m.tok, m.startN, stuck())
			}
		}
	}
	return missing
}

func (c *Conn) confSeenOK() bool { return c.rxN > 0 }

// viewCheck compares the session a client knows of with the server's.
func (w *World) viewCheck(c *Conn) {
	con := c.use()
	x := con.Session()
	var sv *sess
	if x != nil {
		sv = &sess{x.Key, x.Creation, canon(infoMap(x.Info))}
		if w.parser == parseNil && sv.Info == "" && c.view != nil {
			sv.Info = c.view.Info // the parser dropped it
		}
		if x.Info != nil {
			if _, user := x.Info.(sinfo); user != (w.parser != parseGeneric) {
				w.viol("conn %d: the session info is a %T, the configured parser doesn't make those", []string{"C13"}, c.idx, x.Info)
			}
		}
	}
	if !sv.equal(c.view) {
		w.viol("conn %d: the client's session is %s, the server's is %s (nothing in flight)", []string{"C13", "C33"}, c.idx, c.view, sv)
	}
}

// sessionCheck compares the client's view and the hook counts with what happened
// in the epoch that just ended, then starts the next epoch.
func (w *World) sessionCheck() {
	type fate struct {
		held              []*Conn
		allGone, explicit bool
	}
	byKey := map[string]*fate{}
	for _, c := range w.conns {
		now := ""
		if c.con != nil && c.open() {
			con := c.use()
			now = con.SessionKey()
			if now != "" {
				s := con.Session()
				r := w.keyOf[now]
				if r == nil {
					w.viol("conn %d has unknown session %s", []string{"C10", "C13", "C33"}, c.idx, now)
				} else if r.creation.IsZero() {
					r.creation = s.Creation
				} else if !r.creation.Equal(s.Creation) {
					w.viol("conn %d: session %s has creation time %v, it was created at %v", []string{"C13"}, c.idx, now, s.Creation, r.creation)
				}
				if r != nil && r.destroyed > 0 && !r.hookFail && r.destrSeq > 0 {
					w.viol("conn %d still holds session %s, which was destroyed", []string{"C12", "C10"}, c.idx, now)
				}
			}
			if c.wfaults > 0 && (c.sessOps > 0 || len(w.ep.srvClose) > 0) && w.wfaults > w.ep.wf0 {
				c.viewOff = true
			}
			if c.healthy() && !c.viewOff {
				w.viewCheck(c)
			}
		}
		if c.heldAtRest != "" && now != c.heldAtRest && !c.leaving && !w.ep.srvClose[c.heldAtRest] && !w.shutBegun {
			w.viol("conn %d lost session %s although nothing touched it", []string{"C10", "C13", "C12"}, c.idx, c.heldAtRest)
		}
		for k := range c.pot {
			f := byKey[k]
			if f == nil {
				f = &fate{allGone: true, explicit: true}
				byKey[k] = f
			}
			r := w.keyOf[k]
			had := c.heldAtRest == k || r != nil && r.on == c && r.epoch == w.epN && r.created
			if now == k {
				f.allGone = false
				if had && !c.leaving && !w.ep.srvClose[k] && w.ep.destroys[k] > 0 {
					w.viol("session %s was destroyed while conn %d holds it", []string{"C12"}, k, c.idx)
				}
			}
			if had {
				f.held = append(f.held, c)
				if len(c.ends) > 0 || c.clientGone || c.restoredOther(k, w) {
					f.explicit = false
				}
			}
		}
	}
	for k, f := range byKey {
		r := w.keyOf[k]
		if r == nil || len(f.held) == 0 || !f.allGone || !f.explicit || w.ep.restores[k] > 0 || w.shutBegun {
			continue
		}
		if r.destroyed == 0 {
			w.viol("session %s was closed on its last connection but never destroyed", []string{"C12"}, k)
		}
		w.stat("reach.session destroyed")
	}
	w.epN++
	w.ep = newEpochRec()
	w.ep.wf0 = w.wfaults
	for _, c := range w.conns {
		c.heldAtRest = ""
		if c.con != nil && c.open() {
			c.heldAtRest = c.use().SessionKey()
		}
		c.pot = map[string]int{}
		if c.heldAtRest != "" {
			c.pot[c.heldAtRest] = 1
		}
		c.restOK = map[string]bool{}
		c.explicit = false
		c.leaving = len(c.ends) > 0 || c.clientGone
		c.sessOps = 0
	}
}

// restoredOther: a restore may have made c leave session k.
func (c *Conn) restoredOther(k string, w *World) bool {
	for _, m := range c.msgs {
		if m.kind == tRestore && m.epoch == w.epN && m.key != k {
			return true
		}
	}
	return false
}
