package simharness

import (
	"fmt"
	"runtime"
	"simrt"
	"strings"
	"time"
	"unsafe"
	"weak"

	wwr "github.com/qbeon/webwire-go"
)

const settleGap = 200 * ms

// genHook makes the script of a life-cycle hook.
func (w *World) genHook(connected bool) []step {
	var ss []step
	for n := wi(3); n > 0; n-- {
		switch wi(4) {
		case 0:
			ss = append(ss, step{kind: "yield", n: wi(6)})
		case 1:
			ss = append(ss, step{kind: "sleep", d: int64(1+wi(20)) * ms})
		default:
			o := w.genAdmin(true)
			if o.kind == "close" && connected && !pct(20) {
				o = &op{kind: "getters", n: -1}
			}
			ss = append(ss, step{kind: "op", op: o})
		}
	}
	return ss
}

// oddFrame is a well-formed message of a type clients have no business sending.
func (w *World) oddFrame() []byte {
	id := w.newID()
	switch wi(6) {
	case 0:
		return encSimple(1+wi(5), id, "")
	case 1:
		return encSimple(tReply+wi(2), id, "payload")
	case 2:
		return []byte{tSessClosed}
	case 3:
		if w.bufSize < 64 {
			return append([]byte{tSessCreated}, `{"k":"x"}`...)
		}
		return append([]byte{tSessCreated}, `{"k":"x","c":"2020-01-01T00:00:00Z","l":"2020-01-01T00:00:00Z"}`...)
	case 4:
		return encSimple(tErr, id, "\x03ERRmessage")
	default:
		return []byte{tConf, 2, 0, 1, 0, 0, 0, 0, 1, 0, 0, 'x', 'y', 'z'}
	}
}

// garbageFrame can never be a valid message.
func (w *World) garbageFrame() []byte {
	id := w.newID()
	switch wi(13) {
	case 0:
		return []byte{byte(200 + wi(50))}
	case 1:
		return []byte{99, 1, 2, 3}
	case 2:
		return []byte{byte(tRequest + wi(3))}
	case 3:
		return encSimple(tRequest, id, "")
	case 4:
		return []byte{byte(tSignal + wi(2)), 200, 'a', 'b'}
	case 5:
		return encSimple(tRestore, id, "")
	case 6:
		return encSimple(tCloseSession, id, "x")
	case 7:
		return []byte{tHeartbeat, 0}
	case 8:
		return []byte{tSignal + 2, 1, 'a', 0, 'b'}
	case 9:
		return encSimple(tErr, id, "\x00message")
	case 10:
		return []byte{tConf, 2, 0}
	case 11:
		return encRequest(id, []byte("n"), encBin, fill("over", w.bufSize+wi(300), false))
	default:
		return nil
	}
}

// edgeFrame is a message whose length fields are off by a little, often one that
// fills the message buffer to the last byte.
func (w *World) edgeFrame() []byte {
	t := []byte{tSignal, tSignal + 1, tSignal + 2, tRequest, tRequest + 1, tRequest + 2, tRequest + 2, tReply + 2, tErr}[wi(9)]
	b := []byte{t}
	if t != tSignal && t != tSignal+1 && t != tSignal+2 {
		id := w.newID()
		b = append(b, id[:]...)
	}
	total := w.bufSize - wi(3)
	switch wi(4) {
	case 0:
		total = len(b) + wi(8)
	case 1:
		total = len(b) + 1 + wi(w.bufSize-len(b))
	}
	if t >= tReply {
		return append(b, fill("edge", total, false)...)[:max(total, 1)]
	}
	if wi(3) > 0 {
		total -= total % 2
	}
	n := total - len(b) - 1 + wi(4) - 1
	if wi(3) == 0 {
		n = total - len(b) - 1 - wi(total+1)
	}
	b = append(b, byte(n))
	b = append(b, fill(fmt.Sprint("edge", w.nextID), w.bufSize, wi(4) > 0)...)
	return b[:max(total, 1)]
}

// notTiny keeps a frame from being one of the world's own smallest messages.
func notTiny(b []byte) []byte {
	h := -1
	switch t := int(b[0]); {
	case t >= tSignal && t <= tSignal+2:
		h = 2
	case t >= tRequest && t <= tRequest+2:
		h = 10
	}
	if h > 0 && len(b) <= h+4 {
		for i := h; i < len(b); i++ {
			if b[i] > 33 && b[i] < 127 {
				b[i] = 32 + b[i]&1
			}
		}
	}
	return b
}

func (w *World) fuzzFrame() []byte { return notTiny(w.rawFrame()) }

func (w *World) rawFrame() []byte {
	if wi(2) == 0 {
		return w.edgeFrame()
	}
	b := make([]byte, 1+wi(60))
	for i := range b {
		b[i] = byte(wi(256))
	}
	b[0] = []byte{tSignal, tSignal + 1, tSignal + 2, tRequest, tRequest + 1, tRequest + 2, tRestore, tCloseSession, tConf, tErr, 0, 1, 2, 21, 191, 193, 192}[wi(17)]
	return b
}

// genClient draws a client operation.
func (w *World) genClient(conn int, gated bool) *op {
	r := wi(100)
	p := w.p
	switch {
	case r < p.Disc:
		return &op{kind: []string{"disc", "cut", "lost", "disc", "cut"}[wi(5)]}
	case r < p.Disc+p.Garbage:
		switch wi(6) {
		case 0, 1:
			return &op{kind: "odd", raw: w.oddFrame()}
		case 2, 3:
			return &op{kind: "fuzz", raw: w.fuzzFrame()}
		default:
			return &op{kind: "garbage", raw: w.garbageFrame()}
		}
	case r < p.Disc+p.Garbage+p.Sess/2:
		if wi(4) == 0 {
			return &op{kind: "closereq"}
		}
		return &op{kind: "restore", n: wi(4) - boolInt(wi(8) == 0)*4, flag: wi(9) == 0, lim: wi(12)}
	case r < p.Disc+p.Garbage+p.Sess/2+4:
		return &op{kind: "heartbeat"}
	case r < p.Disc+p.Garbage+p.Sess/2+9 && p.Stall > 0:
		return &op{kind: "stall", d: int64(1+wi(p.Stall)) * ms}
	case r < p.Disc+p.Garbage+p.Sess/2+16:
		return &op{kind: "sleep", d: int64(wi(40)) * ms}
	}
	kind := tSignal
	if wi(5) > 1 {
		kind = tRequest
	}
	return w.genMsg(conn, kind, gated && wi(3) > 0, 1)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// actor is one concurrent participant of an epoch.
type actor struct {
	name string
	c    *Conn // own connection, nil for server-side actors
	ops  []*op
}

func (w *World) spawn(as []actor) {
	for _, a := range as {
		a := a
		simrt.GoNamed("harness: "+a.name, func() {
			for i, o := range a.ops {
				if a.c != nil {
					if o.kind == "dialself" {
						w.dial(a.c)
						continue
					}
					w.client(o, a.c)
				} else {
					w.admin(o, nil, fmt.Sprintf("%s.%d", a.name, i))
				}
			}
		})
	}
}

func (w *World) pickLimit() int {
	if len(w.p.Limit) > 0 {
		return pickInt(w.p.Limit)
	}
	return []int{0, 1, 2, 3, 8, -1}[wi(6)]
}

func (w *World) freshConn() *Conn {
	c := w.newConn(w.pickLimit(), wi(20) == 0)
	if w.net != nil && pct(w.p.Fault) {
		c.faulty = true
		c.faultBudget = 1 + wi(3)
		if w.p.Rush > 50 {
			c.faultBudget += wi(8)
		}
	}
	return c
}

func (w *World) settle() { simrt.Settle(settleGap) }

// live lists the connections the client side can still use.
func (w *World) live() []*Conn {
	var out []*Conn
	for _, c := range w.conns {
		if c.accepted && !c.clientGone && c.open() {
			out = append(out, c)
		}
	}
	return out
}

func (w *World) dialWave(n int) []actor {
	var as []actor
	for i := 0; i < n; i++ {
		c := w.freshConn()
		as = append(as, actor{name: fmt.Sprintf("client %d", c.idx), c: c, ops: []*op{{kind: "dialself"}}})
	}
	return as
}

func (w *World) nOps() int {
	if w.p.Flood && !w.late {
		return 20 << wi(6)
	}
	if w.long > 0 {
		return 1 + wi(w.long)
	}
	return 1 + wi(5)
}

func (w *World) epochFree() {
	w.late = false
	var as []actor
	for _, c := range w.live() {
		a := actor{name: fmt.Sprintf("client %d", c.idx), c: c}
		for i := w.nOps(); i > 0; i-- {
			a.ops = append(a.ops, w.genClient(c.idx, false))
		}
		as = append(as, a)
	}
	for i := wi(3); i > 0; i-- {
		d := w.dialWave(1)
		for i := wi(4); i > 0; i-- {
			d[0].ops = append(d[0].ops, w.genClient(0, false))
		}
		as = append(as, d...)
	}
	for i := wi(3); i > 0; i-- {
		a := actor{name: fmt.Sprintf("admin %d", i)}
		for j := w.nOps(); j > 0; j-- {
			o := w.genAdmin(false)
			if wi(4) == 0 {
				o = &op{kind: "sleep", d: int64(wi(40)) * ms}
			}
			a.ops = append(a.ops, o)
		}
		as = append(as, a)
	}
	if pct(w.p.Shut / 2) {
		for i := 1 + wi(3); i > 0; i-- {
			as = append(as, actor{name: fmt.Sprintf("shutdown %d", i),
				ops: []*op{{kind: "sleep", d: int64(wi(60)) * ms, n: -1}, {kind: "shutdown", n: -1}}})
		}
	}
	w.stat("reach.free epoch")
	w.spawn(as)
	w.settle()
	w.fullCheck()
}

func (w *World) epochGated() {
	w.late = false
	w.gateOpen = false
	var as []actor
	for _, c := range w.live() {
		a := actor{name: fmt.Sprintf("client %d", c.idx), c: c}
		for i := w.nOps(); i > 0; i-- {
			a.ops = append(a.ops, w.genClient(c.idx, true))
		}
		as = append(as, a)
	}
	w.spawn(as)
	w.settle()
	w.midCheck(false)

	as = nil
	trigger := "none"
	switch r := wi(100); {
	case r < w.p.Shut:
		trigger = "shutdown"
		for i := 1 + wi(3); i > 0; i-- {
			as = append(as, actor{name: fmt.Sprintf("shutdown %d", i),
				ops: []*op{{kind: "sleep", d: int64(wi(20)) * ms, n: -1}, {kind: "shutdown", n: -1}}})
		}
	case r < w.p.Shut+w.p.ConClose && len(w.conns) > 0:
		trigger = "close"
		for i := 1 + wi(3); i > 0; i-- {
			as = append(as, actor{name: fmt.Sprintf("closer %d", i), ops: []*op{{kind: "close", n: wi(len(w.conns))}}})
		}
	}
	w.stat("reach.gated epoch " + trigger)
	w.spawn(as)
	w.settle()
	if trigger == "shutdown" {
		w.shutSure = simrt.EvSeq()
	}
	w.late = true
	as = nil
	for _, c := range w.live() {
		if wi(4) == 0 {
			continue
		}
		a := actor{name: fmt.Sprintf("late client %d", c.idx), c: c}
		for i := w.nOps(); i > 0; i-- {
			a.ops = append(a.ops, w.genClient(c.idx, false))
		}
		as = append(as, a)
	}
	if wi(2) == 0 {
		as = append(as, w.dialWave(1+wi(2))...)
	}
	if wi(3) == 0 {
		a := actor{name: "late admin"}
		for j := w.nOps(); j > 0; j-- {
			a.ops = append(a.ops, w.genAdmin(false))
		}
		as = append(as, a)
	}
	w.spawn(as)
	w.settle()
	w.midCheck(true)
	if pct(12) {
		w.hold()
		w.midCheck(true)
	}
	w.late = false
	w.gateOpen = true
	w.gateQ.Wake()
	w.settle()
	w.fullCheck()
}

// hold lets handlers run for long: nothing may give up waiting for them.
func (w *World) hold() {
	if w.held > 0 || pct(30) {
		w.stat("reach.handlers held beyond the read timeout")
		for _, c := range w.conns {
			if c.accepted {
				c.end("idle for longer than the read timeout")
			}
		}
		w.sleepLong(int64(w.timeout) + int64(1+wi(600))*1000*ms)
	} else {
		w.stat("reach.handlers held for long")
		d := []int64{2, 6, 11, 31, 61, 301, 1000, 3000}[wi(8)] * 1000 * ms
		w.held += d
		w.sleepLong(d)
	}
	w.settle()
}

func (w *World) sleepLong(d int64) {
	simrt.Note("nothing happens for %s", time.Duration(d))
	simrt.Sleep(d)
}

// epochEnd ends connections while sessions are created, restored and closed on
// them, half of the time by handlers that are still running.
func (w *World) epochEnd() {
	w.late = false
	w.stat("reach.ending epoch")
	if n := len(w.live()); n < 3 {
		w.spawn(w.dialWave(3 - n))
		w.settle()
		w.fullCheck()
	}
	gated := wi(2) == 0
	var as []actor
	if gated {
		w.gateOpen = false
		for _, c := range w.live() {
			if wi(3) == 0 {
				continue
			}
			a := actor{name: fmt.Sprintf("client %d", c.idx), c: c}
			for i := 1 + wi(2); i > 0; i-- {
				o := w.genMsg(c.idx, tRequest, true, 0)
				o.m.script = []step{{kind: "gate"}}
				if wi(2) == 0 {
					o.m.script = append(o.m.script, step{kind: "op", op: &op{kind: []string{"create", "create", "closesess"}[wi(3)], n: -1, info: w.genInfo()}})
				}
				a.ops = append(a.ops, o)
			}
			as = append(as, a)
		}
		w.spawn(as)
		w.settle()
		w.midCheck(false)
	}
	as = nil
	for _, c := range w.live() {
		for i := wi(3); i > 0; i-- {
			a := actor{name: fmt.Sprintf("user %d of %d", i, c.idx)}
			for j := 1 + wi(3); j > 0; j-- {
				a.ops = append(a.ops, &op{kind: []string{"create", "create", "create", "closesess", "getters"}[wi(5)], n: c.idx, info: w.genInfo()})
			}
			as = append(as, a)
		}
		if wi(3) == 0 {
			as = append(as, actor{name: fmt.Sprintf("client %d", c.idx), c: c, ops: []*op{
				[]*op{{kind: "closereq"}, {kind: "restore", n: wi(4) - boolInt(wi(8) == 0)*4}, w.genMsg(c.idx, tRequest, false, 1)}[wi(3)]}})
		}
		if wi(4) == 0 {
			continue
		}
		a := actor{name: fmt.Sprintf("end of %d", c.idx)}
		switch wi(5) {
		case 0:
			a.c, a.ops = c, []*op{{kind: "disc"}}
		case 1:
			a.c, a.ops = c, []*op{{kind: "cut"}}
		default:
			a.ops = []*op{{kind: "close", n: c.idx}}
		}
		as = append(as, a)
	}
	if gated && wi(2) == 0 {
		as = append(as, actor{name: "gate", ops: []*op{{kind: "open gate", n: -1}}})
	}
	w.spawn(as)
	w.settle()
	if gated && !w.gateOpen {
		w.midCheck(false)
		if pct(8) {
			w.hold()
			w.midCheck(false)
		}
		w.gateOpen = true
		w.gateQ.Wake()
		w.settle()
	}
	w.fullCheck()
}

// epochRush lets the connections of one session close it, leave it and join it
// all at once, half of the time under handlers that are still running.
func (w *World) epochRush() {
	w.late = false
	usable := func() (out []*Conn) {
		for _, c := range w.live() {
			if c.healthy() && c.con != nil {
				out = append(out, c)
			}
		}
		return
	}
	cs := usable()
	for len(cs) < 2 {
		w.spawn(w.dialWave(2))
		w.settle()
		w.fullCheck()
		if n := usable(); len(n) == len(cs) {
			w.epochFree()
			return
		}
		cs = usable()
	}
	owner := cs[wi(len(cs))]
	if owner.heldAtRest == "" {
		w.spawn([]actor{{name: "owner", ops: []*op{{kind: "create", n: owner.idx, info: w.genInfo()}}}})
		w.settle()
		w.fullCheck()
	}
	key := owner.heldAtRest
	if key == "" {
		return
	}
	var as []actor
	for _, c := range usable() {
		if c != owner && (w.p.Hoard || wi(3) > 0) {
			as = append(as, actor{name: fmt.Sprintf("client %d", c.idx), c: c, ops: []*op{{kind: "restore", tok: key}}})
		}
	}
	w.spawn(as)
	w.settle()
	w.fullCheck()

	var holders, others []*Conn
	for _, c := range usable() {
		if c.heldAtRest == key {
			holders = append(holders, c)
		} else {
			others = append(others, c)
		}
	}
	if len(holders) > 1 {
		w.stat("reach.shared session")
	}
	style, other := wi(7), ""          // (6: the server closes the session, nothing else happens)
	if style == 5 && len(others) > 0 { // the holders switch to another session
		c := others[wi(len(others))]
		if c.heldAtRest == "" {
			w.spawn([]actor{{name: "owner", ops: []*op{{kind: "create", n: c.idx, info: w.genInfo()}}}})
			w.settle()
			w.fullCheck()
		}
		if other = c.heldAtRest; other != "" {
			w.stat("reach.switching epoch")
		}
	}
	gated := wi(2) == 0
	if gated {
		w.gateOpen = false
		as = nil
		for _, c := range holders {
			if wi(3) > 0 {
				as = append(as, actor{name: fmt.Sprintf("client %d", c.idx), c: c, ops: []*op{w.genMsg(c.idx, tRequest, true, 0)}})
			}
		}
		w.spawn(as)
		w.settle()
		w.midCheck(false)
	}
	as = nil
	for _, c := range holders {
		if style == 6 {
			break
		}
		a := actor{name: fmt.Sprintf("rush %d", c.idx)}
		k := style
		if other != "" {
			if k = 7; wi(4) > 0 {
				a.c, a.ops = c, []*op{{kind: "restore", tok: other}}
				as = append(as, a)
				continue
			}
		}
		if style >= 4 {
			k = wi(8)
		}
		switch k {
		case 0:
			a.c, a.ops = c, []*op{{kind: "closereq"}}
		case 1:
			a.ops = []*op{{kind: "closesess", n: c.idx}}
		case 2:
			if wi(2) == 0 {
				a.c, a.ops = c, []*op{{kind: "closereq"}}
			} else {
				a.ops = []*op{{kind: "closesess", n: c.idx}}
			}
		case 3, 5:
			a.ops = []*op{{kind: "close", n: c.idx}}
		case 4:
			a.c, a.ops = c, []*op{{kind: "disc"}}
		case 6:
			a.c, a.ops = c, []*op{{kind: "cut"}}
		default:
			continue
		}
		as = append(as, a)
	}
	if wi(3) == 0 || other != "" || style == 6 {
		a := actor{name: "closer", ops: []*op{{kind: "srvclose", tok: key}}}
		if other != "" || wi(2) == 0 { // about when the clients' messages arrive
			a.ops = append([]*op{{kind: "sleep", d: w.delay()}, {kind: "yield", n: wi(30)}}, a.ops...)
		}
		as = append(as, a)
	}
	if wi(4) == 0 {
		for _, c := range others {
			as = append(as, actor{name: fmt.Sprintf("client %d", c.idx), c: c, ops: []*op{{kind: "restore", tok: key}}})
		}
	}
	w.stat("reach.rush epoch")
	w.spawn(as)
	if wi(2) == 0 {
		w.settle()
		if gated {
			w.midCheck(false)
		} else {
			w.fullCheck()
		}
		if wi(2) == 0 {
			w.spawn([]actor{{name: "closer", ops: []*op{{kind: "srvclose", tok: key}}}})
		}
	}
	if gated {
		w.settle()
		w.midCheck(false)
		w.gateOpen = true
		w.gateQ.Wake()
	}
	w.settle()
	w.fullCheck()
}

// probe requires full service on every connection that should be healthy.
func (w *World) probe() {
	var as []actor
	for _, c := range w.live() {
		if !c.healthy() {
			continue
		}
		a := actor{name: fmt.Sprintf("probe %d", c.idx), c: c}
		for i := 0; i < 2; i++ {
			m := &Msg{kind: tRequest, tok: w.tok("p"), probe: true}
			m.name, m.out = []byte(m.tok+"."), outcome{kind: "payload", data: []byte("#" + m.tok + ".")}
			a.ops = append(a.ops, &op{kind: "msg", m: m})
		}
		as = append(as, a)
	}
	w.spawn(as)
	w.settle()
	w.fullCheck()
}

// RunWorld is the main program of one world run.
func RunWorld(p Profile) {
	w := NewWorld(p)
	simrt.Yield()
	n := 1 + wi(4)
	if pct(p.Crowd) {
		n += 3 + wi(5)
	}
	if pct(p.Many) {
		n += 10 << wi(3)
		w.stat("reach.many connections")
	}
	if p.Hoard {
		n = 245 + wi(70)
		w.stat("reach.hoard")
	}
	if w.long > 0 {
		w.stat("reach.long run")
		if n > 2 {
			n = 1 + wi(2)
		}
	}
	w.spawn(w.dialWave(n))
	w.settle()
	w.fullCheck()
	epochs := 1 + wi(p.Epochs)
	for i := 0; i < epochs && !w.shutBegun; i++ {
		if w.sessOn && pct(p.Rush) {
			if wi(3) == 0 && !p.Hoard {
				w.epochEnd()
			} else {
				w.epochRush()
			}
		} else if pct(p.Gate) {
			w.epochGated()
		} else {
			w.epochFree()
		}
	}
	w.finale()
}

// finale: after all faults stopped the server must give full service, then forget
// everything about clients that are gone, then shut down.
func (w *World) finale() {
	w.faultsOff = true
	w.late = false
	if !w.shutBegun {
		w.probe()
		w.spawn(w.dialWave(1))
		w.settle()
		w.probe()
	}
	for _, c := range w.live() {
		w.disconnect(c, wi(2) == 0)
	}
	w.settle()
	w.fullCheck()
	if n := w.srv.ActiveSessionsNum(); n != 0 {
		w.viol("%d sessions are active although every connection is gone", []string{"C10", "C17"}, n)
	}
	w.idle()
	if w.leak && !w.shutBegun {
		w.leakCheck()
	}
	if !w.shutBegun {
		for i := 1 + wi(2); i > 0; i-- {
			simrt.GoNamed("harness: last shutdown", func() { w.shutdown() })
		}
		w.settle()
	}
	if w.shutReturns < w.shutCalls || !w.runReturned {
		w.viol("an idle server did not shut down: %d of %d calls returned, Run returned: %v\n%s", []string{"C05"},
			w.shutReturns, w.shutCalls, w.runReturned, simrt.Stuck())
	}
	if w.runErr != nil {
		w.viol("Run failed: %v", []string{"C05"}, w.runErr)
	}
	before := w.nConnectedHooks()
	w.spawn(w.dialWave(1))
	w.settle()
	if w.nConnectedHooks() != before {
		w.viol("a connection was established after Shutdown", []string{"C06", "C05"})
	}
}

func (w *World) nConnectedHooks() (n int) {
	for _, c := range w.conns {
		n += c.connectedN
	}
	return
}

// idle: with all clients gone only the server's own goroutine may be left.
func (w *World) idle() {
	for _, b := range simrt.Blocked() {
		if strings.HasPrefix(b, "harness:") || strings.HasPrefix(b, "main") {
			continue
		}
		w.viol("a goroutine is left although every client is gone: %s\n%s", []string{"C17", "C08"}, b, simrt.Stuck())
		return
	}
}

func dataPtr(c wwr.Connection) *byte {
	return *(**byte)(unsafe.Add(unsafe.Pointer(&c), unsafe.Sizeof(uintptr(0))))
}

// leakCheck: the server must not keep objects of connections that are gone.
func (w *World) leakCheck() {
	w.stat("reach.leak check")
	var refs []weak.Pointer[byte]
	for _, c := range w.conns {
		if c.con != nil {
			refs = append(refs, weak.Make(dataPtr(c.con)))
			c.con = nil
		}
		if c.mem != nil && c.accepted && !c.mem.over {
			// The transport knows the client's socket.
			refs = append(refs, weak.Make(*(**byte)(unsafe.Add(unsafe.Pointer(&c.mem.sock), unsafe.Sizeof(uintptr(0))))))
		}
		c.ss, c.mem, c.from = nil, nil, nil
		c.msgs, c.byID, c.pot, c.restOK = nil, map[[8]byte]*Msg{}, map[string]int{}, map[string]bool{}
		c.view, c.heldAtRest = nil, ""
		c.accepted = false
	}
	w.keys, w.keyOf, w.st.m, w.ep = nil, map[string]*keyRec{}, map[string]*sessRec{}, newEpochRec()
	w.dialing = map[int]*Conn{}
	w.msgs, w.sigs = map[string][]*Msg{}, map[string][]*SigCall{}
	simrt.NoYield(func() {
		simrt.DropKeeps()
		runtime.GC()
		runtime.GC()
	})
	n := 0
	for _, r := range refs {
		if r.Value() != nil {
			n++
		}
	}
	// The stack of a goroutine that just ended may keep one object alive.
	if n > 2 {
		w.viol("%d of %d connection objects are retained although every client is gone", []string{"C17"}, n, len(refs))
	}
}
