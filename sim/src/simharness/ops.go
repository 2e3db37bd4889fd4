package simharness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"simrt"
	stime "simshim/time"
	"strings"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/payload"
	"github.com/qbeon/webwire-go/transport/memchan"
)

// op is one planned operation.
type op struct {
	kind string
	n    int
	d    int64
	m    *Msg
	enc  int
	name []byte
	pay  []byte
	info sinfo
	tok  string
	raw  []byte
	lim  int
	flag bool
	more []*Msg // further messages of the same content
	rep  int    // signals: calls with the same content
}

// ---------------------------------------------------------------- generation

func fill(seed string, n int, printable bool) []byte {
	h := uint32(2166136261)
	for i := 0; i < len(seed); i++ {
		h = (h ^ uint32(seed[i])) * 16777619
	}
	b := make([]byte, max(n, 0))
	for i := range b {
		h = h*1664525 + 1013904223
		if printable {
			b[i] = byte(32 + (h>>16)%95)
		} else {
			b[i] = byte(h >> 16)
		}
	}
	return b
}

// tiny makes the smallest message there is: nothing but one character.
func (w *World) tiny(enc int, tok string) (string, []byte, []byte) {
	if w.tinyN >= 90 {
		return tok, nil, nil
	}
	w.tinyN++
	b := []byte{byte(33 + w.tinyN)}
	switch {
	case enc == encUtf16:
		b = append(b, 0)
		return "~" + string(b), nil, b
	case wi(2) == 0:
		return "~" + string(b), nil, b
	}
	return "~" + string(b), b, nil
}

// body makes a name and a payload that carry tok and fit into size bytes.
func body(tok string, enc, size int) (name, pay []byte) {
	mode := wi(3) // both, payload only, name only
	room := size - 6
	if wi(3) == 0 {
		if room = size; enc == encUtf16 {
			room -= 2
		}
	}
	mk := func(prefix string, room, max int, printable bool) []byte {
		b := []byte(prefix + tok + ".")
		extra := room - len(b)
		if extra > max-len(b) {
			extra = max - len(b)
		}
		if extra > 0 {
			switch wi(4) {
			case 0:
				extra = 0
			case 1:
				if extra > 8 {
					extra = wi(8)
				}
			case 2:
				extra = wi(extra + 1)
			}
			b = append(b, fill(tok+prefix, extra, printable)...)
		}
		return b
	}
	if mode != 1 {
		r := room
		if mode == 0 {
			r = room / 2
		}
		if mode == 2 && enc == encUtf16 {
			mode = 0
			r = room / 2
		}
		name = mk("", r, 255, true)
	}
	if mode != 2 {
		pay = mk("#", room-len(name)-1, 1<<20, false)
		if enc == encUtf16 && len(pay)%2 != 0 {
			pay = append(pay, '.')
		}
		if enc == encUtf16 && len(name)+len(pay)+8 < room && wi(2) == 0 {
			pay = append(pay, oddText()...)
		}
	}
	return
}

// oddText is valid UTF-16 text of at most two unusual characters.
func oddText() []byte {
	switch wi(6) {
	case 0:
		return []byte{0, 0}
	case 1:
		return []byte{'x', 0, 0, 0}
	case 2: // byte order marks
		return []byte{0xFF, 0xFE, 0xFE, 0xFF}
	case 3: // a noncharacter, the replacement character
		return []byte{0xFF, 0xFF, 0xFD, 0xFF}
	case 4: // white space
		return []byte{' ', 0, '\n', 0}
	}
	// A character beyond the BMP.
	return []byte{0x3D, 0xD8, byte(wi(256)), 0xDE}
}

func (w *World) genMsg(c int, kind int, gate bool, depth int) *op {
	m := &Msg{kind: kind, tok: w.tok(map[int]string{tSignal: "s", tRequest: "r"}[kind])}
	m.enc = wi(3)
	head := 2
	if kind == tRequest {
		head = 10
	}
	if wi(16) == 0 {
		m.tok, m.name, m.pay = w.tiny(m.enc, m.tok)
	}
	if len(m.name)+len(m.pay) == 0 {
		m.name, m.pay = body(m.tok, m.enc, w.bufSize-head)
	}
	m.gated = gate
	if m.script = nil; w.p.Flood && wi(20) > 0 {
		if gate {
			m.script = []step{{kind: "gate"}}
		}
	} else {
		m.script = w.genScript(gate, depth)
	}
	if kind == tRequest {
		m.out = w.genOutcome(m.tok)
	}
	o := &op{kind: "msg", m: m, n: c}
	for wi(8) == 0 && len(o.more) < 4 { // the same message again, a different answer
		t := *m
		if kind == tRequest {
			t.out = w.genOutcome(m.tok)
		}
		o.more = append(o.more, &t)
	}
	return o
}

func (w *World) genOutcome(tok string) (o outcome) {
	switch wi(10) {
	case 0, 1, 2, 3, 4:
		o.kind = "payload"
	case 5:
		o.kind = "err"
	case 6:
		o.kind = "errp"
	case 7:
		o.kind = "other"
		o.msg, o.n = "secret-"+tok, wi(20)
	default:
		o.kind = "payload"
	}
	o.enc = wi(3)
	n := wi(3)
	switch n {
	case 0:
		o.data = []byte("#" + tok + ".")
	case 1:
		o.data = append([]byte("#"+tok+"."), fill(tok+"out", wi(max(w.bufSize-40, 2)), false)...)
	case 2:
		if wi(3) == 0 {
			o.data = nil
		} else { // exactly full
			o.data = append([]byte("#"+tok+"."), fill(tok+"out", w.bufSize-9, false)...)[:w.bufSize-9]
			if o.enc == encUtf16 {
				o.data = o.data[:len(o.data)-2+len(o.data)%2]
				for 10+len(o.data) > w.bufSize || len(o.data)%2 != 0 {
					o.data = o.data[:len(o.data)-1]
				}
			}
		}
	}
	if o.enc == encUtf16 && len(o.data)%2 != 0 {
		o.data = append(o.data, 'x')
		for 10+len(o.data) > w.bufSize {
			o.data = o.data[:len(o.data)-2]
		}
	}
	if o.enc == encUtf16 && o.kind == "payload" && len(o.data) > 0 && 10+len(o.data)+4 <= w.bufSize && wi(3) == 0 {
		o.data = append(o.data, oddText()...)
	}
	if o.kind == "err" || o.kind == "errp" {
		o.code = []string{"E", "SOME_CODE", "a code with ~ and spaces", " ~"}[wi(4)]
		if wi(8) == 0 && w.bufSize > 300 {
			o.code = string(fill(tok, 250+wi(6), true))
		}
		o.msg = []string{"", "mess\u00e4ge \x00\xff\r\n of " + tok, "#" + tok + "." + string(fill(tok, w.bufSize-10-len(o.code)-2-len(tok), true))}[wi(3)]
	}
	if w.p.Big > 0 && pct(w.p.Big) {
		// Something that cannot be sent.
		switch o.kind {
		case "payload":
			if wi(3) == 0 {
				o.enc = encUtf16
				o.data = []byte("odd")[:1+2*wi(2)]
			} else {
				o.data = append([]byte("#"+tok+"."), fill(tok+"big", w.bufSize-8+wi(2)*40, false)...)
				if wi(2) == 0 {
					o.data = o.data[:w.bufSize-8] // one byte too much
				}
				if o.enc == encUtf16 && len(o.data)%2 != 0 {
					o.data = append(o.data, 'x')
				}
			}
		case "err", "errp":
			switch wi(6) {
			case 4:
				o.code = []string{"%", "C%", "%C", "AB%CD"}[wi(4)]
				o.code = strings.Replace(o.code, "%", string([]byte{[]byte{31, 127, 128, 255}[wi(4)]}), 1)
			case 5: // one byte too much
				o.msg = string(fill(tok, w.bufSize-9-len(o.code), true))
			case 0:
				o.code = ""
			case 1:
				o.code = strings.Repeat("c", 256)
			case 2:
				o.code = "bad\ncode"
			case 3:
				o.msg = string(fill(tok, w.bufSize, true))
			}
		}
	}
	switch o.kind {
	case "payload":
		l := 9 + len(o.data)
		if o.enc == encUtf16 {
			l++
		}
		o.bad = l > w.bufSize || o.enc == encUtf16 && len(o.data)%2 != 0
	case "err", "errp":
		o.bad = len(o.code) < 1 || len(o.code) > 255 || 10+len(o.code)+len(o.msg) > w.bufSize
		for i := 0; i < len(o.code); i++ {
			if o.code[i] < 32 || o.code[i] > 126 {
				o.bad = true
			}
		}
	}
	return
}

func (w *World) genScript(gate bool, depth int) []step {
	var ss []step
	n := wi(4)
	for i := 0; i < n; i++ {
		switch wi(8) {
		case 0, 1:
			ss = append(ss, step{kind: "yield", n: wi(6)})
		case 2, 3:
			ss = append(ss, step{kind: "sleep", d: int64(1+wi(30)) * ms})
		default:
			if depth > 0 && pct(60) {
				ss = append(ss, step{kind: "op", op: w.genAdmin(true)})
			} else {
				ss = append(ss, step{kind: "yield", n: wi(3)})
			}
		}
	}
	if gate {
		at := 0
		if len(ss) > 0 {
			at = wi(len(ss) + 1)
		}
		ss = append(ss[:at:at], append([]step{{kind: "gate"}}, ss[at:]...)...)
	}
	return ss
}

// genAdmin makes a server-side operation; own: on the handler's own connection.
func (w *World) genAdmin(own bool) *op {
	o := &op{n: wi(8)}
	if own && pct(85) {
		o.n = -1
	}
	r := wi(100)
	switch {
	case r < w.p.Sess && (w.sessOn || r < w.p.Sess/2):
		switch wi(8) {
		case 0, 1, 2:
			o.kind = "create"
			o.info = w.genInfo()
		case 3, 4:
			o.kind = "closesess"
		case 5, 6:
			o.kind = "srvclose"
			o.n = wi(6)
		default:
			o.kind = "create"
			o.info = w.genInfo()
			if w.ks != nil && wi(6) == 0 {
				o.kind = "genkey"
			}
		}
	case r < w.p.Sess+w.p.Sig:
		w.genSignal(o)
	case r < w.p.Sess+w.p.Sig+w.p.ConClose:
		o.kind = "close"
	default:
		if o.kind = []string{"getters", "queries"}[wi(2)]; w.info && wi(2) == 0 {
			o.kind = "getters"
		}
		if o.kind == "getters" {
			if wi(4) > 0 {
				o.lim = 1 << wi(9)
				if w.info && wi(2) == 0 {
					o.lim = []int{1 << 2, 1 << 2, 1 << 5, 1 << 6, 1<<2 | 1<<5 | 1<<6}[wi(5)]
				}
			}
			o.flag = wi(2) == 0
		}
	}
	return o
}

func (w *World) genInfo() sinfo {
	if w.p.Big > 0 && wi(16) == 0 {
		return sinfo{"call me": func() {}, "text": "no such thing in JSON, can't be sent"}
	}
	if w.info && wi(6) > 0 {
		o := sinfo{}
		for _, k := range []string{"a", "nested", "b", "c"}[:1+wi(4)] {
			o[k] = w.richValue(0)
		}
		return o
	}
	switch wi(6) {
	case 0:
		return nil
	case 1:
		return sinfo{"a": "x"}
	case 4:
		return sinfo{"id": int64(9007199254740993) + int64(wi(1000)), "u": uint64(1<<64 - 1)}
	case 2:
		return sinfo{"name": "some \"user\"", "n": float64(wi(100)), "ok": true}
	case 3:
		return sinfo{"nested": map[string]interface{}{"k": "v", "l": []interface{}{"x", nil, float64(3)}}}
	default:
		if w.p.Big > 0 && pct(w.p.Big) {
			return sinfo{"big": string(fill("info", w.bufSize, true))}
		}
		return sinfo{"u": "ü…"}
	}
}

// some is a small number, now and then one up to n.
func (w *World) some(n int) int {
	if wi(6) == 0 {
		return wi(n + 1)
	}
	return wi(4)
}

// richValue makes a value of maps, slices and plain values.
func (w *World) richValue(d int) interface{} {
	n := 17
	if d > 2 {
		n = 4
	}
	switch wi(n) {
	case 0:
		return float64(wi(1000)) / 4
	case 1:
		return "text"
	case 2:
		return wi(2) == 0
	case 3:
		return nil
	case 4, 5, 6:
		o := map[string]interface{}{}
		for _, k := range []string{"k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v"}[:w.some(12)] {
			o[k] = w.richValue(d + 1)
		}
		return o
	case 7, 8, 9:
		o := []interface{}{}
		for i := w.some(9); i > 0; i-- {
			o = append(o, w.richValue(d+1))
		}
		return o
	case 10:
		return []string{"x", "y", "z"}[:wi(4)]
	case 11:
		return map[string]string{"p": "q", "r": "s"}
	case 12:
		return [][]int{{1, 2}, {3}, {}}
	case 13:
		return []map[string]interface{}{{}, {"k": w.richValue(d + 1), "p": 1.5}}
	case 14:
		return []byte("bytes")[:wi(6)]
	case 15:
		return []float64{1, 2.5}
	default:
		return map[string][]string{"list": {"1", "2"}}
	}
}

func (w *World) genSignal(o *op) {
	o.kind = "signal"
	o.tok = w.tok("S")
	o.enc = wi(3)
	if wi(16) == 0 {
		o.tok, o.name, o.pay = w.tiny(o.enc, o.tok)
	}
	if len(o.name)+len(o.pay) == 0 {
		o.name, o.pay = body(o.tok, o.enc, w.bufSize-2)
	}
	o.flag = true
	for wi(6) == 0 && o.rep < 4 {
		o.rep++
	}
	if w.p.Big > 0 && pct(w.p.Big) {
		o.flag = false
		switch wi(5) {
		case 0:
			o.name = fill(o.tok, 256, true)
		case 1:
			o.name = []byte("bad\x01name")
		case 2:
			o.enc = encUtf16
			o.pay = []byte("odd")
		case 3:
			o.pay = fill(o.tok, w.bufSize, false)
			if wi(2) == 0 && o.enc != encUtf16 { // one byte too much
				o.name, o.pay = nil, o.pay[:w.bufSize-1]
			}
		case 4:
			o.name, o.pay = nil, nil
		}
	}
}

// ---------------------------------------------------------------- client side

func (w *World) newConn(limit int, refuse bool) *Conn {
	c := &Conn{w: w, idx: len(w.conns), limit: limit, refuse: refuse, byID: map[[8]byte]*Msg{},
		sigOrder: map[string]int{}, pot: map[string]int{}, restOK: map[string]bool{}, lastStart: -1}
	w.conns = append(w.conns, c)
	return c
}

func (w *World) dial(c *Conn) {
	before := w.shutSure
	c.dialAt = stime.Now()
	if w.net != nil {
		c.dialErr = w.net.dial(c)
	} else {
		cs := w.redial(c)
		if cs == nil {
			var err error
			if cs, err = (&memchan.ClientTransport{Server: w.mt}).NewSocket(time.Second); err != nil {
				panic(err)
			}
		}
		c.mem = &memLink{c: c, sock: cs}
		w.dialing[simrt.CurG()] = c
		for w.guarded("Dial", func() { c.dialErr = cs.Dial(time.Time{}) }) {
		}
		delete(w.dialing, simrt.CurG())
		simrt.Release(&c.dialVC)
		c.accepted = c.dialErr == nil
		if c.accepted {
			c.mem.start()
		}
	}
	c.dialDone = true
	if c.accepted && w.shutBegun && !c.has("shutdown") {
		c.end("shutdown")
	}
	simrt.Note("conn %d dial: %v", c.idx, c.dialErr)
	if c.accepted && before > 0 {
		w.viol("conn %d was accepted although the server is shutting down", []string{"C06", "C05"}, c.idx)
	}
	if !c.accepted && !w.shutBegun && !c.refuse {
		w.viol("conn %d: dial failed on a running server: %v", []string{"C17", "C18", "C08"}, c.idx, c.dialErr)
	}
	if c.accepted && c.refuse {
		w.viol("conn %d was accepted although its options refuse it", []string{"C08", "C18"}, c.idx)
	}
}

// redial returns the socket of a connection that is over, if there's one, now and
// then: clients reconnect on the socket they have.
func (w *World) redial(c *Conn) wwr.ClientSocket {
	free := func(o *Conn) bool {
		return o.accepted && o.mem != nil && o.mem.dead && o.mem.sendDone && !o.mem.over
	}
	var l []*Conn
	if o := c.from; o != nil {
		for i := 0; i < 20 && !free(o) && !o.mem.over; i++ {
			simrt.Sleep(ms)
		}
		if free(o) {
			l = append(l, o)
		}
	} else {
		for _, o := range w.conns {
			if free(o) {
				l = append(l, o)
			}
		}
		if len(l) == 0 || wi(2) == 0 {
			return nil
		}
	}
	if len(l) == 0 {
		return nil
	}
	o := l[wi(len(l))]
	simrt.Acquire(&o.dialVC)
	o.mem.over = true
	w.stat("reach.redial")
	if o.running > 0 {
		w.stat("reach.redial while handlers are running")
	}
	simrt.Note("conn %d reconnects on the socket of conn %d", c.idx, o.idx)
	return o.mem.sock
}

type memLink struct {
	c       *Conn
	sock    wwr.ClientSocket
	out     []inItem
	q       simrt.WaitQ
	stalled bool
	sq      simrt.WaitQ
	dead    bool // the receiver saw the end

	sendDone bool
	over     bool // another connection uses the socket
}

func (l *memLink) start() {
	c := l.c
	simrt.GoNamed(fmt.Sprintf("harness: sender of %d", c.idx), func() {
		defer func() { l.sendDone = true }()
		for {
			for len(l.out) == 0 && !l.dead {
				l.q.Wait("outbox")
			}
			if l.dead {
				for _, it := range l.out {
					if it.m != nil {
						it.m.sendErr = errGone
					}
				}
				l.out = nil
				return
			}
			it := l.out[0]
			l.out = l.out[1:]
			if it.m != nil {
				it.m.sendSeq = simrt.EvSeq()
			}
			err := l.write(it.b)
			simrt.Note("conn %d client sent %s: %v", c.idx, describe(it.b), err)
			if it.bad && err == nil {
				c.mustClose = true
			}
			if it.m != nil {
				it.m.sendErr = err
				it.m.sentOK = err == nil
				if err == nil {
					it.m.readSeq = simrt.EvSeq()
					it.m.readN++
				}
			}
		}
	})
	simrt.GoNamed(fmt.Sprintf("harness: receiver of %d", c.idx), func() {
		msg := message.NewMessage(uint32(c.w.bufSize))
		for {
			for l.stalled {
				l.sq.Wait("client stalled")
			}
			if err := l.sock.Read(msg, time.Time{}); err != nil {
				if !err.IsCloseErr() {
					c.w.viol("conn %d: client read failed: %v", []string{"C18", "C22"}, c.idx, err)
				}
				c.onEOF()
				l.dead = true
				l.q.Wake()
				return
			}
			b := append([]byte(nil), msg.MsgBuffer.Data()...)
			c.w.received(c, b)
		}
	})
}

var errGone = errors.New("the connection is gone")

func (l *memLink) write(b []byte) error {
	wr, err := l.sock.GetWriter()
	if err != nil {
		return err
	}
	if _, err := wr.Write(b); err != nil {
		wr.Close()
		return err
	}
	return wr.Close()
}

func (c *Conn) onEOF() {
	if !c.sawEOF {
		c.sawEOF = true
		simrt.Note("conn %d client sees the end", c.idx)
	}
}

// send transmits a client frame in order.
func (c *Conn) send(b []byte, m *Msg) {
	if m != nil {
		m.c = c
		m.idx = len(c.msgs)
		m.bytes = b
		m.epoch = c.w.epN
		m.late = c.w.late
		m.sendSeq = simrt.EvSeq()
		c.msgs = append(c.msgs, m)
		if m.kind == tSignal || m.kind == tRequest {
			c.w.msgs[m.tok] = append(c.w.msgs[m.tok], m)
		}
		if m.kind != tSignal {
			c.byID[m.id] = m
		}
	}
	if c.ss != nil {
		simrt.Note("conn %d client sends %s", c.idx, describe(b))
		if m != nil {
			m.sentOK = true
		}
		c.ss.send(b, m)
		return
	}
	c.mem.out = append(c.mem.out, inItem{b: b, m: m})
	c.mem.q.Wake()
}

func (w *World) newID() (id [8]byte) {
	w.nextID++
	binary.LittleEndian.PutUint64(id[:], simrt.NewPRNG(w.nextID*77).Next())
	if w.nextID%5 == 0 {
		id = [8]byte{}
		binary.BigEndian.PutUint64(id[:], w.nextID)
	}
	return
}

// newID makes the identifier of a request on c. Identifiers are the client's
// business: other clients may use the same ones and answered ones may be used again.
func (c *Conn) newID() [8]byte {
	w := c.w
	switch w.idMode {
	case 2:
		if wi(3) == 0 {
			var old []*Msg
			for _, m := range c.msgs {
				if len(m.replies) == 1 && c.byID[m.id] == m && m.kind != tSignal {
					old = append(old, m)
				}
			}
			if len(old) > 0 && c.wfaults == 0 {
				simrt.Note("conn %d: identifier reused", c.idx)
				w.stat("reach.identifier reused")
				return old[wi(len(old))].id
			}
		}
		return w.newID()
	case 3:
		var id [8]byte
		binary.LittleEndian.PutUint64(id[:], c.idN)
		c.idN++
		return id
	}
	return w.newID()
}

// client performs a client operation on c.
func (w *World) client(o *op, c *Conn) {
	simrt.Yield()
	switch o.kind {
	case "sleep":
		simrt.Sleep(o.d)
		return
	case "dial":
		w.dial(w.newConn(o.lim, o.flag))
		return
	}
	if !c.accepted || c.clientGone {
		return
	}
	switch o.kind {
	case "msg":
		for i, m := range append([]*Msg{o.m}, o.more...) {
			if i > 0 {
				w.stat("reach.identical message")
				if !c.accepted || c.clientGone {
					return
				}
			}
			if m.kind == tSignal {
				c.send(w.libSignal(c, m, encSignal(m.name, m.enc, m.pay)), m)
			} else {
				m.id = c.newID()
				c.send(w.libRequest(c, m, encRequest(m.id, m.name, m.enc, m.pay)), m)
			}
		}
	case "restore":
		key := "nosuch"
		if o.tok != "" {
			key = o.tok
		} else if len(w.keys) > 0 && o.n >= 0 {
			key = w.keys[len(w.keys)-1-o.n%len(w.keys)]
		}
		if o.flag {
			key = varyKey(key, o.lim)
			if w.keyOf[key] == nil {
				w.stat("reach.restore of a near miss")
			}
		}
		w.asked[key] = true
		m := &Msg{kind: tRestore, id: c.newID(), key: key, tok: "restore " + key}
		if r := w.keyOf[key]; r != nil {
			m.ackDead = r.ackDead
			m.keyDead = r.destrSeq > 0 && r.destrRun == 0 && !r.hookFail && r.destroyed > 0
			if c.explicit && r.explicit == 0 {
				r.explicit = simrt.EvSeq()
			}
		}
		c.pot[key]++
		c.sessOps++
		w.ep.restores[key]++
		for k := range c.pot {
			if k != key {
				c.leaving = true // it may give up another session
			}
		}
		c.send(w.libSession(c, m, tRestore, encSimple(tRestore, m.id, key)), m)
	case "closereq":
		m := &Msg{kind: tCloseSession, id: c.newID(), tok: "close session"}
		w.markExplicit(c)
		c.send(w.libSession(c, m, tCloseSession, encSimple(tCloseSession, m.id, "")), m)
	case "heartbeat":
		c.send(w.libHeartbeat(c, []byte{tHeartbeat}), nil)
	case "odd":
		c.odd = true
		w.rawAsks(o.raw)
		c.send(o.raw, nil)
	case "garbage":
		c.garbage = true
		w.rawAsks(o.raw)
		c.end("protocol violation")
		w.stat("fault.garbage")
		if c.ss != nil {
			c.send(o.raw, nil)
		} else if len(o.raw) > 0 && len(o.raw) <= w.bufSize {
			c.mem.out = append(c.mem.out, inItem{b: o.raw, bad: true})
			c.mem.q.Wake()
		}
	case "fuzz":
		c.garbage = true
		w.rawAsks(o.raw)
		c.end("fuzz")
		w.markExplicit(c)
		w.stat("fault.fuzz")
		if c.ss != nil || len(o.raw) <= w.bufSize && len(o.raw) > 0 {
			c.send(o.raw, nil)
		}
	case "disc", "cut":
		w.disconnect(c, o.kind == "cut")
		if c.mem != nil && !w.faultsOff && wi(3) > 0 {
			n := w.freshConn()
			n.from = c
			a := actor{name: fmt.Sprintf("client %d", n.idx), c: n, ops: []*op{{kind: "dialself"}}}
			for i := wi(3); i > 0; i-- {
				a.ops = append(a.ops, w.genClient(n.idx, false))
			}
			w.spawn([]actor{a})
		}
	case "stall":
		w.stat("fault.stall")
		w.stall(c, o.d)
	case "lost":
		if c.ss != nil {
			w.stat("fault.halfopen")
			c.end("half-open")
			c.ss.lost = true
		}
	}
}

// rawAsks notes the session key that a raw frame asks for.
func (w *World) rawAsks(b []byte) {
	if len(b) > 9 && b[0] == tRestore {
		w.asked[string(b[9:])] = true
	}
}

// varyKey makes a key that is almost the given one.
func varyKey(k string, n int) string {
	switch n % 12 {
	case 0:
		return " " + k
	case 1:
		return k + " "
	case 2:
		return k + "\n"
	case 3:
		return k + "\x00"
	case 4:
		return strings.ToLower(k)
	case 5:
		return k + k
	case 6:
		return "\x00" + k
	case 7:
		return k + "/"
	case 8:
		return "./" + k
	case 9:
		return k + "%"
	case 10:
		return "\"" + k + "\""
	}
	return "\ufeff" + k
}

func (w *World) markExplicit(c *Conn) {
	c.explicit = true
	c.leaving = true
	c.sessOps++
	for k := range c.pot {
		if r := w.keyOf[k]; r != nil && r.explicit == 0 {
			r.explicit = simrt.EvSeq()
		}
	}
}

func (w *World) stall(c *Conn, d int64) {
	if c.ss != nil {
		c.ss.stalled = true
		simrt.After(d, func() { c.ss.stalled = false; c.ss.wq.Wake() })
	} else {
		c.mem.stalled = true
		simrt.After(d, func() { c.mem.stalled = false; c.mem.sq.Wake() })
	}
}

func (w *World) disconnect(c *Conn, cut bool) {
	if c.clientGone || !c.accepted {
		return
	}
	if cut {
		w.stat("fault.cut")
		c.end("client cut")
	} else {
		w.stat("fault.disconnect")
		c.end("client close")
	}
	c.clientGone = true
	simrt.Note("conn %d client goes away", c.idx)
	if c.ss != nil {
		var err error
		if cut {
			err = errors.New("connection reset by peer")
		}
		c.ss.lost = false
		c.ss.hangUp(err)
		return
	}
	if c.mem.over {
		return
	}
	if err := c.mem.sock.Close(); err != nil {
		w.viol("conn %d: closing the client socket failed: %v", []string{"C18"}, c.idx, err)
	}
}

// ---------------------------------------------------------------- server side

// admin performs a server-side operation; self is the handler's connection.
func (w *World) admin(o *op, self *Conn, who string) {
	simrt.Yield()
	c := self
	if o.n >= 0 && len(w.conns) > 0 {
		c = w.conns[o.n%len(w.conns)]
	}
	switch o.kind {
	case "srvclose":
		w.srvClose(o.n, o.tok)
		return
	case "queries":
		w.queries(o.n)
		return
	case "genkey":
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(keyPanic); !ok {
						panic(p)
					}
				}
			}()
			w.ks.generate(w.gen)
		}()
		return
	case "sleep":
		simrt.Sleep(o.d)
		return
	case "shutdown":
		w.shutdown()
		return
	case "yield":
		for i := o.n; i > 0; i-- {
			simrt.Yield()
		}
		return
	case "open gate":
		w.gateOpen = true
		w.gateQ.Wake()
		return
	}
	if c == nil {
		return
	}
	con := c.use()
	if con == nil {
		return
	}
	switch o.kind {
	case "signal":
		w.signal(o, c, con)
	case "create":
		w.create(o, c, con)
	case "closesess":
		w.markExplicit(c)
		wf := c.wfaults
		if err := con.CloseSession(); err != nil {
			w.apiErr(err, c.wfaults > wf)
			simrt.Note("CloseSession on %d: %v", c.idx, err)
			if c.healthy() && c.open() && c.wfaults == wf && w.sessOn && !w.shutBegun {
				w.viol("conn %d: CloseSession failed: %v", []string{"C13", "C12"}, c.idx, err)
			}
		}
	case "close":
		c.end("server close")
		c.closeCalled = true
		simrt.Note("Close of %d", c.idx)
		con.Close()
		if c.closeSeq == 0 {
			c.closeSeq = simrt.EvSeq()
		}
		if con.IsActive() {
			w.viol("conn %d is active after Close", []string{"C07"}, c.idx)
		}
		simrt.Note("Close of %d returned", c.idx)
	case "getters":
		for i, mask := 0, o.lim; i < 9; i++ {
			if mask == 0 || mask>>i&1 == 1 {
				w.getter(i, c, con)
			}
		}
		// The less synchronisation follows the better races show.
		if o.flag {
			simrt.Sleep(int64(o.n&7) * ms)
		}
	}
}

func (w *World) getter(i int, c *Conn, con wwr.Connection) {
	switch i {
	case 0:
		w.active(c, con)
	case 1:
		w.about(c, con, "now")
	case 2:
		var s *wwr.Session
		if w.guarded("Session", func() { s = con.Session() }); s != nil {
			w.fresh(c, s.Key, infoMap(s.Info))
			w.keep(s, c)
		}
	case 3:
		w.fresh(c, con.SessionKey(), nil)
	case 4:
		con.SessionCreation()
	case 5:
		w.field(c, con, "a")
	case 6:
		w.field(c, con, "nested")
	case 7:
		con.HasSession()
	case 8:
		if con.Info(7) != c.idx {
			w.viol("conn %d: Info is wrong", []string{"C35", "C08"}, c.idx)
		}
	}
}

func (w *World) field(c *Conn, con wwr.Connection, f string) {
	var v interface{}
	if w.guarded("SessionInfo", func() { v = con.SessionInfo(f) }) {
		return
	}
	w.fresh(c, "", map[string]interface{}{f: v})
	if w.parser == parseGeneric {
		scribble(v)
	}
}

// fresh looks for what others wrote to their copies.
func (w *World) fresh(c *Conn, key string, info map[string]interface{}) {
	if w.info && strings.Contains(key+canon(info), "scribble") {
		w.viol("conn %d: its session is %q with %s, someone wrote to what the server uses", []string{"C33"}, c.idx, key, canon(info))
	}
}

// kept is a session that was obtained from a connection, with what it was then.
type kept struct {
	s *wwr.Session
	c *Conn
	v sess
}

// keep overwrites a session obtained from a connection or keeps it to see whether
// it changes: what the accessors return is the caller's own copy.
func (w *World) keep(s *wwr.Session, c *Conn) {
	mine := func() interface{} {
		if u, ok := s.Info.(sinfo); ok {
			return map[string]interface{}(u) // Clone copies it
		}
		return infoMap(s.Info)
	}
	if w.info && wi(2) == 0 && len(w.kept) < 50 {
		w.kept = append(w.kept, kept{s, c, sess{s.Key, s.Creation, canon(infoMap(s.Info))}})
		w.stat("reach.session kept")
		return
	}
	scribble(mine())
	s.Key, s.Creation, s.LastLookup, s.Info = "scribble", time.Time{}, time.Time{}, nil
	w.stat("reach.session overwritten")
}

func (w *World) checkKept() {
	for _, k := range w.kept {
		if v := (sess{k.s.Key, k.s.Creation, canon(infoMap(k.s.Info))}); !v.equal(&k.v) {
			w.viol("conn %d: the session it returned was %s, is now %s", []string{"C33"}, k.c.idx, &k.v, &v)
		}
	}
}

// scribble overwrites all the data it can reach.
func scribble(v any) {
	switch x := v.(type) {
	case map[string]interface{}:
		if x == nil {
			return
		}
		for _, k := range x {
			scribble(k)
		}
		x["scribble"] = true
		delete(x, "k")
	case []interface{}:
		for i := range x {
			scribble(x[i])
			x[i] = "scribble"
		}
	case []map[string]interface{}:
		for i := range x {
			scribble(x[i])
			x[i] = nil
		}
	case []string:
		for i := range x {
			x[i] = "scribble"
		}
	case []byte:
		for i := range x {
			x[i] = 'X'
		}
	case []float64:
		for i := range x {
			x[i] = -7
		}
	case map[string]string:
		x["p"], x["scribble"] = "scribble", "x"
	case [][]int:
		for i := range x {
			for j := range x[i] {
				x[i][j] = -1
			}
			x[i] = nil
		}
	case map[string][]string:
		for k := range x {
			scribble(x[k])
			delete(x, k)
		}
	}
}

func (w *World) signal(o *op, c *Conn, con wwr.Connection) {
	if w.sigs[o.tok] != nil { // a hook's script runs once per connection
		tok := w.tok("H")
		o = &op{tok: tok, name: []byte(tok + "."), flag: true, rep: o.rep}
	}
	for i := 0; i <= o.rep; i++ {
		if i > 0 {
			w.stat("reach.identical signal")
		}
		w.signal1(o, c, con)
	}
}

// apiErr notes an error that was returned to a caller.
func (w *World) apiErr(err error, faults bool) {
	if s := err.Error(); faults || injText.MatchString(s) {
		w.reported(s)
	}
}

func (w *World) signal1(o *op, c *Conn, con wwr.Connection) {
	s := &SigCall{tok: o.tok, c: c, caller: fmt.Sprint(simrt.CurG()), enc: o.enc, name: o.name, pay: o.pay, valid: o.flag}
	s.num = int(simrt.EvSeq())
	s.wf0 = c.wfaults
	w.sigs[o.tok] = append(w.sigs[o.tok], s)
	dead := !c.open()
	clean0 := c.healthy()
	err := con.Signal(o.name, wwr.Payload{Encoding: payload.Encoding(o.enc), Data: o.pay})
	s.err, s.done = err, true
	simrt.Note("Signal %s on %d: %v", o.tok, c.idx, err)
	if err != nil {
		w.apiErr(err, c.wfaults > s.wf0)
	}
	if err == nil && dead {
		w.viol("conn %d: Signal on a closed connection succeeded", []string{"C07"}, c.idx)
	}
	if err == nil && !s.valid {
		w.viol("conn %d: an invalid signal was accepted: name %q, %d bytes of payload, encoding %d",
			[]string{"C03", "C22"}, c.idx, o.name, len(o.pay), o.enc)
	}
	if err != nil && s.valid && clean0 && c.healthy() && !w.shutBegun && c.wfaults == s.wf0 {
		w.viol("conn %d: a valid signal failed on a healthy connection: %v", []string{"C03", "C22", "C18"}, c.idx, err)
	}
	s.owed = err == nil
}

func (w *World) create(o *op, c *Conn, con wwr.Connection) {
	g := simrt.CurG()
	cc := &createCall{c: c}
	old := w.creating[g]
	w.creating[g] = cc
	c.sessOps++
	free := len(c.pot) == 0
	wf := c.wfaults
	dead := !c.open()
	healthy := c.healthy()
	var att wwr.SessionInfo
	if o.info != nil {
		att = o.info
		if w.parser == parseGeneric {
			att = wwr.GenericSessionInfoParser(o.info)
		}
	}
	err := w.createSession(con, cc, att)
	w.creating[g] = old
	simrt.Note("CreateSession on %d: %v (key %s)", c.idx, err, cc.key)
	if err != nil {
		w.apiErr(err, c.wfaults > wf)
	}
	if err == nil && dead {
		w.viol("conn %d: CreateSession on a closed connection succeeded", []string{"C07", "C10"}, c.idx)
	}
	if err == nil && !w.sessOn {
		w.viol("conn %d: CreateSession succeeded with sessions disabled", []string{"C13"}, c.idx)
	}
	if err == nil {
		r := w.keyOf[cc.key]
		if r == nil {
			w.viol("conn %d: CreateSession succeeded without a key", []string{"C13"}, c.idx)
			return
		}
		if cc.hooks != 1 {
			w.viol("session %s was created but its created hook ran %d times", []string{"C12"}, cc.key, cc.hooks)
		}
		r.created = true
		r.info = canon(o.info)
	}
	if err != nil && !cc.genFailed && free && healthy && c.healthy() && w.sessOn && !w.shutBegun && c.wfaults == wf &&
		(len(c.pot) == 0 || len(c.pot) == 1 && c.pot[cc.key] > 0) && len(canon(o.info)) < 40 &&
		w.bufSize >= 160 {
		w.viol("conn %d: CreateSession failed on a healthy connection without a session: %v",
			[]string{"C13", "C10"}, c.idx, err)
	}
}

func (w *World) srvClose(n int, key string) {
	if key != "" {
	} else if key = "nosuch"; len(w.keys) > 0 && n >= 0 {
		key = w.keys[len(w.keys)-1-n%len(w.keys)]
	}
	w.ep.srvClose[key] = true
	r := w.keyOf[key]
	if r != nil && r.explicit == 0 {
		r.explicit = simrt.EvSeq()
	}
	for _, c := range w.conns {
		if c.pot[key] > 0 {
			c.leaving = true
		}
	}
	// A running handler keeps its connection's session in use, even if the
	// connection is being closed already.
	pinned := map[*Conn]int{}
	w.ep.srvCloses++
	steady := func() bool {
		if r == nil || r.epoch == w.epN || len(w.ep.restores) > 0 || w.ep.srvCloses > 1 {
			return false
		}
		for c := range pinned {
			if c.sessOps > 0 {
				return false
			}
		}
		return true
	}
	if steady() {
		for _, c := range w.conns {
			con := c.use()
			if con == nil || con.SessionKey() != key {
				continue
			}
			if pinned[c] = c.idleGen; c.running == 0 {
				pinned = nil
				break
			}
		}
	}
	// Whoever has had the session since before this epoch, without anything
	// happening to it, must lose it now.
	var steadies []*Conn
	quiet := func(c *Conn) bool {
		return c.heldAtRest == key && c.sessOps == 0 && c.healthy() && w.ep.srvCloses == 1 && !w.shutBegun
	}
	for _, c := range w.conns {
		if quiet(c) {
			steadies = append(steadies, c)
		}
	}
	simrt.Note("CloseSession(%s)", key)
	wf0 := w.wfaults
	cons, errs, err := w.srv.CloseSession(key)
	simrt.Note("CloseSession(%s): %d connections, %v", key, len(cons), err)
	still := len(pinned) > 0 && steady()
	closing := false
	for c, gen := range pinned {
		still = still && c.running > 0 && c.idleGen == gen
		closing = closing || len(c.ends) > 0
	}
	if still {
		w.stat("reach.session closed under running handlers")
		r.must = "CloseSession was called while handlers were running on every connection that holds it"
		if closing {
			w.stat("reach.session closed on closing connections")
		}
	}
	if len(errs) != len(cons) {
		w.viol("CloseSession(%s): %d connections but %d results", []string{"C12"}, key, len(cons), len(errs))
	}
	for _, x := range cons {
		if x == nil {
			w.viol("CloseSession(%s): there's no connection among the affected ones", []string{"C12", "C10"}, key)
		}
	}
	n = 0
	for i, e := range errs {
		if e == nil {
			continue
		}
		n++
		w.apiErr(e, w.wfaults > wf0)
		if c, _ := cons[i].Info(1).(*Conn); c != nil && c.clean() && !w.shutBegun {
			w.viol("CloseSession(%s) failed on healthy conn %d: %v", []string{"C12"}, key, c.idx, e)
		}
	}
	if (n > 0) != (err != nil) {
		w.viol("CloseSession(%s): %d failures but error %v", []string{"C12"}, key, n, err)
	}
	for _, x := range cons {
		if c, _ := x.Info(1).(*Conn); c != nil && c.pot[key] == 0 {
			w.viol("CloseSession(%s) affected conn %d, which never had it", []string{"C10", "C12"}, key, c.idx)
		}
	}
	for _, c := range steadies {
		con, listed := c.use(), false
		for _, x := range cons {
			listed = listed || x == con
		}
		k := con.SessionKey()
		if !quiet(c) {
			continue
		}
		w.stat("reach.session closed for a steady connection")
		if !listed || k == key {
			w.viol("CloseSession(%s) returned, but conn %d, which had it all the time, still has %q (listed as affected: %v)", []string{"C12", "C10"}, key, c.idx, k, listed)
		}
	}
	if key == "nosuch" && (len(cons) > 0 || err != nil || cons != nil) {
		w.viol("CloseSession of an unknown key: %v %v", []string{"C12", "C10"}, cons, err)
	}
}

func (w *World) queries(n int) {
	if n < 0 {
		n = 0
	}
	w.srv.ActiveSessionsNum()
	if len(w.keys) > 0 {
		key := w.keys[len(w.keys)-1-n%len(w.keys)]
		max := w.srv.SessionConnectionsNum(key)
		if w.maxConns > 0 && max > w.maxConns {
			w.viol("session %s has %d connections, the limit is %d", []string{"C11"}, key, max, w.maxConns)
		}
		if max == 0 {
			w.viol("session %s is listed with no connections", []string{"C10"}, key)
		}
		l := w.srv.SessionConnections(key)
		for i, x := range l {
			if x == nil {
				w.viol("SessionConnections(%s) lists nil, someone wrote to what the server uses", []string{"C10", "C33"}, key)
			}
			x.SessionKey()
			x.IsActive()
			l[i] = nil // the list is ours
		}
	}
}

func (w *World) shutdown() {
	w.shutBegun = true
	w.shutCalls++
	simrt.Note("Shutdown begins")
	for _, c := range w.conns {
		if c.accepted {
			c.end("shutdown")
		}
	}
	var mems []*Conn
	for _, c := range w.conns {
		if c.mem != nil && c.accepted {
			mems = append(mems, c)
		}
	}
	err := w.srv.Shutdown()
	simrt.Note("Shutdown returns %v", err)
	for _, c := range mems {
		if c.open() {
			w.viol("Shutdown returned but conn %d is still open", []string{"C05"}, c.idx)
		}
	}
	if err != nil && (w.net == nil || w.net.shutErrs == 0) {
		w.viol("Shutdown failed: %v", []string{"C05"}, err)
	}
	w.shutReturns++
	w.shutDoneSeq = simrt.EvSeq()
	if w.shutSure == 0 {
		w.shutSure = w.shutDoneSeq
	}
	if w.running > 0 {
		w.viol("Shutdown returned while %d handlers are running", []string{"C05"}, w.running)
	}
	for _, c := range w.conns {
		if c.ss == nil || c.faulty || c.garbage || c.clientGone || c.ss.lost || c.ss.broken {
			continue
		}
		for _, m := range c.msgs {
			if m.kind == tRequest && m.startN > 0 && m.txN == 0 && !c.stallable() {
				w.viol("Shutdown returned but the reply to %s has not been sent on conn %d", []string{"C05"}, m.tok, c.idx)
			}
		}
	}
}

func (c *Conn) stallable() bool { return c.ss != nil && c.ss.stalled }
