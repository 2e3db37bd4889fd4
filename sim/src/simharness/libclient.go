package simharness

import (
	"bytes"
	"errors"
	"io"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/payload"
)

// The clients have a wire format of their own; in addition they use the
// library's, as real clients do, and compare.

// libWriter is a client's writer that fails at its failAt-th operation.
type libWriter struct {
	buf    []byte
	ops    int
	failAt int
	failed bool
	closed int
}

func (l *libWriter) step() error {
	if l.ops++; l.ops == l.failAt {
		l.failed = true
		return errors.New("write failure")
	}
	return nil
}

func (l *libWriter) Write(b []byte) (int, error) {
	if err := l.step(); err != nil {
		return 0, err
	}
	l.buf = append(l.buf, b...)
	return len(b), nil
}

func (l *libWriter) Close() error {
	l.closed++
	return l.step()
}

// lib writes a client's message by the library's means, want is the frame.
func (w *World) lib(c *Conn, want []byte, what string, props []string, write func(io.WriteCloser) error) []byte {
	w.libN++
	if w.libN%4 == 0 {
		l := &libWriter{failAt: 1 + w.libN/4%7}
		err := write(l)
		if l.closed != 1 {
			w.viol("conn %d: writing a client's %s with a writer that fails at operation %d closed it %d times", []string{"C22"},
				c.idx, what, l.failAt, l.closed)
		}
		if l.failed != (err != nil) {
			w.viol("conn %d: writing a client's %s with a writer that fails at operation %d: error %v", []string{"C22"},
				c.idx, what, l.failAt, err)
		}
	}
	l := &libWriter{}
	err := write(l)
	if err != nil || l.closed != 1 || !bytes.Equal(l.buf, want) {
		w.viol("conn %d: the library writes a client's %s as %x (error %v, writer closed %d times), want %x", props,
			c.idx, what, l.buf, err, l.closed, want)
		return want
	}
	return l.buf
}

func (w *World) libRequest(c *Conn, m *Msg, want []byte) []byte {
	return w.lib(c, want, "request", []string{"C01"}, func(wr io.WriteCloser) error {
		return message.WriteMsgRequest(wr, m.id[:], m.name, payload.Encoding(m.enc), m.pay, false)
	})
}

func (w *World) libSignal(c *Conn, m *Msg, want []byte) []byte {
	return w.lib(c, want, "signal", []string{"C03"}, func(wr io.WriteCloser) error {
		return message.WriteMsgSignal(wr, m.name, payload.Encoding(m.enc), m.pay, false)
	})
}

func (w *World) libSession(c *Conn, m *Msg, t byte, want []byte) []byte {
	return w.lib(c, want, "session request", []string{"C01", "C13"}, func(wr io.WriteCloser) error {
		return message.WriteMsgNamelessRequest(wr, t, m.id[:], []byte(m.key))
	})
}

func (w *World) libHeartbeat(c *Conn, want []byte) []byte {
	return w.lib(c, want, "heartbeat", []string{"C09", "C01"}, message.WriteMsgHeartbeat)
}

// pieces is a stream that delivers b in pieces.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.n
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(b, p.b[:n])
	p.b = p.b[n:]
	return n, nil
}

// libParse reads a frame the client received, which is f, by the library's means.
func (w *World) libParse(c *Conn, b []byte, f frame) {
	props := []string{"C01"}
	switch f.Type {
	case tSignal:
		props = []string{"C03"}
	case tConf:
		props = []string{"C08"}
	case tSessCreated, tSessClosed:
		props = []string{"C13"}
	}
	m := message.NewMessage(uint32(w.bufSize))
	var ok bool
	var err error
	if c.rxN%3 == 0 {
		ok, err = m.ReadBytes(b)
	} else {
		ok, err = m.Read(&pieces{append([]byte(nil), b...), 1 + c.rxN*5%37})
	}
	bad := func(what string, got, want interface{}) {
		w.viol("conn %d: the library's client reads a wrong %s from %s: %v, want %v", props, c.idx, what, describe(b), got, want)
	}
	if err != nil || !ok {
		bad("message", err, "none")
		return
	}
	if m.MsgType != b[0] {
		bad("type", m.MsgType, b[0])
	}
	if f.HasID && (m.MsgIdentifier != f.ID || !bytes.Equal(m.MsgIdentifierBytes, f.ID[:])) {
		bad("identifier", m.MsgIdentifier, f.ID)
	}
	switch f.Type {
	case tErr:
		if string(m.MsgName) != f.Code {
			bad("error code", string(m.MsgName), f.Code)
		}
	case tSignal:
		if !bytes.Equal(m.Name(), f.Name) {
			bad("name", m.Name(), f.Name)
		}
	case tConf:
		s := m.ServerConfiguration
		g := confMsg{s.MajorProtocolVersion, s.MinorProtocolVersion, uint32(s.ReadTimeout.Milliseconds()), s.MessageBufferSize, string(s.SubProtocolName)}
		if g != f.Conf {
			bad("configuration", g, f.Conf)
		}
	}
	if f.Type == tConf {
		return
	}
	if !bytes.Equal(m.Payload(), f.Payload) {
		bad("payload", m.Payload(), f.Payload)
	}
	if f.Type != tSignal && f.Type != tReply {
		return
	}
	if int(m.PayloadEncoding()) != f.Enc {
		bad("encoding", m.PayloadEncoding(), f.Enc)
	}
	want, valid := f.Payload, true
	if f.Enc == encUtf16 {
		want, valid = utf16Text(f.Payload)
	}
	if u, err := m.PayloadUtf8(); valid && (err != nil || !bytes.Equal(u, want)) {
		bad("UTF-8 payload", u, want)
	}
}
