package simharness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"simrt"

	"github.com/qbeon/webwire-go/message"
)

// Message framing (C20): streams that arrive in arbitrary pieces, with empty
// reads, data together with the end or an error, and failures at any byte.

func init() { reg(&Scenario{Name: "stream", Main: runStream}) }

var c20 = []string{"C20"}

var errStream = errors.New("injected stream failure")

// streamErrs are the errors a stream may break with.
var streamErrs = []error{errStream, errStream, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer,
	io.ErrShortWrite, fmt.Errorf("wrapped: %w", io.EOF), timeoutErr{}}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type pieceReader struct {
	b       []byte
	failAt  int // fail once this many bytes were handed out (-1: never)
	withErr bool
	mode    int
	empties int
	reads   int
	ended   bool
	after   int
	err     error
}

func (c *pieceReader) Read(p []byte) (int, error) {
	simrt.Yield()
	f := simrt.FaultStream()
	c.reads++
	if c.ended {
		c.after++
		if c.failAt >= 0 {
			return 0, c.err
		}
		return 0, io.EOF
	}
	if c.empties > 0 && f.Intn(4) == 0 {
		c.empties--
		Stats["fault.empty read"]++
		return 0, nil
	}
	rest := c.b
	end := error(io.EOF)
	if c.failAt >= 0 {
		end = c.err
		if c.failAt < len(rest) {
			rest = rest[:c.failAt]
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(rest) == 0 {
		c.ended = true
		if end != io.EOF {
			Stats["fault.stream failure"]++
		}
		return 0, end
	}
	n := len(rest)
	switch c.mode {
	case 0:
	case 1:
		n = 1
	default:
		n = 1 + f.Intn(n)
	}
	if n > len(p) {
		n = len(p)
	}
	if n < len(rest) {
		Stats["fault.short read"]++
	}
	copy(p, rest[:n])
	c.b = c.b[n:]
	if c.failAt >= 0 {
		c.failAt -= n
	}
	if n == len(rest) && c.withErr {
		c.ended = true
		Stats["fault.data with end"]++
		return n, end
	}
	return n, nil
}

type parsed struct {
	typed          bool
	failed         bool
	typ            byte
	id             [8]byte
	name, pld, buf string
	enc            byte
	idBytes, conf  string
}

// view is what a caller may look at after reading a message.
func view(m *message.Message, typed bool, err error) parsed {
	p := parsed{typed: typed, failed: err != nil}
	if typed && err == nil {
		p.typ, p.id, p.name, p.enc = m.MsgType, m.MsgIdentifier, string(m.MsgName), byte(m.MsgPayload.Encoding)
		p.pld, p.buf = string(m.MsgPayload.Data), string(m.MsgBuffer.Data())
		if p.idBytes = string(m.MsgIdentifierBytes); p.idBytes == string(make([]byte, 8)) {
			p.idBytes = ""
		}
		c := m.ServerConfiguration
		p.conf = fmt.Sprint(c.MajorProtocolVersion, c.MinorProtocolVersion, string(c.SubProtocolName), c.ReadTimeout, c.MessageBufferSize)
	}
	return p
}

// streamFrame makes one frame of about n bytes.
func streamFrame(i, n int) []byte {
	if n < 1 {
		return nil
	}
	var id [8]byte
	copy(id[:], fill(fmt.Sprint("id", i), 8, false))
	var f []byte
	switch wi(10) {
	case 8:
		f = []byte{tConf, 2, 0, 1, 2, 3, 0, 4, 5, 6, 0}
	case 9:
		f = []byte{tSignal, 0}
	case 0:
		f = []byte{tHeartbeat}
	case 1:
		f = append([]byte{byte(tSignal + wi(2)), 3}, "sig"...)
	case 2:
		f = append([]byte{tRequest}, id[:]...)
		f = append(f, 2, 'r', 'q')
	case 3:
		f = append([]byte{tReply}, id[:]...)
	case 4:
		f = append([]byte{tRestore}, id[:]...)
	case 5:
		f = append([]byte{tRequest + 2}, id[:]...)
		f = append(f, 3, 'r', 'q', 's', 0)
	case 6:
		f = append([]byte{tErr}, id[:]...)
		f = append(f, 3, 'E', 'R', 'R')
	default:
		f = []byte{byte(wi(256))}
	}
	if len(f) < n {
		f = append(f, fill(fmt.Sprint("fill", i), n-len(f), true)...)
	}
	return f[:n:n]
}

func runStream() {
	size := []int{32, 64, 17, 300, 1024}[wi(5)]
	pool := message.NewSyncPool(uint32(size), 0)
	// A message that's read into again and again without being closed.
	var own *message.Message
	if wi(3) == 0 {
		own = message.NewMessage(uint32(size))
	}
	for i := 1 + wi(6); i > 0; i-- {
		n := 1 + wi(size+8)
		switch wi(5) {
		case 0:
			n = size
		case 1:
			n = size + 1 + wi(3*size)
		case 2:
			n = size - wi(2)
		}
		if wi(25) == 0 {
			n = 0
		}
		b := streamFrame(i, n)
		r := &pieceReader{b: append([]byte(nil), b...), failAt: -1, withErr: pct(50), mode: wi(3), empties: wi(4)}
		r.err = streamErrs[wi(len(streamErrs))]
		if wi(4) == 0 {
			r.failAt = wi(n + 1)
			if n > size && wi(2) == 0 {
				r.failAt = size + wi(2)
			}
		}
		failing := r.failAt >= 0
		m := own
		if m == nil {
			m = pool.Get()
		} else {
			Stats["reach.message object used again"]++
		}
		var typed bool
		var err error
		if !failing && wi(5) == 0 {
			typed, err = m.ReadBytes(append([]byte(nil), b...))
		} else {
			typed, err = m.Read(r)
		}
		got := view(m, typed, err)
		simrt.Note("read %d of %d bytes, failing=%v mode=%d: %+v", n, size, failing, r.mode, got.typed)
		switch {
		case failing || n > size:
			if err == nil {
				what := fmt.Sprintf("a message of %d bytes for a buffer of %d", n, size)
				if failing {
					what = "a message whose stream failed midway"
				}
				simrt.Fail("check", c20, "%s was accepted (type parsed %v, type %d)", what, typed, m.MsgType)
			}
			if typed {
				simrt.Fail("check", c20, "a message of %d bytes (buffer %d, failing %v) was delivered in part", n, size, failing)
			}
			if len(m.MsgBuffer.Data()) != 0 {
				simrt.Fail("check", c20, "%d bytes of a refused message are left in the buffer", len(m.MsgBuffer.Data()))
			}
			Stats["reach.refused message"]++
		default:
			// The same bytes in one piece, into a fresh message.
			ref := message.NewMessage(uint32(size) + 64)
			rt, re := ref.Read(bytes.NewReader(b))
			want := view(ref, rt, re)
			if got != want {
				simrt.Fail("check", c20, "%d bytes (buffer %d) read in pieces gave %+v (%v), in one piece %+v (%v)", n, size, got, err, want, re)
			}
			if n > 0 && got.typed && !got.failed && got.buf != string(b) {
				simrt.Fail("check", c20, "the buffer of a read message doesn't hold its bytes")
			}
			if n == size {
				Stats["reach.full buffer"]++
			}
			Stats["reach.read message"]++
		}
		if own == nil || wi(4) == 0 {
			m.Close()
		}
	}
}
