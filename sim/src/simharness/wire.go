// Package simharness runs the translated webwire-go under the simulator: a
// simulated network, workloads, fault injection and the oracles of every
// property.
package simharness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// The wire format, written down independently of the code under test.
const (
	tErr          = 0
	tShutdown     = 1
	tInternal     = 2
	tNotFound     = 3
	tMaxConns     = 4
	tDisabled     = 5
	tSessCreated  = 21
	tSessClosed   = 22
	tConf         = 23
	tCloseSession = 31
	tRestore      = 32
	tHeartbeat    = 33
	tSignal       = 63
	tRequest      = 127
	tReply        = 191
)

const (
	encBin = iota
	encUtf8
	encUtf16
)

// frame is a decoded message.
type frame struct {
	Type    int // base type: signal, request and reply have Enc added on the wire
	Enc     int
	ID      [8]byte
	HasID   bool
	Name    []byte
	Payload []byte // payload, error message, session JSON, restore key
	Code    string
	Conf    confMsg
}

type confMsg struct {
	Major, Minor byte
	TimeoutMs    uint32
	BufSize      uint32
	Sub          string
}

func needPad(enc, nameLen int) bool { return enc == encUtf16 && nameLen%2 != 0 }

func encSignal(name []byte, enc int, payload []byte) []byte {
	b := []byte{byte(tSignal + enc), byte(len(name))}
	b = append(b, name...)
	if needPad(enc, len(name)) {
		b = append(b, 0)
	}
	return append(b, payload...)
}

func encRequest(id [8]byte, name []byte, enc int, payload []byte) []byte {
	b := append([]byte{byte(tRequest + enc)}, id[:]...)
	b = append(b, byte(len(name)))
	b = append(b, name...)
	if needPad(enc, len(name)) {
		b = append(b, 0)
	}
	return append(b, payload...)
}

func encSimple(t int, id [8]byte, rest string) []byte {
	b := append([]byte{byte(t)}, id[:]...)
	return append(b, rest...)
}

// decode parses a server-sent frame strictly.
func decode(b []byte) (f frame, err error) {
	if len(b) == 0 {
		return f, fmt.Errorf("empty frame")
	}
	t := int(b[0])
	id := func() bool {
		if len(b) < 9 {
			err = fmt.Errorf("frame of type %d too short (%d bytes)", t, len(b))
			return false
		}
		copy(f.ID[:], b[1:9])
		f.HasID = true
		return true
	}
	f.Type = t
	switch {
	case t == tErr:
		if !id() {
			return
		}
		if len(b) < 11 {
			return f, fmt.Errorf("error reply too short (%d bytes)", len(b))
		}
		n := int(b[9])
		if n < 1 || 10+n > len(b) {
			return f, fmt.Errorf("error reply with code length %d in %d bytes", n, len(b))
		}
		f.Code = string(b[10 : 10+n])
		for i := 0; i < n; i++ {
			if c := f.Code[i]; c < 32 || c > 126 {
				return f, fmt.Errorf("error code has an unprintable character")
			}
		}
		f.Payload = b[10+n:]
	case t >= tShutdown && t <= tDisabled:
		if !id() {
			return
		}
		if len(b) != 9 {
			return f, fmt.Errorf("special reply of type %d with %d bytes", t, len(b))
		}
	case t == tSessCreated:
		f.Payload = b[1:]
		if _, e := decSession(f.Payload); e != nil {
			return f, e
		}
	case t == tSessClosed:
		if len(b) != 1 {
			return f, fmt.Errorf("session-closed notification with %d bytes", len(b))
		}
	case t == tConf:
		if len(b) < 11 {
			return f, fmt.Errorf("configuration message with %d bytes", len(b))
		}
		f.Conf = confMsg{b[1], b[2], binary.LittleEndian.Uint32(b[3:]), binary.LittleEndian.Uint32(b[7:]), string(b[11:])}
	case t >= tSignal && t <= tSignal+2:
		f.Type, f.Enc = tSignal, t-tSignal
		if len(b) < 3 {
			return f, fmt.Errorf("signal with %d bytes", len(b))
		}
		n := int(b[1])
		at := 2 + n
		if needPad(f.Enc, n) {
			at++
		}
		if at > len(b) {
			return f, fmt.Errorf("signal with name length %d in %d bytes", n, len(b))
		}
		f.Name, f.Payload = b[2:2+n], b[at:]
		if f.Enc == encUtf16 && len(f.Payload)%2 != 0 {
			return f, fmt.Errorf("UTF-16 signal with odd payload")
		}
		for _, c := range f.Name {
			if c < 32 || c > 126 {
				return f, fmt.Errorf("signal name has an unprintable character")
			}
		}
	case t >= tReply && t <= tReply+2:
		f.Type, f.Enc = tReply, t-tReply
		if !id() {
			return
		}
		at := 9
		if f.Enc == encUtf16 {
			at++
		}
		if at > len(b) {
			return f, fmt.Errorf("reply with %d bytes", len(b))
		}
		f.Payload = b[at:]
		if f.Enc == encUtf16 && len(f.Payload)%2 != 0 {
			return f, fmt.Errorf("UTF-16 reply with odd payload")
		}
	default:
		return f, fmt.Errorf("unexpected frame type %d (%d bytes)", t, len(b))
	}
	return f, nil
}

// sess is what a client knows of its session.
type sess struct {
	Key      string
	Creation time.Time
	Info     string // canonical JSON
}

func decSession(b []byte) (*sess, error) {
	var v struct {
		K *string                `json:"k"`
		C *time.Time             `json:"c"`
		L *time.Time             `json:"l"`
		I map[string]interface{} `json:"i"`
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber() // clients may be written in languages with large integers
	if err := d.Decode(&v); err != nil || d.More() {
		return nil, fmt.Errorf("session object is not valid JSON: %v", err)
	}
	if v.K == nil || v.C == nil || v.L == nil || *v.K == "" {
		return nil, fmt.Errorf("session object is incomplete: %q", b)
	}
	for k, x := range v.I {
		v.I[k] = number(x)
	}
	return &sess{*v.K, *v.C, canon(v.I)}, nil
}

// number turns literals into numbers where that loses nothing.
func number(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if f, err := x.Float64(); err == nil && (f > -1<<53 && f < 1<<53 || strings.ContainsAny(x.String(), ".eE")) {
			return f
		}
	case map[string]interface{}:
		for k, e := range x {
			x[k] = number(e)
		}
	case []interface{}:
		for i, e := range x {
			x[i] = number(e)
		}
	}
	return v
}

func canon(m map[string]interface{}) string {
	if len(m) == 0 {
		return ""
	}
	b, err := json.Marshal(m)
	if err != nil {
		return "unencodable:" + err.Error()
	}
	return string(b)
}

func (s *sess) equal(o *sess) bool {
	if s == nil || o == nil {
		return s == o
	}
	return s.Key == o.Key && s.Creation.Equal(o.Creation) && s.Info == o.Info
}

func (s *sess) String() string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%s created %s info %s", s.Key, s.Creation.UTC().Format(time.RFC3339Nano), s.Info)
}

// utf16Text decodes valid UTF-16 (little endian).
func utf16Text(b []byte) ([]byte, bool) {
	var out []byte
	for i := 0; i+1 < len(b); i += 2 {
		r := rune(b[i]) | rune(b[i+1])<<8
		switch {
		case r >= 0xD800 && r < 0xDC00 && i+3 < len(b):
			l := rune(b[i+2]) | rune(b[i+3])<<8
			if l < 0xDC00 || l > 0xDFFF {
				return nil, false
			}
			r = 0x10000 + (r-0xD800)<<10 + (l - 0xDC00)
			i += 2
		case r >= 0xD800 && r < 0xE000:
			return nil, false
		}
		out = append(out, string(r)...)
	}
	return out, true
}
