package simharness

import (
	"errors"
	"fmt"
	"simrt"
	"simshim/crypto/rand"
	"strings"

	wwr "github.com/qbeon/webwire-go"
)

// keySource is the entropy source of a run with generated keys: it counts what
// it delivers, may fail, and may deliver data that is almost always the same.
type keySource struct {
	w        *World
	same     bool // only few bytes differ between two reads
	fail     bool // failures may be injected
	calls    int
	total    int         // delivered so far
	got      map[int]int // delivered since the beginning of the goroutine's generation
	failed   map[int]bool
	keys     map[string]bool
	n        int // keys generated so far
	injected int
}

func (w *World) newKeySource() *keySource {
	k := &keySource{w: w, same: wi(2) == 0, fail: wi(3) > 0, got: map[int]int{}, failed: map[int]bool{}, keys: map[string]bool{}}
	rand.Source = k.read
	return k
}

func (k *keySource) read(b []byte) (int, error) {
	simrt.Yield()
	g := simrt.CurG()
	if _, in := k.got[g]; in && k.fail && !k.w.faultsOff && simrt.FaultStream().Chance(1, 4) {
		n := simrt.FaultStream().Intn(17)
		if n > len(b)-1 {
			n = len(b) - 1
		}
		if n < 0 {
			n = 0
		}
		k.failed[g] = true
		k.injected++
		k.w.stat("fault.entropy source failed")
		return n, errors.New("no entropy")
	}
	k.calls++
	if k.same {
		// At least 256 bits have to count, hence at least one of these bytes does.
		at, l := 0, len(b)
		if l >= 32 {
			l -= 31
			at = k.calls * 7 % 32
		}
		for i := range b {
			b[i] = byte(i * 37)
		}
		for i := 0; i < l; i++ {
			b[at+i] ^= byte(k.calls)
		}
	} else {
		for i := range b {
			b[i] = byte(simrt.Rand64())
		}
	}
	k.total += len(b)
	if _, in := k.got[g]; in {
		k.got[g] += len(b)
	}
	simrt.Yield()
	return len(b), nil
}

// generate obtains a key from the default generator.
func (k *keySource) generate(gen wwr.SessionKeyGenerator) (key string) {
	w, g := k.w, simrt.CurG()
	k.got[g], k.failed[g] = 0, false
	done := false
	defer func() {
		got, failed := k.got[g], k.failed[g]
		delete(k.got, g)
		delete(k.failed, g)
		if p := recover(); p != nil {
			if !failed {
				w.viol("the session key generator panicked: %v", []string{"C34"}, p)
			}
			w.stat("reach.no session key without entropy")
			panic(keyPanic{p})
		}
		if !done {
			return
		}
		if failed && key == "" {
			return
		}
		k.n++
		if k.keys[key] {
			w.viol("the session key %q was generated twice", []string{"C34"}, key)
		}
		k.keys[key] = true
		if got < 32 && (failed || k.total < 32*k.n) {
			w.viol("a session key was generated from %d bytes of entropy (reading failed: %v)", []string{"C34"}, got, failed)
		}
		if len(key) < 32 || strings.Trim(key, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~=") != "" {
			w.viol("the generated session key %q is too short or not URL-safe", []string{"C34"}, key)
		}
		w.stat("reach.session key generated")
	}()
	key = gen.Generate()
	done = true
	return
}

// keyPanic is a panic of a key generator that was provoked.
type keyPanic struct{ v interface{} }

func (p keyPanic) String() string { return fmt.Sprint(p.v) }

var errPanicked = errors.New("user code panicked")

var errNoKey = errors.New("the key generator failed")

// createSession calls CreateSession as an application that survives failures
// of the key generator.
func (w *World) createSession(con wwr.Connection, cc *createCall, att wwr.SessionInfo) (err error) {
	if w.ks == nil {
		if w.guarded("CreateSession", func() { err = con.CreateSession(att) }) {
			if err = errPanicked; cc.hooks > 0 {
				// It was the created hook: the session exists.
				w.keyOf[cc.key].smFault = true
				err = nil
			}
			cc.genFailed = true
		}
		return
	}
	done := false
	defer func() {
		if !cc.genFailed {
			return
		}
		p := recover()
		if p == nil && !done {
			return
		}
		if p != nil {
			simrt.Note("CreateSession on %d: panic: %v", cc.c.idx, p)
			err = errNoKey
		}
		if err == nil && cc.key == "" {
			w.viol("conn %d: a session was created though the key generator failed", []string{"C34"}, cc.c.idx)
			err = errNoKey
		}
		w.stat("reach.session creation without key")
	}()
	err = con.CreateSession(att)
	done = true
	return
}
