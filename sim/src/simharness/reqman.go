package simharness

import (
	"bytes"
	"errors"
	"fmt"
	"simrt"
	"simshim/context"
	"simshim/time"
	"strings"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	reqman "github.com/qbeon/webwire-go/requestManager"
)

// The request manager (C19): concurrent creators, awaiters, completers with
// duplicate and late completions, cancellations and deadlines.

func init() {
	reg(&Scenario{Name: "reqman", Main: func() { runReqman(false) }})
	reg(&Scenario{Name: "reqmanstorm", Main: func() { runReqman(true) }})
}

var c19 = []string{"C19"}

type rmComp struct {
	tok       string
	msg       *message.Message
	err       error
	start     uint64
	end       uint64 // 0: running
	ok        bool
	readAfter bool // began after the awaiting call had returned
}

type rmReq struct {
	r          *reqman.Request
	id         [8]byte
	cStart     uint64
	cEnd       uint64
	awaiting   bool
	aEnd       uint64 // AwaitReply returned
	comps      []*rmComp
	gaveUp     uint64 // cancelled, or deadline certainly passed, at
	deadline   int64
	hasDL      bool
	canceled   bool
	ctxErrored bool
	released   bool
}

type rmState struct {
	m       reqman.RequestManager
	reqs    []*rmReq
	byID    map[[8]byte]*rmReq
	running int
	q       simrt.WaitQ
}

func runReqman(storm bool) {
	s := &rmState{m: reqman.NewRequestManager(), byID: map[[8]byte]*rmReq{}}
	if wi(10) == 0 {
		simrt.NoYield(s.bulk)
	}
	n := 1 + wi(4)
	per := 1 + wi(3)
	if storm {
		n, per = 1+wi(2), 1
	}
	s.running = n
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("awaiter %d", i)
		simrt.GoNamed("harness: "+name, func() {
			for j := 0; j < per; j++ {
				s.creator()
			}
			s.running--
			s.q.Wake()
		})
	}
	nc := 1 + wi(5)
	if storm {
		nc = 2 + wi(4)
	}
	s.running += nc
	for i := 0; i < nc; i++ {
		name := fmt.Sprintf("completer %d", i)
		simrt.GoNamed("harness: "+name, func() {
			for j := 1 + wi(6); j > 0; j-- {
				s.completer()
			}
			s.running--
			s.q.Wake()
		})
	}
	simrt.Settle(10 * 60 * 1000 * ms)
	// Whoever is left waits for a reply nobody sent: send it now.
	for again := true; again; {
		again = false
		for _, r := range s.reqs {
			if r.awaiting && r.aEnd == 0 && !r.released {
				r.released, again = true, true
				s.complete(r, 1)
			}
		}
		simrt.Settle(10 * 60 * 1000 * ms)
	}
	// Everything the callers started must have ended.
	if s.running != 0 {
		for _, b := range simrt.Blocked() {
			if strings.HasPrefix(b, "harness: ") {
				simrt.Fail("liveness", c19, "a request manager call never returned: %s", b)
			}
		}
		for _, r := range s.reqs {
			if r.awaiting && r.aEnd == 0 {
				simrt.Fail("liveness", c19, "AwaitReply of request %x never returned", r.id)
			}
		}
	}
	pending := 0
	for _, r := range s.reqs {
		oks := 0
		for _, c := range r.comps {
			if c.ok {
				oks++
			}
		}
		if !r.awaiting && oks == 0 {
			pending++
			if !s.m.IsPending(r.id) {
				simrt.Fail("check", c19, "request %x is not pending although nothing completed it", r.id)
			}
		} else if s.m.IsPending(r.id) {
			simrt.Fail("check", c19, "request %x is still pending after its completion", r.id)
		}
		if oks > 1 {
			simrt.Fail("check", c19, "request %x was completed %d times", r.id, oks)
		}
	}
	if got := s.m.PendingRequests(); got != pending {
		simrt.Fail("check", c19, "%d requests reported pending at rest, %d are", got, pending)
	}
}

// bulk puts many requests through the manager and leaves some of them pending.
func (s *rmState) bulk() {
	n := 10 << wi(8)
	if wi(80) == 0 {
		n = 66000 + wi(2000)
	}
	Stats["reach.many requests"]++
	seen := make(map[[8]byte]*reqman.Request, n)
	var ids [][8]byte
	for i := 0; i < n; i++ {
		r := s.m.Create()
		if seen[r.Identifier] != nil {
			simrt.Fail("check", c19, "identifier %x was assigned twice (%d requests)", r.Identifier, i)
		}
		seen[r.Identifier] = r
		ids = append(ids, r.Identifier)
	}
	if got := s.m.PendingRequests(); got != n {
		simrt.Fail("check", c19, "%d requests reported pending, %d are", got, n)
	}
	keep := wi(80)
	for n > keep {
		i := n - 1
		switch wi(3) {
		case 0:
			i = wi(n)
		case 1:
			i = 0
		}
		id := ids[i]
		ids[i] = ids[n-1]
		n--
		ids = ids[:n]
		// Nobody may ever look at the outcome.
		m, err := &message.Message{MsgIdentifier: id}, error(nil)
		ok := false
		ctx, cancel := context.WithCancel(context.Background())
		switch kind := wi(4); kind {
		case 0:
			err = rmErr
			ok = s.m.Fail(id, err)
		case 1:
			cancel()
			if _, err := seen[id].AwaitReply(ctx); err == nil {
				simrt.Fail("check", c19, "request %x received a reply nobody sent", id)
			}
			ok = true
		default:
			m.MsgPayload.Data = append([]byte{}, id[:]...)
			ok = s.m.Fulfill(m)
		}
		if !ok {
			simrt.Fail("check", c19, "request %x was refused its first completion", id)
		}
		if s.m.IsPending(id) || s.m.Fail(id, rmErr) || s.m.Fulfill(m) {
			simrt.Fail("check", c19, "request %x is pending after its completion", id)
		}
		if m.MsgPayload.Data != nil && wi(2) == 0 {
			rp, err := seen[id].AwaitReply(ctx)
			if err != nil || !bytes.Equal(rp.Payload(), id[:]) {
				simrt.Fail("check", c19, "request %x received %v, %v", id, rp, err)
			}
		}
		cancel()
	}
	if got := s.m.PendingRequests(); got != n {
		simrt.Fail("check", c19, "%d requests reported pending, %d are", got, n)
	}
	for _, id := range ids {
		r := &rmReq{r: seen[id], id: id, cStart: simrt.EvSeq()}
		r.cEnd = simrt.EvSeq()
		s.reqs, s.byID[id] = append(s.reqs, r), r
	}
}

func (s *rmState) creator() {
	r := &rmReq{cStart: simrt.EvSeq()}
	s.reqs = append(s.reqs, r)
	r.r = s.m.Create()
	r.cEnd = simrt.EvSeq()
	r.id = r.r.Identifier
	simrt.Note("created %x", r.id)
	if !bytes.Equal(r.r.IdentifierBytes, r.id[:]) {
		simrt.Fail("check", c19, "identifier %x and its bytes %x differ", r.id, r.r.IdentifierBytes)
	}
	if s.byID[r.id] != nil {
		simrt.Fail("check", c19, "identifier %x was assigned twice", r.id)
	}
	s.byID[r.id] = r
	for n := wi(4); n > 0; n-- {
		simrt.Yield()
	}
	if wi(3) == 0 {
		simrt.Sleep(int64(wi(8)) * ms)
	}
	if wi(12) == 0 {
		return // never awaited
	}
	ctx := context.Background()
	kind := wi(5)
	var cancel context.CancelFunc = func() {}
	switch kind {
	case 0: // plain
	case 1: // deadline
		d := int64(wi(12)) * ms
		r.hasDL, r.deadline = true, simrt.Now()+d
		ctx, cancel = context.WithTimeout(ctx, time.Duration(d))
	default:
		ctx, cancel = context.WithCancel(ctx)
		if kind == 2 {
			r.canceled = true
			cancel()
			r.gaveUp = simrt.EvSeq()
			simrt.Note("fault cancel %x before await", r.id)
			Stats["fault.cancelled before await"]++
			break
		}
		d, y := int64(wi(10))*ms, wi(30)
		simrt.GoNamed("harness: canceller", func() {
			if kind == 3 {
				simrt.Sleep(d)
			} else {
				for i := 0; i < y; i++ {
					simrt.Yield()
				}
			}
			r.canceled = true
			cancel()
			r.gaveUp = simrt.EvSeq()
			Stats["fault.cancel"]++
			simrt.Note("cancel %x", r.id)
		})
	}
	r.awaiting = true
	rp, err := r.r.AwaitReply(ctx)
	r.aEnd = simrt.EvSeq()
	simrt.Note("await %x: %v", r.id, err)
	if s.m.IsPending(r.id) {
		simrt.Fail("check", c19, "request %x is still pending after AwaitReply returned (%v)", r.id, err)
	}
	var got *rmComp
	if err == nil {
		if rp == nil {
			simrt.Fail("check", c19, "AwaitReply returned neither reply nor error")
			return
		}
		for _, c := range r.comps {
			if c.msg != nil && string(rp.Payload()) == c.tok {
				got = c
			}
		}
		if got == nil {
			simrt.Fail("check", c19, "request %x received a foreign reply %q", r.id, rp.Payload())
			return
		}
		if rp.PayloadEncoding() != got.msg.MsgPayload.Encoding {
			simrt.Fail("check", c19, "reply encoding changed")
		}
		if got.end != 0 && !got.ok {
			simrt.Fail("check", c19, "request %x received the reply of a completion that reported failure", r.id)
		}
		rp.Close()
	} else {
		if rp != nil {
			simrt.Fail("check", c19, "AwaitReply returned both a reply and %v", err)
		}
		for _, c := range r.comps {
			if c.err != nil && c.err == err {
				got = c
			}
		}
		if got == nil {
			_, isC := err.(wwr.ErrCanceled)
			_, isD := err.(wwr.ErrDeadlineExceeded)
			switch {
			case isC && !r.canceled:
				simrt.Fail("check", c19, "request %x reported as cancelled without a cancellation", r.id)
			case isD && (!r.hasDL || simrt.Now() < r.deadline):
				simrt.Fail("check", c19, "request %x reported as timed out before its deadline", r.id)
			case !isC && !isD:
				simrt.Fail("check", c19, "request %x failed with a foreign error %v", r.id, err)
			}
			r.ctxErrored = true
			Stats["reach.gave up"]++
			for _, c := range r.comps {
				if c.ok {
					simrt.Fail("check", c19, "completion %s of request %x reported success but the caller got %v", c.tok, r.id, err)
				}
			}
		}
	}
	if kind != 3 && kind != 4 {
		cancel()
	}
	// The completion that was received may not have returned yet; it must
	// then report success (checked when it returns).
	for _, c := range r.comps {
		if c != got && c.ok {
			simrt.Fail("check", c19, "completion %s of request %x reported success but the caller got another outcome", c.tok, r.id)
		}
	}
	s.q.Wake()
	if got != nil {
		for _, c := range r.comps {
			c.readAfter = c.readAfter || c != got
		}
		Stats["reach.completed"]++
	}
}

var rmErr = errors.New("failed")

func (s *rmState) completer() {
	switch wi(8) {
	case 0:
		simrt.Sleep(int64(wi(10)) * ms)
	case 1, 2:
		for i := wi(20); i > 0; i-- {
			simrt.Yield()
		}
	case 3:
		// count and probe
		lo, hi := s.bounds()
		a := simrt.EvSeq()
		n := s.m.PendingRequests()
		lo2, hi2 := s.boundsSince(a)
		if hi2 > hi {
			hi = hi2
		}
		if lo2 < lo {
			lo = lo2
		}
		if n < lo || n > hi {
			simrt.Fail("check", c19, "PendingRequests returned %d, possible are %d to %d", n, lo, hi)
		}
		return
	case 4:
		var id [8]byte
		copy(id[:], fill(fmt.Sprint(wi(1000)), 8, false))
		id[7] |= 0x80
		if s.m.Fail(id, rmErr) || s.m.Fulfill(&message.Message{MsgIdentifier: id}) || s.m.IsPending(id) {
			simrt.Fail("check", c19, "an unknown identifier was completed")
		}
		return
	}
	var c []*rmReq
	for _, r := range s.reqs {
		if r.cEnd != 0 {
			c = append(c, r)
		}
	}
	if len(c) == 0 {
		// identifiers can be guessed before they're assigned: not modelled
		return
	}
	r := c[len(c)-1]
	if wi(3) > 0 {
		r = c[wi(len(c))]
	}
	s.complete(r, wi(2))
}

func (s *rmState) complete(r *rmReq, how int) {
	c := &rmComp{tok: fmt.Sprintf("reply %x.%d", r.id, len(r.comps))}
	settled := r.aEnd != 0
	for _, o := range r.comps {
		settled = settled || o.ok
	}
	fulfil := how != 0
	if fulfil {
		c.msg = message.NewMessage(64)
		c.msg.MsgIdentifier = r.id
		c.msg.MsgPayload.Encoding = []wwr.PayloadEncoding{wwr.EncodingBinary, wwr.EncodingUtf8}[len(r.comps)%2]
		c.msg.MsgPayload.Data = []byte(c.tok)
	} else {
		c.err = errors.New(c.tok)
	}
	r.comps = append(r.comps, c)
	c.start = simrt.EvSeq()
	var ok bool
	if fulfil {
		ok = s.m.Fulfill(c.msg)
	} else {
		ok = s.m.Fail(r.id, c.err)
	}
	c.end = simrt.EvSeq()
	c.ok = ok
	simrt.Note("complete %s fulfil=%v: %v", c.tok, fulfil, ok)
	if s.m.IsPending(r.id) {
		simrt.Fail("check", c19, "request %x is still pending after a completion call returned %v", r.id, ok)
	}
	if ok && settled {
		simrt.Fail("check", c19, "completion %s of the already completed request %x reported success", c.tok, r.id)
	}
	if ok {
		Stats["reach.completion succeeded"]++
		for _, o := range r.comps {
			if o != c && o.ok {
				simrt.Fail("check", c19, "request %x was completed successfully more than once", r.id)
			}
		}
		if r.ctxErrored {
			simrt.Fail("check", c19, "completion %s of request %x reported success but the caller had given up", c.tok, r.id)
		}
		if r.aEnd != 0 && c.readAfter {
			simrt.Fail("check", c19, "completion %s of request %x reported success but the caller got another outcome", c.tok, r.id)
		}
	} else {
		Stats["reach.duplicate or late completion"]++
		if !settled && r.aEnd == 0 && !r.canceled && !(r.hasDL && simrt.Now() >= r.deadline) {
			// Nothing else may have completed it: only an overlapping completion.
			over := false
			for _, o := range r.comps {
				if o != c && (o.end == 0 || o.ok) {
					over = true
				}
			}
			if !over {
				simrt.Fail("check", c19, "completion %s of the pending request %x was refused", c.tok, r.id)
			}
		}
	}
}

// bounds is the range of possible pending counts right now.
func (s *rmState) bounds() (lo, hi int) { return s.boundsSince(simrt.EvSeq()) }

// boundsSince: lower and upper bound over an interval beginning at a.
func (s *rmState) boundsSince(a uint64) (lo, hi int) {
	for _, r := range s.reqs {
		certainlyThere := r.cEnd != 0 && r.cEnd < a
		certainlyGone := r.aEnd != 0 && r.aEnd < a
		maybeGone := r.aEnd != 0 || r.canceled || r.hasDL && simrt.Now() >= r.deadline
		for _, c := range r.comps {
			maybeGone = true
			if c.ok && c.end < a {
				certainlyGone = true
			}
		}
		if !certainlyGone {
			hi++
		}
		if certainlyThere && !maybeGone {
			lo++
		}
	}
	return
}
