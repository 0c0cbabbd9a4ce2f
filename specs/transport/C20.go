//verif:property C20
//verif:note the clock is assumed to advance between two pings of a connection; responses around a close are explored with a bounded number of preemptions (labelled in the evidence)
//verif:needs transport/C19.go
package transport

import (
	"time"

	"github.com/tg123/phabrik/serialization"
	gv "github.com/tg123/phabrik/zzgv"
)

func specBeat(action string, body []byte) []byte {
	m := &Message{Body: body}
	m.Headers.Id = MessageId{Index: 50}
	m.Headers.Actor = MessageActorTypeTransport
	m.Headers.Action = action
	return specInbound(m)
}

func specBeatOf(tick int64) []byte {
	b, err := serialization.Marshal(&heartbeat{HeartbeatTimeTick: tick})
	gv.Assume(err == nil)
	return specBeat("HeartbeatResponse", b)
}

type specPing struct {
	d    time.Duration
	err  error
	task *gv.Task
	ctx  *gv.Ctx
	sent []byte // the body of the request
	tick int64
}

// ping starts a ping and takes its request from the wire
// The clock advances between pings.
func (s *specServed) ping(before ...*specPing) *specPing {
	p := &specPing{ctx: gv.NewCtx()}
	n := len(s.w.Writes())
	p.task = gv.Go(func() { p.d, p.err = s.cl.Ping(p.ctx) })
	gv.Settle()
	out := s.w.Writes()
	gv.Assert(len(out) == n+1, "a ping sends one request")
	gv.Assume(len(out) == n+1)
	h, b, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: out[n]}, frameReadConfig{CheckFrameHeaderCRC: true})
	gv.Assume(err == nil)
	gv.Assert(h.Actor == MessageActorTypeTransport && h.Action == "HeartbeatRequest", "the request is a heartbeat request")
	var hb heartbeat
	gv.Assert(serialization.Unmarshal(b, &hb) == nil, "the request carries a heartbeat")
	p.sent, p.tick = b, hb.HeartbeatTimeTick
	for _, q := range before {
		gv.Assume(p.tick != q.tick)
	}
	gv.Assert(!p.task.Done(), "a ping waits for its response")
	return p
}

func (s *specServed) finish() {
	s.cl.Close()
	s.w.End()
	gv.Settle()
	gv.Assert(s.served.Done(), "the receiving loop ends")
	gv.Assert(gv.Threads() == 0, "no goroutine is left after close")
}

// Verif_C20_echo: heartbeat requests with any bodies
func Verif_C20_echo() {
	s := specServe()
	n := len(s.w.Writes())
	a, b := gv.Bytes("first body"), gv.Bytes("second body")
	gv.Assume(len(a) < 1<<20 && len(b) < 1<<20)
	s.w.Feed(specBeat("HeartbeatRequest", a))
	if gv.Bool("one by one") {
		gv.Settle()
	}
	s.w.Feed(specBeat("HeartbeatRequest", b))
	gv.Settle()
	out := s.w.Writes()
	gv.Assert(len(out) == n+2, "every heartbeat request is answered")
	if len(out) != n+2 {
		return
	}
	var bodies [][]byte
	for _, o := range out[n:] {
		h, rb, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: o}, frameReadConfig{CheckFrameHeaderCRC: true})
		gv.Assert(err == nil, "the answer is well formed")
		gv.Assume(err == nil)
		gv.Assert(h.Actor == MessageActorTypeTransport && h.Action == "HeartbeatResponse", "the answer is a heartbeat response")
		bodies = append(bodies, rb)
	}
	if gv.EqBytes(bodies[0], a) {
		gv.AssertEqBytes(bodies[1], b, "the answers carry the bodies of the requests")
	} else {
		gv.AssertEqBytes(bodies[0], b, "the answers carry the bodies of the requests")
		gv.AssertEqBytes(bodies[1], a, "the answers carry the bodies of the requests")
	}
	gv.Assert(len(s.got) == 0, "heartbeats are not given to the callback")
	s.finish()
	gv.Cover("echo")
}

// Verif_C20_ping: the response of a ping makes it succeed, a response with any other value does not
func Verif_C20_ping() {
	s := specServe()
	p := s.ping()
	other := gv.I64("other tick")
	gv.Assume(other != p.tick)
	again := false
	switch gv.Choice("what comes first", 3) {
	case 0:
		again = gv.Bool("again")
	case 1:
		gv.Assume(p.tick > 100 && p.tick < 200)
		s.w.Feed(specBeatOf(other))
		gv.Settle()
		gv.Assert(!p.task.Done() || p.err != nil, "the response of another ping does not make it succeed")
		gv.Assert(!p.task.Done(), "and does not end it")
	case 2:
		other = p.tick + 1
		s.w.Feed(specBeatOf(other))
		gv.Settle()
		gv.Assert(!p.task.Done(), "the response of another ping does not make it succeed")
	}
	s.w.Feed(specBeat("HeartbeatResponse", p.sent))
	gv.Settle()
	gv.Assert(p.task.Done(), "a ping ends with its response")
	gv.Assert(p.err == nil && p.d >= 0, "successfully, with a duration that is not negative")
	if again {
		q := s.ping(p)
		s.w.Feed(specBeat("HeartbeatResponse", q.sent))
		gv.Settle()
		gv.Assert(q.task.Done() && q.err == nil && q.d >= 0, "and so does the next")
	}
	s.finish()
	gv.Cover("ping")
}

// Verif_C20_stale: a response that comes after its ping was given up
func Verif_C20_stale() {
	s := specServe()
	p := s.ping()
	p.ctx.Cancel()
	gv.Settle()
	gv.Assert(p.task.Done() && p.err != nil, "a ping ends with its context")
	early := gv.Bool("the late response comes before the next ping")
	if early {
		s.w.Feed(specBeat("HeartbeatResponse", p.sent))
		gv.Settle()
	}
	q := s.ping(p)
	gv.Settle()
	if !early {
		s.w.Feed(specBeat("HeartbeatResponse", p.sent))
		gv.Settle()
	}
	gv.Assert(!q.task.Done(), "the late response does not end the next ping")
	s.w.Feed(specBeat("HeartbeatResponse", q.sent))
	gv.Settle()
	gv.Assert(q.task.Done() && q.err == nil, "the next ping succeeds with its own response")
	s.finish()
	gv.Cover("stale")
}

// Verif_C20_unsolicited: responses that nobody waits for, around a close at any moment
func Verif_C20_unsolicited() {
	s := specServe()
	b := specBeatOf(5)
	if gv.Bool("malformed") {
		b = specBeat("HeartbeatResponse", gv.BytesN("junk", 2))
	}
	s.w.Feed(b)
	if gv.Bool("twice") {
		s.w.Feed(b)
		gv.Interleave(1)
	} else {
		gv.Interleave(2)
	}
	cl := gv.Go(func() { s.cl.Close() })
	gv.Settle()
	gv.Assert(cl.Done(), "closing ends")
	gv.Assert(s.served.Done() && gv.Threads() == 0, "no goroutine is left after close")
	gv.Cover("unsolicited")
}

// Verif_C20_close: a ping that waits when the connection ends, or starts afterwards
func Verif_C20_close() {
	s := specServe()
	p := s.ping()
	if gv.Bool("the peer ends it") {
		s.w.End()
	} else {
		s.cl.Close()
	}
	gv.Settle()
	gv.Assert(p.task.Done() && p.err != nil, "a waiting ping ends with an error when the connection ends")
	q := gv.NewCtx()
	var err error
	t := gv.Go(func() { _, err = s.cl.Ping(q) })
	gv.Settle()
	gv.Assert(t.Done() && err != nil, "a ping on a closed connection fails")
	gv.Cover("closed")
}
