//verif:property C43
//verif:level proof
//verif:needs lease/C40.go
//verif:note schedules with at most 2 preemptions
package lease

import (
	"context"
	"time"

	gv "github.com/tg123/phabrik/zzgv"
)

type specPing struct {
	task *gv.Task
	err  error
	ctx  *gv.Ctx
}

func specStart(e Session) *specPing {
	p := &specPing{ctx: gv.NewCtx()}
	p.task = gv.Go(func() { p.err = e.Ping(p.ctx) })
	return p
}

func (p *specPing) ok() bool { return p.task.Done() && p.err == nil }

// specServed is an agent that listens, with a session and a connection from the peer
func specServed(config AgentConfig) (s *specAgent, e Session, w, c *gv.Conn) {
	s = specNewAgent(config)
	e, w = s.session(specEndpoint)
	gv.Go(func() { s.a.Wait() })
	c = s.incoming()
	return
}

// Verif_C43_pong: what completes a ping
func Verif_C43_pong() {
	d := gv.I32("lease duration ms")
	s, e, w, c := specServed(AgentConfig{LeaseDuration: time.Duration(d) * time.Millisecond})
	gv.Assert(e.LastPongTime().IsZero(), "no pong yet")
	p := specStart(e)
	gv.Settle()
	gv.Assert(!p.task.Done(), "a ping waits for its response")
	typ, remote := gv.U32("type"), gv.U64("remote instance")
	t0 := time.Now()
	if gv.Bool("other peer") {
		c.Feed(specFramed(specLease(typ, 5, remote, "10.2.0.1", 8)))
		gv.Settle()
		gv.Assert(!p.task.Done() && c.Closed == 0, "a message from another peer completes nothing")
		remote = 0
	} else {
		c.Feed(specFramed(specLease(typ, 5, remote, "10.2.0.1", 7)))
		gv.Settle()
		gv.Assert(c.Closed == 0, "messages do not end the connection")
		if typ != 3 {
			gv.Assert(!p.task.Done(), "only a ping response completes a ping")
			remote = 0
		} else {
			gv.Assert(p.ok(), "a ping response completes the ping")
			gv.Assert(!e.LastPongTime().Before(t0), "it updates the time of the last pong")
			gv.Cover("pong")
		}
	}
	q := specStart(e)
	gv.Settle()
	gv.Assert(!q.task.Done(), "the next ping waits for a response of its own")
	out := w.Writes()
	if len(out) != 2 || len(out[0]) < 212 || len(out[1]) < 212 {
		gv.Assert(false, "every ping is one frame")
		return
	}
	a, b := out[0][12:], out[1][12:]
	for _, m := range [][]byte{a, b} {
		gv.Assert(specU(m, 24, 4) == 2 && specU(m, 56, 8) == uint64(int64(d)), "a ping is a ping request with the lease duration")
	}
	gv.Assert(specU(a, 32, 8) == specU(b, 32, 8) && specU(a, 40, 8) == 0, "with the session's instance")
	gv.Assert(specU(b, 40, 8) == remote, "a response updates the remote instance")
	c.Feed(specFramed(specPong(9)))
	gv.Settle()
	gv.Assert(p.ok() && q.ok(), "a ping response completes the pings")
	_ = s
	gv.Cover("completed")
}

// Verif_C43_early: the response arrives as soon as the request is written
func Verif_C43_early() {
	s, e, w, c := specServed(AgentConfig{})
	w.OnWrite = func(int, []byte) { c.Feed(specFramed(specPong(9))) }
	gv.Interleave(2)
	p := specStart(e)
	gv.Settle()
	gv.Assert(p.ok(), "a response completes the ping, however early it arrives")
	_ = s
	gv.Cover("early")
}

// Verif_C43_two: two pings, a response to each
func Verif_C43_two() {
	s, e, w, c := specServed(AgentConfig{})
	w.OnWrite = func(int, []byte) { c.Feed(specFramed(specPong(9))) }
	gv.Interleave(1)
	p, q := specStart(e), specStart(e)
	gv.Settle()
	gv.Assert(p.ok() && q.ok(), "a response completes the ping, however early it arrives")
	_ = s
	gv.Cover("early")
}

// Verif_C43_end: without a response
func Verif_C43_end() {
	s, e, w, c := specServed(AgentConfig{})
	switch gv.Choice("end", 4) {
	case 0:
		p, q := specStart(e), specStart(e)
		gv.Settle()
		p.ctx.Cancel()
		gv.Settle()
		gv.Assert(p.task.Done() && p.err == context.Canceled && p.err == p.ctx.Err(), "a ping ends with the error of its context")
		gv.Assert(!q.task.Done(), "other pings wait on")
		c.Feed(specFramed(specPong(9)))
		gv.Settle()
		gv.Assert(q.ok(), "and are completed")
		gv.Cover("cancelled")
	case 1:
		gv.Interleave(2)
		p := specStart(e)
		x := gv.Go(func() { e.Close() })
		gv.Settle()
		gv.Assert(x.Done() && p.task.Done(), "closing the session releases the ping")
		gv.Assert(w.Closed > 0, "and closes its connection")
		gv.Cover("closed")
	case 2:
		e.Close()
		p := specStart(e)
		gv.Settle()
		gv.Assert(p.task.Done() && p.err != nil, "a closed session cannot be pinged")
		gv.Assert(e.Close() == nil, "closing again is fine")
		gv.Cover("ping after close")
	default:
		w.FailFrom = 0
		p := specStart(e)
		gv.Settle()
		gv.Assert(p.task.Done() && p.err == gv.ErrInjected, "a ping that cannot be sent is an error")
		gv.Cover("not sent")
	}
	_ = s
}

// Verif_C43_sessions: a response is for the session with that peer only
func Verif_C43_sessions() {
	s, e, _, c := specServed(AgentConfig{})
	f, _ := s.session("10.2.0.1:8")
	p, q := specStart(e), specStart(f)
	gv.Settle()
	c.Feed(specFramed(specLease(3, 5, 9, "10.2.0.1", 8)))
	gv.Settle()
	gv.Assert(!p.task.Done() && q.ok(), "a response completes the pings to the peer it comes from")
	gv.Assert(e.LastPongTime().IsZero() && !f.LastPongTime().IsZero(), "and updates that session")
	f.Close()
	c.Feed(specFramed(specLease(3, 5, 9, "10.2.0.1", 8)))
	c.Feed(specFramed(specPong(9)))
	gv.Settle()
	gv.Assert(p.ok(), "also after the other session is closed")
	g, _ := s.session(specEndpoint)
	e.Close()
	r := specStart(g)
	gv.Settle()
	c.Feed(specFramed(specPong(9)))
	gv.Settle()
	gv.Assert(r.ok(), "also when an earlier session with the peer is closed")
	gv.Cover("sessions")
}
