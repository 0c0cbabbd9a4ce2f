//verif:property C44
//verif:level proof
//verif:needs lease/C40.go
package lease

import (
	"errors"

	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C44_accept: accepted connections and errors in any order
func Verif_C44_accept() {
	s := specNewAgent(AgentConfig{})
	var err error
	w := gv.Go(func() { err = s.a.Wait() })
	gv.Settle()
	for i := 0; i < 3; i++ {
		switch gv.Choice("event", 4) {
		case 0:
			c := s.incoming()
			gv.Assert(len(c.Wire()) == 12 && c.Closed == 0, "a connection is accepted")
			gv.Assert(!w.Done(), "the agent waits on")
		case 1:
			s.l.Queue(nil, &gv.NetError{Temp: true})
			gv.Settle()
			gv.Assert(!w.Done(), "temporary errors are survived")
			gv.Cover("temporary")
		case 2:
			s.l.Queue(nil, []error{errors.New("broken"), &gv.NetError{Temp: false}}[gv.Choice("error", 2)])
			gv.Settle()
			gv.Assert(w.Done() && err != nil, "a permanent error ends the waiting")
			gv.Assert(s.l.Closed > 0, "the listener is closed")
			gv.Cover("permanent")
			return
		default:
			gv.Assert(s.a.Close() == nil, "closing succeeds")
			gv.Settle()
			gv.Assert(w.Done() && err != nil && !s.l.Spins, "closing ends the waiting")
			gv.Cover("closed")
			return
		}
	}
	s.l.After = errors.New("broken for good")
	gv.Assert(!w.Done(), "the agent waits on")
	s.incoming()
	gv.Assert(w.Done() && err != nil && !s.l.Spins, "a permanent error ends the waiting")
	gv.Cover("broken for good")
}

// Verif_C44_closed: an agent that was closed before
func Verif_C44_closed() {
	s := specNewAgent(AgentConfig{})
	gv.Assert(s.a.Close() == nil && s.l.Closed > 0, "closing closes the listener")
	var err error
	w := gv.Go(func() { err = s.a.Wait() })
	gv.Settle()
	gv.Assert(w.Done() && err != nil && !s.l.Spins, "waiting on a closed agent is an error")
	gv.Assert(s.a.Close() == nil, "closing again succeeds")
	e, err := s.a.Establish(specEndpoint)
	gv.Assert(e == nil && err != nil && len(s.dials) == 0, "nothing is dialed any more")
	gv.Cover("closed")
}

// Verif_C44_sessions: closing closes every session
func Verif_C44_sessions() {
	s := specNewAgent(AgentConfig{})
	var es []Session
	for i := gv.Choice("sessions", 4); i > 0; i-- {
		e, _ := s.session([]string{"", specEndpoint, "10.2.0.1:8", specEndpoint}[i])
		es = append(es, e)
		if gv.Bool("closed before") {
			e.Close()
			gv.Assert(s.conns[len(s.conns)-1].Closed > 0, "closing a session closes its connection")
		}
	}
	if len(es) == 3 {
		e := es[gv.Choice("closed again", 3)]
		e.Close()
	}
	gv.Assert(s.a.Close() == nil, "closing succeeds")
	for i, e := range es {
		gv.Assert(s.conns[i].Closed > 0, "every session's connection is closed")
		var err error
		p := gv.Go(func() { err = e.Ping(gv.NewCtx()) })
		gv.Settle()
		gv.Assert(p.Done() && err != nil, "a closed session cannot be pinged")
	}
	gv.Assert(s.a.Close() == nil, "closing again succeeds")
	_, err := s.a.Establish("10.2.0.9:1")
	gv.Assert(err != nil && len(s.dials) == len(es), "nothing is dialed any more")
	gv.Cover("sessions")
}

// Verif_C44_dial: a session that cannot be established
func Verif_C44_dial() {
	s := specNewAgent(AgentConfig{})
	s.fail = specNoNetwork
	e, err := s.a.Establish(specEndpoint)
	gv.Assert(e == nil && err == specNoNetwork, "the error of the dialer is returned")
	gv.Assert(s.a.Close() == nil, "closing succeeds")
	gv.Cover("no network")
}

// Verif_C44_concurrent: closing while waiting, pinging
func Verif_C44_concurrent() {
	s := specNewAgent(AgentConfig{})
	e, c := s.session(specEndpoint)
	gv.Interleave(2)
	var err error
	w := gv.Go(func() { err = s.a.Wait() })
	p := gv.Go(func() { e.Ping(gv.NewCtx()) })
	x := gv.Go(func() { s.a.Close() })
	gv.Settle()
	gv.Assert(w.Done() && err != nil && p.Done() && x.Done(), "closing ends the waiting and the ping")
	gv.Assert(c.Closed > 0 && !s.l.Spins, "the session is closed")
	gv.Cover("closed")
}
