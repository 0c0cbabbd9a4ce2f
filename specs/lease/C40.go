//verif:property C40
//verif:level proof
package lease

import (
	"errors"
	"net"

	gv "github.com/tg123/phabrik/zzgv"
)

const specEndpoint = "10.2.0.1:7"

// specAgent is an agent, what it dials and its listener
type specAgent struct {
	a     *Agent
	l     *gv.Listener
	dials []string
	conns []*gv.Conn
	fail  error // dialing fails
}

func specNewAgent(config AgentConfig) *specAgent {
	s := &specAgent{l: gv.NewListener()}
	a, err := NewAgent(config, s.l, func(addr string) (net.Conn, error) {
		s.dials = append(s.dials, addr)
		if s.fail != nil {
			return nil, s.fail
		}
		w := gv.NewConn(nil)
		s.conns = append(s.conns, w)
		return w, nil
	})
	if err != nil {
		gv.Assert(false, "an agent can be created")
		gv.Assume(false)
	}
	s.a = a
	return s
}

// specSession is an established session and the connection it writes to
func (s *specAgent) session(addr string) (Session, *gv.Conn) {
	n := len(s.conns)
	e, err := s.a.Establish(addr)
	if err != nil || len(s.conns) != n+1 {
		gv.Assert(false, "a session can be established")
		gv.Assume(false)
	}
	return e, s.conns[n]
}

func specLE(b []byte, v uint64, at, n int) {
	for i := 0; i < n; i++ {
		b[at+i] = byte(v >> (8 * uint(i)))
	}
}

func specU(b []byte, at, n int) (v uint64) {
	for i := 0; i < n; i++ {
		v |= uint64(b[at+i]) << (8 * uint(i))
	}
	return
}

func specLtHeader(typ byte, size uint32) []byte {
	b := make([]byte, 12)
	b[0] = typ
	specLE(b, uint64(size), 4, 4)
	return b
}

// specLease is a lease message from the agent at host and port
func specLease(typ uint32, instance, remote uint64, host string, port uint16) []byte {
	b := make([]byte, 200+2*len(host)+6)
	b[0], b[1] = 2, 1
	specLE(b, 200, 4, 4)
	specLE(b, uint64(len(b)), 8, 4)
	specLE(b, 77, 16, 8)
	specLE(b, uint64(typ), 24, 4)
	specLE(b, instance, 32, 8)
	specLE(b, remote, 40, 8)
	specLE(b, 200, 188, 4)
	specLE(b, uint64(len(b)-200), 192, 4)
	for i := range []byte(host) {
		b[200+2*i] = host[i]
	}
	specLE(b, 2, len(b)-4, 2)
	specLE(b, uint64(port), len(b)-2, 2)
	return b
}

func specPong(remote uint64) []byte { return specLease(3, 5, remote, "10.2.0.1", 7) }

func specFramed(m []byte) []byte { return append(specLtHeader(1, uint32(12+len(m))), m...) }

// specIncoming is a connection that a peer made to the agent
func (s *specAgent) incoming() *gv.Conn {
	c := gv.NewConn(nil)
	s.l.Queue(c, nil)
	gv.Settle()
	return c
}

// Verif_C40_connection: what is read from a connection
func Verif_C40_connection() {
	s := specNewAgent(AgentConfig{})
	e, w := s.session(specEndpoint)
	gv.Go(func() { s.a.Wait() })
	c := s.incoming()
	gv.AssertEqBytes(c.Wire(), specLtHeader(2, 12), "a connect frame is sent first")
	var err error
	ping := gv.Go(func() { err = e.Ping(gv.NewCtx()) })
	gv.Settle()
	gv.Assert(len(w.Writes()) == 1 && !ping.Done(), "the ping is sent")
	for i := gv.Choice("connect frames", 3); i > 0; i-- {
		c.Feed(specLtHeader(2, gv.U32("connect size")))
	}
	frame := specFramed(specPong(9))
	switch gv.Choice("input", 6) {
	case 0:
		frame[0] = gv.U8("type")
		gv.Assume(frame[0] != 1 && frame[0] != 2)
		c.Feed(frame)
		gv.Settle()
		gv.Assert(!ping.Done() && c.Closed > 0, "an unknown frame type ends the connection")
		gv.Cover("unknown type")
	case 1:
		size := gv.U32("size")
		gv.Assume(size < 12)
		specLE(frame, uint64(size), 4, 4)
		c.Feed(frame)
		gv.Settle()
		gv.Assert(!ping.Done() && c.Closed > 0, "a size smaller than the header ends the connection")
		gv.Cover("small size")
	case 2:
		c.Feed(frame[:[]int{1, 11, 12, 13, len(frame) - 1}[gv.Choice("cut", 5)]])
		c.End()
		gv.Settle()
		gv.Assert(!ping.Done() && c.Closed > 0, "a truncated frame ends the connection")
		gv.Cover("truncated")
	case 3:
		c.Feed(append(append(frame, specLtHeader(2, 12)...), specFramed(specPong(1))...))
		c.Feed(specFramed(specPong(2)))
		gv.Settle()
		gv.Assert(ping.Done() && err == nil && c.Closed == 0, "frames follow each other")
		gv.Assert(len(c.Unread()) == 0, "all are read")
		gv.Cover("several")
	case 4:
		k := []int{1, 5, 12, 13, 100, len(frame) - 1}[gv.Choice("piece", 6)]
		c.Feed(frame[:k])
		gv.Settle()
		gv.Assert(!ping.Done() && c.Closed == 0, "a part of a frame is waited for")
		c.Feed(frame[k:])
		gv.Settle()
		gv.Assert(ping.Done() && err == nil && c.Closed == 0, "a message frame is received in pieces")
		gv.Cover("pieces")
	default:
		c.Feed(frame)
		gv.Settle()
		gv.Assert(ping.Done() && err == nil && c.Closed == 0, "a message frame is received")
		gv.Cover("received")
	}
}

// Verif_C40_ping: the frame of a sent message
func Verif_C40_ping() {
	s := specNewAgent(AgentConfig{AppId: "app"})
	e, w := s.session(specEndpoint)
	gv.Go(func() { e.Ping(gv.NewCtx()) })
	gv.Settle()
	b := w.Wire()
	if len(b) < 12 {
		gv.Assert(false, "a frame is sent")
		return
	}
	gv.AssertEqBytes(b[:12], specLtHeader(1, uint32(len(b))), "the frame header is type, size and zeros")
	gv.Cover("sent")
}

var specNoNetwork = errors.New("no network")
