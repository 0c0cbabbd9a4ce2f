//verif:property C41
//verif:level proof
//verif:needs lease/C40.go
package lease

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C41_connection: any data in a message frame
func Verif_C41_connection() {
	s := specNewAgent(AgentConfig{})
	e, w := s.session(specEndpoint)
	var err error
	ping := gv.Go(func() { err = e.Ping(gv.NewCtx()) })
	gv.Go(func() { s.a.Wait() })
	c := s.incoming()
	gv.Settle()
	gv.Assert(len(w.Writes()) == 1 && !ping.Done(), "the ping is sent")
	m := specPong(9)
	specLE(m, gv.U64("type"), 24, 8)
	off, size := uint32(200), uint32(len(m)-200)
	if gv.Bool("outside") {
		off, size = gv.U32("offset"), gv.U32("size")
		gv.Assume(uint64(off)+uint64(size) > uint64(len(m)) || size < 6)
	} else {
		size = uint32([]int{6, 7, 8, 12, 21, 22}[gv.Choice("size", 6)])
		off = uint32(len(m)) - size
	}
	specLE(m, uint64(off), 188, 4)
	specLE(m, uint64(size), 192, 4)
	c.Feed(specFramed(m))
	gv.Settle()
	inside := uint64(off)+uint64(size) <= uint64(len(m)) && size >= 6
	gv.Assert(inside || c.Closed > 0 && !ping.Done(), "an endpoint outside the data, or too small for an address, is an error")
	if c.Closed == 0 && ping.Done() {
		gv.Assert(err == nil, "the ping ends")
		gv.Cover("pong")
	}
	if inside {
		gv.Cover("inside")
	}
}
