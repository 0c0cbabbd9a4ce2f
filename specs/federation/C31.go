//verif:property C31
//verif:level proof
//verif:needs federation/C30.go
//verif:note nodes with up to 3 known partners, with any ids
package federation

import (
	"context"
	"errors"
	"net"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
	gv "github.com/tg123/phabrik/zzgv"
)

var specAddr = []string{"10.1.0.1:1", "10.1.0.2:2", "10.1.0.3:3"}

// specSite is a node, with its listener, and a record of what it dials
type specSite struct {
	node  *SiteNode
	dials []string
	conns map[string]*gv.Conn
	fail  error // dialing fails
}

func specNode(self NodeInstance, seeds []SeedNodeInfo) *specSite {
	server, err := transport.Listen(gv.NewListener(), transport.ServerConfig{})
	gv.Assume(err == nil)
	return specNodeOn(self, seeds, server)
}

func specNodeOn(self NodeInstance, seeds []SeedNodeInfo, server *transport.Server) *specSite {
	s := &specSite{conns: map[string]*gv.Conn{}}
	agent, err := lease.NewAgent(lease.AgentConfig{}, gv.NewListener(), func(string) (c net.Conn, err error) { return nil, errors.New("no network") })
	gv.Assume(err == nil)
	s.node, err = NewSiteNode(SiteNodeConfig{
		ClientDialer: func(addr string) (*transport.Client, error) {
			s.dials = append(s.dials, addr)
			if s.fail != nil {
				return nil, s.fail
			}
			w := gv.NewConn(nil)
			s.conns[addr] = w
			return transport.Connect(w, transport.ClientConfig{})
		},
		TransportServer: server,
		LeaseAgent:      agent,
		Instance:        self,
		SeedNodes:       seeds,
	})
	if err != nil {
		gv.Assert(false, "a node with seed nodes can be created")
	}
	return s
}

func specSeeds(n string, k int) []SeedNodeInfo {
	var seeds []SeedNodeInfo
	for i := 0; i < k; i++ {
		seeds = append(seeds, SeedNodeInfo{specNodeID(n + []string{"0", "1", "2", "3"}[i]), specAddr[i]})
	}
	for i := range seeds {
		for j := range seeds[:i] {
			gv.Assume(seeds[i].Id != seeds[j].Id)
		}
	}
	return seeds
}

// specClosest: no seed but the node itself is closer to target, clockwise, than the one at addr
func specClosest(seeds []SeedNodeInfo, self, target NodeID, addr string) bool {
	var at *SeedNodeInfo
	for i := range seeds {
		if seeds[i].Address == addr {
			at = &seeds[i]
		}
	}
	if at == nil || at.Id == self {
		return false
	}
	dhi, dlo := specDist(at.Id, target)
	for _, o := range seeds {
		hi, lo := specDist(o.Id, target)
		if o.Id != self && specLess(hi, lo, dhi, dlo) {
			return false
		}
	}
	return true
}

// Verif_C31_route: which partner a message is routed to
func Verif_C31_route() {
	gv.Bounded("up to 3 known partners")
	self := NodeInstance{specNodeID("self"), gv.U64("instance")}
	seeds := specSeeds("seed", 1+gv.Choice("partners", 3))
	s := specNode(self, seeds)
	s.fail = errors.New("unreachable")
	target := specNodeID("target")
	_, err := s.node.Route(context.Background(), target, &transport.Message{})
	gv.Assert(err != nil, "a message that cannot be sent is an error")
	if len(seeds) == 1 && seeds[0].Id == self.Id {
		gv.Assert(len(s.dials) == 0, "the node itself is never a destination")
		gv.Cover("nobody else")
		return
	}
	gv.Assert(len(s.dials) == 1, "one partner is tried")
	if len(s.dials) == 1 {
		gv.Assert(specClosest(seeds, self.Id, target, s.dials[0]), "the message goes to the closest partner, clockwise from the target")
		gv.Cover("routed")
	}
}

// Verif_C31_send: sending directly
func Verif_C31_send() {
	gv.Bounded("up to 3 known partners")
	self := NodeInstance{specNodeID("self"), gv.U64("instance")}
	seeds := specSeeds("seed", 1+gv.Choice("partners", 3))
	s := specNode(self, seeds)
	s.fail = errors.New("unreachable")
	target := specNodeID("target")
	to := ""
	for i := range seeds {
		if seeds[i].Id == target && target != self.Id {
			to = seeds[i].Address
		}
	}
	err := s.node.SendOneWay(target, &transport.Message{Body: []byte{1}})
	gv.Assert(err != nil, "a message that cannot be sent is an error")
	if to != "" {
		gv.Assert(len(s.dials) == 1 && s.dials[0] == to, "a message to a known id goes to that partner")
		gv.Cover("known")
	}
}

// Verif_C31_unknown: nothing is sent to an id that is not known, or to the node itself
func Verif_C31_unknown() {
	self := NodeInstance{NodeID{1, 2}, 3}
	seeds := []SeedNodeInfo{{NodeID{1, 2}, specAddr[0]}, {NodeID{4, 5}, specAddr[1]}}
	s := specNode(self, seeds)
	target := []NodeID{{1, 2}, {4, 4}, {4, 6}, {0, 0}}[gv.Choice("target", 4)]
	err := s.node.SendOneWay(target, &transport.Message{Body: []byte{1}})
	gv.Assert(err != nil, "sending to an id that is not known, or the node's own, fails")
	for _, w := range s.conns {
		gv.Assert(len(w.Out) <= 1, "nothing but the connection's first message is sent")
	}
	gv.Cover("unknown")
}

// Verif_C31_headers: what a routed message says about its destination
func Verif_C31_headers() {
	self := NodeInstance{NodeID{1, 2}, 3}
	seeds := []SeedNodeInfo{{NodeID{1, 2}, specAddr[0]}, {NodeID{4, 5}, specAddr[1]}}
	s := specNode(self, seeds)
	routed := gv.Bool("routed")
	gv.Go(func() {
		if routed {
			s.node.Route(gv.NewCtx(), NodeID{4, 4}, &transport.Message{})
		} else {
			s.node.SendOneWay(NodeID{4, 5}, &transport.Message{})
		}
	})
	gv.Settle()
	w := s.conns[specAddr[1]]
	gv.Assert(len(s.dials) == 1 && w != nil, "the message goes to the partner")
	if w == nil || len(w.Out) < 2 {
		gv.Assert(false, "the message is sent")
		return
	}
	// read it back on another connection
	var got *transport.ByteArrayMessage
	r := gv.NewConn(nil)
	cl, err := transport.Connect(r, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) { got = m }})
	gv.Assume(err == nil)
	gv.Go(func() { cl.Wait() })
	r.Feed(w.Out[len(w.Out)-1])
	gv.Settle()
	if got == nil {
		gv.Assert(false, "the message arrives")
		return
	}
	h, ok := got.Headers.GetFirstCustomHeader(transport.MessageHeaderIdTypePToP)
	p, isp := h.(*PToPHeader)
	if !ok || !isp {
		gv.Assert(false, "a point-to-point header")
		return
	}
	gv.Assert(p.From == self && p.To == NodeInstance{Id: NodeID{4, 5}}, "from this node to the partner")
	gv.Assert(p.ExactInstance == !routed && (p.Actor == PToPActorRouting) == routed, "direct or routed")
	gv.Cover("headers")
}
