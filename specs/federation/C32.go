//verif:property C32
//verif:level proof
//verif:needs federation/C31.go
//verif:note one update, or two concurrent ones, from any state of the entries concerned; what arrives over the wire carries chosen instance ids
package federation

import (
	"errors"

	"github.com/tg123/phabrik/transport"
	gv "github.com/tg123/phabrik/zzgv"
)

var specIds = []NodeID{{1, 2}, {4, 5}, {7, 8}}

// specPeer is a connection that the node's server has accepted
type specPeer struct {
	in, out *gv.Conn
	cl      *transport.Client
}

// specServer is a node whose listener accepts connections
func specServer() (*specSite, *gv.Listener) {
	l := gv.NewListener()
	server, err := transport.Listen(l, transport.ServerConfig{})
	gv.Assume(err == nil)
	s := specNodeOn(NodeInstance{specIds[0], 3}, []SeedNodeInfo{{specIds[0], specAddr[0]}, {specIds[1], specAddr[1]}}, server)
	s.fail = errors.New("unreachable")
	gv.Go(func() { server.Serve() })
	gv.Settle()
	return s, l
}

func specAccept(l *gv.Listener) *specPeer {
	p := &specPeer{in: gv.NewConn(nil), out: gv.NewConn(nil)}
	cl, err := transport.Connect(p.out, transport.ClientConfig{})
	gv.Assume(err == nil)
	p.cl = cl
	l.Queue(p.in, nil)
	gv.Settle()
	p.pass()
	return p
}

// pass hands what the peer wrote to the node
func (p *specPeer) pass() {
	for _, b := range p.out.Writes() {
		p.in.Feed(b)
	}
	p.out.Out = nil
	gv.Settle()
}

// tell sends a message that carries what the peer knows about nodes
func (p *specPeer) tell(nodes ...PartnerNodeInfo) {
	m := &transport.Message{}
	m.Headers.Actor = transport.MessageActorTypeFederation
	m.Headers.Action = "VoteReply"
	var hs []interface{}
	for _, n := range nodes {
		hs = append(hs, &FederationPartnerNodeHeader{PartnerNodeInfo: n})
	}
	m.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, hs...)
	gv.Assume(p.cl.SendOneWay(m) == nil)
	p.pass()
}

// specTable is what the node knows
type specTable []PartnerNodeInfo

func specKnown(s *specSite) specTable {
	return s.node.KnownPartnerNodes(func(PartnerNodeInfo) bool { return true })
}

// of is the entry for an id, and how many there are
func (t specTable) of(id NodeID) (e PartnerNodeInfo, n int) {
	for _, p := range t {
		if p.Instance.Id == id {
			e = p
			n++
		}
	}
	return
}

// Verif_C32_wire: what a partner says about a node, twice
func Verif_C32_wire() {
	s, l := specServer()
	p := specAccept(l)
	who := gv.Choice("who", 3)
	first := []uint64{0, 1, 7, 1<<63 - 1, 1<<64 - 1}[gv.Choice("first", 5)]
	second := []uint64{0, 6, 7, 8, 1 << 63, 1<<64 - 1}[gv.Choice("second", 6)]
	best, addr := uint64(0), ""
	if who < 2 {
		addr = specAddr[who]
	}
	for i, inst := range []uint64{first, second} {
		n := PartnerNodeInfo{Instance: NodeInstance{specIds[who], inst}, Address: []string{"first", "second"}[i], Phase: NodePhaseInserting}
		if addr == "" || inst > best {
			best, addr = inst, n.Address
		}
		p.tell(n)
	}
	known := specKnown(s)
	e, k := known.of(specIds[who])
	gv.Assert(k == 1 && e.Instance.InstanceId == best && e.Address == addr, "the highest instance received so far is kept")
	for i := range specIds[:2] {
		if i != who {
			e, k := known.of(specIds[i])
			gv.Assert(k == 1 && e.Address == specAddr[i] && e.Instance.InstanceId == 0, "other ids are untouched")
		}
	}
	gv.Cover("told")
}

// Verif_C32_several: a message with information about several nodes
func Verif_C32_several() {
	s, l := specServer()
	p := specAccept(l)
	p.tell(
		PartnerNodeInfo{Instance: NodeInstance{specIds[1], 4}, Address: "four"},
		PartnerNodeInfo{Instance: NodeInstance{specIds[2], 9}, Address: "nine"},
		PartnerNodeInfo{Instance: NodeInstance{specIds[1], 6}, Address: "six"},
		PartnerNodeInfo{Instance: NodeInstance{specIds[1], 5}, Address: "five"},
		PartnerNodeInfo{Instance: NodeInstance{specIds[2], 8}, Address: "eight"})
	known := specKnown(s)
	a, n := known.of(specIds[1])
	b, m := known.of(specIds[2])
	gv.Assert(n == 1 && a.Instance.InstanceId == 6 && a.Address == "six", "every node a message tells of is learned")
	gv.Assert(m == 1 && b.Instance.InstanceId == 9 && b.Address == "nine", "every node a message tells of is learned")
	gv.Cover("several")
}

// Verif_C32_phase: a routing partner ends the boot
func Verif_C32_phase() {
	s, l := specServer()
	p := specAccept(l)
	var err error
	ctx := gv.NewCtx()
	boot := gv.Go(func() { err = s.node.Bootstrap(ctx) })
	gv.Settle()
	gv.Assert(!boot.Done(), "the node boots until it knows a routing partner")
	phase := []NodePhase{NodePhaseBooting, NodePhaseJoining, NodePhaseInserting, NodePhaseRouting, NodePhaseShutdown}[gv.Choice("phase", 5)]
	p.tell(PartnerNodeInfo{Instance: NodeInstance{specIds[gv.Choice("who", 2)+1], 4}, Address: "four", Phase: phase})
	if phase == NodePhaseRouting {
		gv.Assert(boot.Done() && err == nil, "a routing partner wakes the boot")
		again := gv.Go(func() { err = s.node.Bootstrap(ctx) })
		gv.Settle()
		gv.Assert(again.Done() && err == nil, "the node does not boot again")
		gv.Cover("routing")
	} else {
		gv.Assert(!boot.Done(), "no other partner ends the boot")
		ctx.Cancel()
		gv.Settle()
		gv.Assert(boot.Done() && err != nil, "a cancelled boot ends with an error")
		gv.Cover("other")
	}
}
