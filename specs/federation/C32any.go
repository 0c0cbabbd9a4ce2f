//verif:property C32
//verif:optional
//verif:needs federation/C32.go
package federation

import (
	"github.com/tg123/phabrik/transport"
	gv "github.com/tg123/phabrik/zzgv"
)

func gvxTell(s *specSite, n PartnerNodeInfo) {
	m := &transport.ByteArrayMessage{}
	m.Headers.AppendCustomHeader(transport.MessageHeaderIdTypeFederationPartnerNode, &FederationPartnerNodeHeader{PartnerNodeInfo: n})
	s.node.onMessage(nil, m)
}

func gvxSame(a, b PartnerNodeInfo) bool {
	return a.Instance == b.Instance && a.Phase == b.Phase && a.Address == b.Address && a.RingName == b.RingName && a.LeaseAgentAddress == b.LeaseAgentAddress
}

// Verif_C32_update: an update in any state of the table
func Verif_C32_update() {
	s, _ := specServer()
	old, other, inst := gv.U64("old"), gv.U64("other"), gv.U64("instance")
	gv.Assume(old > 0 && other > 0)
	phase := func(n string) NodePhase { return NodePhase(gv.I64(n)) }
	gvxTell(s, PartnerNodeInfo{Instance: NodeInstance{specIds[1], old}, Address: "old", Phase: phase("p0")})
	if gv.Bool("third") {
		gvxTell(s, PartnerNodeInfo{Instance: NodeInstance{specIds[2], other}, Address: "other", Phase: phase("p1")})
	} else {
		other = 0
	}
	who := specNodeID("who")
	n := PartnerNodeInfo{Instance: NodeInstance{who, inst}, Address: "new", Phase: phase("p2"), RingName: gv.StringN("ring", 3)}
	gvxTell(s, n)
	known := specKnown(s)
	for i, was := range []uint64{0, old, other} {
		e, k := known.of(specIds[i])
		present := i < 2 || other != 0
		if specIds[i] == who && (inst > was || !present) {
			gv.Assert(k == 1 && gvxSame(e, n), "a higher instance replaces the entry")
			gv.Cover("replaced")
			continue
		}
		if !present {
			gv.Assert(k == 0, "other ids are untouched")
			continue
		}
		gv.Assert(k == 1 && e.Instance.InstanceId == was && e.Address != "new", "an entry stays unless a higher instance of its node arrives")
	}
	if e, k := known.of(who); who != specIds[0] && who != specIds[1] && who != specIds[2] {
		gv.Assert(k == 1 && gvxSame(e, n), "a node that was not known is learned")
		gv.Cover("new")
	}
}

// Verif_C32_concurrent: two updates at once
func Verif_C32_concurrent() {
	s, _ := specServer()
	old, a, b := gv.U64("old"), gv.U64("a"), gv.U64("b")
	who := specIds[1+gv.Choice("who", 2)]
	if gv.Bool("known") {
		gvxTell(s, PartnerNodeInfo{Instance: NodeInstance{who, old}, Address: "old", Phase: NodePhaseInserting})
	} else {
		old = 0
	}
	gv.Interleave(2)
	x := gv.Go(func() {
		gvxTell(s, PartnerNodeInfo{Instance: NodeInstance{who, a}, Address: "a", Phase: NodePhaseInserting})
	})
	y := gv.Go(func() {
		gvxTell(s, PartnerNodeInfo{Instance: NodeInstance{who, b}, Address: "b", Phase: NodePhaseInserting})
	})
	gv.Settle()
	gv.Interleave(0)
	gv.Assert(x.Done() && y.Done(), "updates end")
	e, k := specKnown(s).of(who)
	best := old
	if a > best {
		best = a
	}
	if b > best {
		best = b
	}
	gv.Assert(k == 1 && e.Instance.InstanceId == best, "the highest instance is kept")
	if a < best && old < best {
		gv.Assert(e.Address == "b", "with its information")
	}
	if b < best && old < best {
		gv.Assert(e.Address == "a", "with its information")
	}
	gv.Cover("both")
}

// Verif_C32_wake: a routing partner that becomes known while a boot is under way, at any point of it
func Verif_C32_wake() {
	s, _ := specServer()
	gv.Interleave(2)
	var err error
	boot := gv.Go(func() { err = s.node.Bootstrap(gv.NewCtx()) })
	tell := gv.Go(func() {
		gvxTell(s, PartnerNodeInfo{Instance: NodeInstance{specIds[1], 4}, Address: "four", Phase: NodePhaseRouting})
	})
	gv.Settle()
	gv.Assert(tell.Done(), "the update ends")
	gv.Assert(boot.Done() && err == nil, "a routing partner wakes the boot")
	gv.Cover("woken")
}
