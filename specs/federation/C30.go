//verif:property C30
package federation

import (
	"math/bits"

	gv "github.com/tg123/phabrik/zzgv"
)

func specNodeID(n string) NodeID { return NodeID{Hi: gv.U64(n + ".hi"), Lo: gv.U64(n + ".lo")} }

// specDist is the clockwise distance from b to a: a - b modulo 2^128
func specDist(a, b NodeID) (hi, lo uint64) {
	lo, c := bits.Sub64(a.Lo, b.Lo, 0)
	hi, _ = bits.Sub64(a.Hi, b.Hi, c)
	return
}

func specLess(ahi, alo, bhi, blo uint64) bool {
	_, c := bits.Sub64(alo, blo, 0)
	_, c = bits.Sub64(ahi, bhi, c)
	return c != 0
}

// Verif_C30_contains: the id is at most as far from the begin, clockwise, as the end is
func Verif_C30_contains() {
	r := NodeIdRange{specNodeID("begin"), specNodeID("end")}
	id := specNodeID("id")
	was := r
	in := r.Contains(id)
	ihi, ilo := specDist(id, r.Begin)
	ehi, elo := specDist(r.End, r.Begin)
	gv.Assert(in == !specLess(ehi, elo, ihi, ilo), "a range contains exactly the clockwise arc from begin to end")
	gv.Assert(r == was, "asking changes nothing")
	if specLess(r.End.Hi, r.End.Lo, r.Begin.Hi, r.Begin.Lo) {
		gv.Cover("wrapping range")
	} else {
		gv.Cover("range")
	}
}
