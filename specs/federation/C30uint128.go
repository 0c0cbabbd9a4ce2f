//verif:property C30
//verif:optional
//verif:needs federation/C30.go
package federation

import (
	"math/bits"

	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C30_cmp: comparison is the order of the 128-bit numbers
func Verif_C30_cmp() {
	a, b := specNodeID("a"), specNodeID("b")
	c := uint128(a).cmp(uint128(b))
	lt, gt := specLess(a.Hi, a.Lo, b.Hi, b.Lo), specLess(b.Hi, b.Lo, a.Hi, a.Lo)
	gv.Assert((c < 0) == lt && (c > 0) == gt && (c == 0) == (a == b), "comparison is the numeric order")
	gv.Cover("cmp")
}

// Verif_C30_sub: subtraction is modulo 2^128
func Verif_C30_sub() {
	a, b := specNodeID("a"), specNodeID("b")
	d := uint128(a).sub(uint128(b))
	lo, c := bits.Add64(d.Lo, b.Lo, 0)
	hi, _ := bits.Add64(d.Hi, b.Hi, c)
	gv.Assert(hi == a.Hi && lo == a.Lo, "the difference plus the subtrahend is the minuend, modulo 2^128")
	gv.Cover("sub")
}
