package main

import (
	"fmt"
	"math/big"
	"strings"
)

// intEnc restates a bit-vector query over mathematical integers, modular
// arithmetic made explicit. Operations without an integer form become
// unconstrained values of their width, so only an "unsat" answer is used.
type intEnc struct {
	b    strings.Builder
	memo map[*Term]string
	n    int
	div  bool // something worth the translation was seen
}

func pow2(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

func lit(x *big.Int) string {
	if x.Sign() < 0 {
		return fmt.Sprintf("(- %s)", new(big.Int).Neg(x))
	}
	return x.String()
}

func (e *intEnc) fresh(w int) string {
	e.n++
	v := fmt.Sprintf("i%d", e.n)
	fmt.Fprintf(&e.b, "(declare-const %s Int)\n", v)
	if w > 0 {
		fmt.Fprintf(&e.b, "(assert (and (<= 0 %s) (< %s %s)))\n", v, v, pow2(w))
	}
	return v
}

func (e *intEnc) signed(x string, w int) string {
	return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", x, pow2(w-1), x, x, pow2(w))
}

func (e *intEnc) def(x string) string {
	if len(x) < 24 {
		return x
	}
	e.n++
	v := fmt.Sprintf("i%d", e.n)
	fmt.Fprintf(&e.b, "(define-fun %s () Int %s)\n", v, x)
	return v
}

// wrap reduces an integer expression modulo 2^w
func (e *intEnc) wrap(raw string, w int) string {
	v := e.fresh(w)
	k := e.fresh(0)
	fmt.Fprintf(&e.b, "(assert (= %s (+ %s (* %s %s))))\n", raw, v, pow2(w), k)
	return v
}

// divmod by a positive constant
func (e *intEnc) divmod(x string, c *big.Int) (q, r string) {
	q, r = e.fresh(0), e.fresh(0)
	fmt.Fprintf(&e.b, "(assert (and (= %s (+ (* %s %s) %s)) (<= 0 %s) (< %s %s)))\n", x, lit(c), q, r, r, r, lit(c))
	return
}

func (e *intEnc) bv(t *Term) string {
	if s, ok := e.memo[t]; ok {
		return s
	}
	s := e.def(e.bv1(t))
	e.memo[t] = s
	return s
}

func (e *intEnc) bv1(t *Term) string {
	w := t.w()
	switch t.op {
	case OConst:
		return new(big.Int).SetUint64(t.val).String()
	case OSum:
		raw := "(+ " + lit(big.NewInt(sext64(t.val, w)))
		for i, a := range t.args {
			raw += fmt.Sprintf(" (* %s %s)", lit(big.NewInt(sext64(t.cs[i], w))), e.bv(a))
		}
		return e.wrap(raw+")", w)
	case OUdiv, OUrem:
		if d := t.args[1]; d.IsConst() && d.val != 0 {
			e.div = true
			q, r := e.divmod(e.bv(t.args[0]), new(big.Int).SetUint64(d.val))
			if t.op == OUdiv {
				return q
			}
			return r
		}
	case OSdiv, OSrem:
		if d := t.args[1]; d.IsConst() && d.val != 0 {
			e.div = true
			c := sext64(d.val, w)
			ac := new(big.Int).Abs(big.NewInt(c))
			sx := e.def(e.signed(e.bv(t.args[0]), w))
			q, r := e.fresh(0), e.fresh(0)
			fmt.Fprintf(&e.b, "(assert (= %s (+ (* %s %s) %s)))\n", sx, lit(big.NewInt(c)), q, r)
			fmt.Fprintf(&e.b, "(assert (ite (>= %s 0) (and (<= 0 %s) (< %s %s)) (and (< (- %s) %s) (<= %s 0))))\n", sx, r, r, ac, ac, r, r)
			x := q
			if t.op == OSrem {
				x = r
			}
			return fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", x, x, pow2(w), x)
		}
	case OExtract:
		x := e.bv(t.args[0])
		if t.lo > 0 {
			x, _ = e.divmod(x, pow2(t.lo))
		}
		if t.hi < t.args[0].w()-1 {
			_, x = e.divmod(x, pow2(w))
		}
		return x
	case OZext:
		return e.bv(t.args[0])
	case OSext:
		a := t.args[0]
		x := e.bv(a)
		return fmt.Sprintf("(ite (< %s %s) %s (+ %s %s))", x, pow2(a.w()-1), x, x, new(big.Int).Sub(pow2(w), pow2(a.w())))
	case OConcat:
		raw := "(+ 0"
		at := w
		for _, a := range t.args {
			at -= a.w()
			raw += fmt.Sprintf(" (* %s %s)", pow2(at), e.bv(a))
		}
		return raw + ")"
	case OLshr:
		if d := t.args[1]; d.IsConst() && d.val < 64 {
			q, _ := e.divmod(e.bv(t.args[0]), pow2(int(d.val)))
			return q
		}
	case OShl:
		if d := t.args[1]; d.IsConst() && d.val < 64 {
			return e.wrap(fmt.Sprintf("(* %s %s)", pow2(int(d.val)), e.bv(t.args[0])), w)
		}
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", e.boolean(t.args[0]), e.bv(t.args[1]), e.bv(t.args[2]))
	}
	return e.fresh(w)
}

func (e *intEnc) boolean(t *Term) string {
	if s, ok := e.memo[t]; ok {
		return s
	}
	s := e.bool1(t)
	if len(s) > 24 {
		e.n++
		v := fmt.Sprintf("b%d", e.n)
		fmt.Fprintf(&e.b, "(define-fun %s () Bool %s)\n", v, s)
		s = v
	}
	e.memo[t] = s
	return s
}

func (e *intEnc) bool1(t *Term) string {
	bin := func(op string, sg bool) string {
		x, y := e.bv(t.args[0]), e.bv(t.args[1])
		if sg {
			w := t.args[0].w()
			x, y = e.signed(x, w), e.signed(y, w)
		}
		return fmt.Sprintf("(%s %s %s)", op, x, y)
	}
	list := func(op string) string {
		s := "(" + op
		for _, a := range t.args {
			s += " " + e.boolean(a)
		}
		return s + ")"
	}
	switch t.op {
	case OConst:
		if t.val == 1 {
			return "true"
		}
		return "false"
	case ONot:
		return list("not")
	case OAnd:
		return list("and")
	case OOr:
		return list("or")
	case OIte:
		return list("ite")
	case OEq:
		switch s := t.args[0].sort; {
		case s == SBool:
			return list("=")
		case s > 0:
			return bin("=", false)
		}
	case OUlt:
		return bin("<", false)
	case OUle:
		return bin("<=", false)
	case OSlt:
		return bin("<", true)
	case OSle:
		return bin("<=", true)
	}
	e.n++
	v := fmt.Sprintf("b%d", e.n)
	fmt.Fprintf(&e.b, "(declare-const %s Bool)\n", v)
	return v
}

// intQuery: the query text, or "" when the translation has nothing to offer
func intQuery(pc []*Term, neg *Term) string {
	e := &intEnc{memo: map[*Term]string{}}
	for _, t := range append(append([]*Term{}, pc...), neg) {
		s := e.boolean(t)
		fmt.Fprintf(&e.b, "(assert %s)\n", s)
	}
	if !e.div {
		return ""
	}
	return e.b.String() + "(check-sat)\n"
}
