package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed DAG over Bool, bit-vectors up to 64 bits and one
// uninterpreted sort U (used for sequences, strings and abstract values).

type Sort int // 0 = Bool, -1 = U, n>0 = BV n

const (
	SBool Sort = 0
	SU    Sort = -1
)

type Op uint8

const (
	OConst Op = iota // val
	OVar             // name
	OApp             // name(args)
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OSum // sum of coeff*arg + val   (coeffs in cs)
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OExtract // hi lo
	OConcat  // args msb first
	OZext
	OSext
)

type Term struct {
	op   Op
	sort Sort
	args []*Term
	cs   []uint64
	val  uint64
	name string
	hi   int
	lo   int
	id   int
}

type TermStore struct {
	tab  map[string]*Term
	n    int
	True *Term
	Fals *Term
}

func NewTermStore() *TermStore {
	ts := &TermStore{tab: map[string]*Term{}}
	ts.Fals = ts.mk(&Term{op: OConst, sort: SBool, val: 0})
	ts.True = ts.mk(&Term{op: OConst, sort: SBool, val: 1})
	return ts
}

func (ts *TermStore) mk(t *Term) *Term {
	var b strings.Builder
	b.Grow(48)
	fmt.Fprintf(&b, "%d,%d,%d,%d,%d,%s", t.op, t.sort, t.val, t.hi, t.lo, t.name)
	for _, a := range t.args {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, c := range t.cs {
		fmt.Fprintf(&b, "*%d", c)
	}
	k := b.String()
	if x, ok := ts.tab[k]; ok {
		return x
	}
	ts.n++
	t.id = ts.n
	ts.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) w() int        { return int(t.sort) }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.sort == SBool && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.sort == SBool && t.val == 0 }

func (ts *TermStore) BV(v uint64, w int) *Term {
	return ts.mk(&Term{op: OConst, sort: Sort(w), val: v & mask(w)})
}
func (ts *TermStore) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.Fals
}
func (ts *TermStore) I(v int) *Term { return ts.BV(uint64(int64(v)), 64) }
func (ts *TermStore) Var(name string, s Sort) *Term {
	return ts.mk(&Term{op: OVar, sort: s, name: name})
}
func (ts *TermStore) App(name string, s Sort, args ...*Term) *Term {
	return ts.mk(&Term{op: OApp, sort: s, name: name, args: args})
}

func (ts *TermStore) Not(a *Term) *Term {
	if a.IsConst() {
		return ts.Bool(a.val == 0)
	}
	switch a.op {
	case ONot:
		return a.args[0]
	}
	return ts.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (ts *TermStore) nary(op Op, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if a.op == ONot && seen[a.args[0]] {
			return false
		}
		if seen[ts.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return ts.mk(&Term{op: op, sort: SBool, args: out})
}
func (ts *TermStore) And(as ...*Term) *Term { return ts.nary(OAnd, ts.True, ts.Fals, as) }
func (ts *TermStore) Or(as ...*Term) *Term  { return ts.nary(OOr, ts.Fals, ts.True, as) }
func (ts *TermStore) Implies(a, b *Term) *Term {
	return ts.Or(ts.Not(a), b)
}

func (ts *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d: %s / %s", a.sort, b.sort, ts.String(a), ts.String(b)))
	}
	if a.IsConst() && b.IsConst() {
		return ts.Bool(a.val == b.val)
	}
	if a.sort == SBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.val == 1 {
				return a
			}
			return ts.Not(a)
		}
	}
	if a.sort > 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch a.op {
			case OIte:
				if a.args[1].IsConst() || a.args[2].IsConst() {
					return ts.Ite(a.args[0], ts.Eq(a.args[1], b), ts.Eq(a.args[2], b))
				}
			case OZext:
				x := a.args[0]
				if b.val>>uint(x.w()) != 0 {
					return ts.Fals
				}
				return ts.Eq(x, ts.BV(b.val, x.w()))
			case OConcat:
				// piecewise
				var cj []*Term
				sh := a.w()
				for _, p := range a.args {
					sh -= p.w()
					cj = append(cj, ts.Eq(p, ts.BV(b.val>>uint(sh), p.w())))
				}
				return ts.And(cj...)
			case OBXor:
				if a.args[1].IsConst() {
					return ts.Eq(a.args[0], ts.BV(b.val^a.args[1].val, a.w()))
				}
			case OBNot:
				return ts.Eq(a.args[0], ts.BV(^b.val, a.w()))
			case OSum:
				if len(a.args) == 1 && a.cs[0] == 1 {
					return ts.Eq(a.args[0], ts.BV(b.val-a.val, a.w()))
				}
			}
		}
		if a.op == OSum || b.op == OSum {
			d := ts.Sub(a, b)
			if d.IsConst() {
				return ts.Bool(d.val == 0)
			}
			if d.op == OSum && len(d.args) == 1 && d.cs[0] == 1 {
				x, c := d.args[0], ts.BV(-d.val, a.w())
				if x.op == OZext || x.op == OIte || x.op == OConcat {
					return ts.Eq(x, c)
				}
			}
		}
		if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
			return ts.Eq(a.args[0], b.args[0])
		}
		if a.op == OSext && b.op == OSext && a.args[0].sort == b.args[0].sort {
			return ts.Eq(a.args[0], b.args[0])
		}
		if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
			same := true
			for i := range a.args {
				if a.args[i].w() != b.args[i].w() {
					same = false
				}
			}
			if same {
				var cj []*Term
				for i := range a.args {
					cj = append(cj, ts.Eq(a.args[i], b.args[i]))
				}
				return ts.And(cj...)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func (ts *TermStore) Ite(c, a, b *Term) *Term {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.IsTrue() {
			return ts.Or(c, b)
		}
		if a.IsFalse() {
			return ts.And(ts.Not(c), b)
		}
		if b.IsTrue() {
			return ts.Or(ts.Not(c), a)
		}
		if b.IsFalse() {
			return ts.And(c, a)
		}
	}
	if c.op == ONot {
		return ts.Ite(c.args[0], b, a)
	}
	return ts.mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// maxVal gives a cheap upper bound of an unsigned value
func maxVal(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return maxVal(t.args[0])
	case OIte:
		a, b := maxVal(t.args[1]), maxVal(t.args[2])
		if a > b {
			return a
		}
		return b
	case OBAnd:
		m := mask(t.w())
		for _, a := range t.args {
			if v := maxVal(a); v < m {
				m = v
			}
		}
		return m
	case OConcat:
		v := uint64(0)
		for _, a := range t.args {
			v = v<<uint(a.w()) | maxVal(a)
		}
		return v
	case OUrem:
		if t.args[1].IsConst() && t.args[1].val > 0 {
			return t.args[1].val - 1
		}
	case OLshr:
		if t.args[1].IsConst() && t.args[1].val < 64 {
			return maxVal(t.args[0]) >> t.args[1].val
		}
	}
	return mask(t.w())
}

func (ts *TermStore) Ult(a, b *Term) *Term {
	if a == b {
		return ts.Fals
	}
	if a.IsConst() && b.IsConst() {
		return ts.Bool(a.val < b.val)
	}
	if b.IsConst() {
		if b.val == 0 {
			return ts.Fals
		}
		if maxVal(a) < b.val {
			return ts.True
		}
		if b.val == 1 {
			return ts.Eq(a, ts.BV(0, a.w()))
		}
	}
	if a.IsConst() {
		if a.val >= maxVal(b) {
			return ts.Fals
		}
		if a.val == 0 {
			return ts.Not(ts.Eq(b, ts.BV(0, b.w())))
		}
	}
	return ts.mk(&Term{op: OUlt, sort: SBool, args: []*Term{a, b}})
}
func (ts *TermStore) Ule(a, b *Term) *Term { return ts.Not(ts.Ult(b, a)) }

func (ts *TermStore) Slt(a, b *Term) *Term {
	if a == b {
		return ts.Fals
	}
	if a.IsConst() && b.IsConst() {
		return ts.Bool(sext64(a.val, a.w()) < sext64(b.val, b.w()))
	}
	h := mask(a.w() - 1)
	if maxVal(a) <= h && maxVal(b) <= h {
		return ts.Ult(a, b)
	}
	return ts.mk(&Term{op: OSlt, sort: SBool, args: []*Term{a, b}})
}
func (ts *TermStore) Sle(a, b *Term) *Term { return ts.Not(ts.Slt(b, a)) }

// ---- linear sums

func (ts *TermStore) lin(t *Term, k uint64, m map[*Term]uint64, c *uint64) {
	switch t.op {
	case OConst:
		*c += k * t.val
	case OSum:
		*c += k * t.val
		for i, a := range t.args {
			m[a] += k * t.cs[i]
		}
	default:
		m[t] += k
	}
}

func (ts *TermStore) mkSum(m map[*Term]uint64, c uint64, w int) *Term {
	mk := mask(w)
	var as []*Term
	for a, k := range m {
		if k&mk != 0 {
			as = append(as, a)
		}
	}
	c &= mk
	if len(as) == 0 {
		return ts.BV(c, w)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cs := make([]uint64, len(as))
	for i, a := range as {
		cs[i] = m[a] & mk
	}
	if len(as) == 1 && cs[0] == 1 && c == 0 {
		return as[0]
	}
	return ts.mk(&Term{op: OSum, sort: Sort(w), args: as, cs: cs, val: c})
}

func (ts *TermStore) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return ts.BV(a.val+b.val, a.w())
	}
	if a.IsConst() && a.val == 0 {
		return b
	}
	if b.IsConst() && b.val == 0 {
		return a
	}
	m := map[*Term]uint64{}
	var c uint64
	ts.lin(a, 1, m, &c)
	ts.lin(b, 1, m, &c)
	return ts.mkSum(m, c, a.w())
}
func (ts *TermStore) Sub(a, b *Term) *Term {
	if a == b {
		return ts.BV(0, a.w())
	}
	m := map[*Term]uint64{}
	var c uint64
	ts.lin(a, 1, m, &c)
	ts.lin(b, ^uint64(0), m, &c)
	return ts.mkSum(m, c, a.w())
}
func (ts *TermStore) Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		m := map[*Term]uint64{}
		var c uint64
		ts.lin(a, b.val, m, &c)
		return ts.mkSum(m, c, a.w())
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(&Term{op: OMul, sort: a.sort, args: []*Term{a, b}})
}

func (ts *TermStore) bin(op Op, a, b *Term) *Term {
	return ts.mk(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}

func (ts *TermStore) Udiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		return ts.BV(a.val/b.val, a.w())
	}
	if b.IsConst() && b.val == 1 {
		return a
	}
	if b.IsConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		return ts.Lshr(a, ts.BV(uint64(bits.TrailingZeros64(b.val)), a.w()))
	}
	return ts.bin(OUdiv, a, b)
}
func (ts *TermStore) Urem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		return ts.BV(a.val%b.val, a.w())
	}
	if b.IsConst() && b.val != 0 && b.val&(b.val-1) == 0 {
		return ts.BAnd(a, ts.BV(b.val-1, a.w()))
	}
	return ts.bin(OUrem, a, b)
}
func (ts *TermStore) Sdiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sext64(a.val, a.w()), sext64(b.val, b.w())
		if y == -1 {
			return ts.BV(uint64(-x), a.w())
		}
		return ts.BV(uint64(x/y), a.w())
	}
	if b.IsConst() && b.val == 1 {
		return a
	}
	if h := mask(a.w() - 1); maxVal(a) <= h && maxVal(b) <= h {
		return ts.Udiv(a, b)
	}
	return ts.bin(OSdiv, a, b)
}
func (ts *TermStore) Srem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sext64(a.val, a.w()), sext64(b.val, b.w())
		if y == -1 {
			return ts.BV(0, a.w())
		}
		return ts.BV(uint64(x%y), a.w())
	}
	if h := mask(a.w() - 1); maxVal(a) <= h && maxVal(b) <= h {
		return ts.Urem(a, b)
	}
	return ts.bin(OSrem, a, b)
}

// ---- bit pieces

// pieces splits t into msb-first parts; constants are split further on demand
func pieces(t *Term, ts *TermStore) []*Term {
	switch t.op {
	case OConcat:
		return t.args
	case OZext:
		p := []*Term{ts.BV(0, t.w()-t.args[0].w())}
		return append(p, pieces(t.args[0], ts)...)
	}
	return []*Term{t}
}

// align cuts both piece lists at the same bit positions
func (ts *TermStore) align(a, b []*Term) (x, y []*Term) {
	i, j := 0, 0
	var pa, pb *Term
	for {
		if pa == nil {
			if i == len(a) {
				return
			}
			pa = a[i]
			i++
		}
		if pb == nil {
			pb = b[j]
			j++
		}
		switch {
		case pa.w() == pb.w():
			x, y = append(x, pa), append(y, pb)
			pa, pb = nil, nil
		case pa.w() > pb.w():
			x, y = append(x, ts.Extract(pa, pa.w()-1, pa.w()-pb.w())), append(y, pb)
			pa, pb = ts.Extract(pa, pa.w()-pb.w()-1, 0), nil
		default:
			x, y = append(x, pa), append(y, ts.Extract(pb, pb.w()-1, pb.w()-pa.w()))
			pa, pb = nil, ts.Extract(pb, pb.w()-pa.w()-1, 0)
		}
	}
}

// splitConst cuts a constant into runs of equal bits (so masks become pieces)
func (ts *TermStore) splitConst(t *Term) []*Term {
	if !t.IsConst() || t.w() <= 1 {
		return []*Term{t}
	}
	var out []*Term
	w := t.w()
	i := w - 1
	for i >= 0 {
		b := t.val >> uint(i) & 1
		j := i
		for j >= 0 && t.val>>uint(j)&1 == b {
			j--
		}
		n := i - j
		v := uint64(0)
		if b == 1 {
			v = mask(n)
		}
		out = append(out, ts.BV(v, n))
		i = j
	}
	return out
}

func (ts *TermStore) bitwise(op Op, a, b *Term) *Term {
	w := a.w()
	if a.IsConst() && b.IsConst() {
		switch op {
		case OBAnd:
			return ts.BV(a.val&b.val, w)
		case OBOr:
			return ts.BV(a.val|b.val, w)
		default:
			return ts.BV(a.val^b.val, w)
		}
	}
	if a == b {
		if op == OBXor {
			return ts.BV(0, w)
		}
		return a
	}
	pa, pb := pieces(a, ts), pieces(b, ts)
	if op != OBXor || len(pa) > 1 || len(pb) > 1 {
		var sa, sb []*Term
		for _, p := range pa {
			if op == OBXor {
				sa = append(sa, p)
			} else {
				sa = append(sa, ts.splitConst(p)...)
			}
		}
		for _, p := range pb {
			if op == OBXor {
				sb = append(sb, p)
			} else {
				sb = append(sb, ts.splitConst(p)...)
			}
		}
		if len(sa) > 1 || len(sb) > 1 || sa[0].IsConst() || sb[0].IsConst() {
			x, y := ts.align(sa, sb)
			ok := true
			out := make([]*Term, len(x))
			for i := range x {
				p, q := x[i], y[i]
				if p.IsConst() {
					p, q = q, p
				}
				if q.IsConst() || p == q {
					out[i] = ts.bit1(op, p, q)
					if out[i] == nil {
						ok = false
						break
					}
				} else {
					ok = false
					break
				}
			}
			if ok {
				return ts.Concat(out...)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.IsConst() {
		a, b = b, a
	}
	return ts.bin(op, a, b)
}

func (ts *TermStore) bit1(op Op, p, q *Term) *Term {
	if p == q {
		if op == OBXor {
			return ts.BV(0, p.w())
		}
		return p
	}
	m := mask(q.w())
	switch op {
	case OBAnd:
		if q.val == 0 {
			return q
		}
		if q.val == m {
			return p
		}
	case OBOr:
		if q.val == 0 {
			return p
		}
		if q.val == m {
			return q
		}
	case OBXor:
		if q.val == 0 {
			return p
		}
		if p.IsConst() {
			return ts.BV(p.val^q.val, p.w())
		}
		if q.val == m {
			return ts.BNot(p)
		}
		return ts.bin(OBXor, p, q)
	}
	if p.IsConst() {
		if op == OBAnd {
			return ts.BV(p.val&q.val, p.w())
		}
		return ts.BV(p.val|q.val, p.w())
	}
	return nil
}

func (ts *TermStore) BAnd(a, b *Term) *Term { return ts.bitwise(OBAnd, a, b) }
func (ts *TermStore) BOr(a, b *Term) *Term  { return ts.bitwise(OBOr, a, b) }
func (ts *TermStore) BXor(a, b *Term) *Term { return ts.bitwise(OBXor, a, b) }
func (ts *TermStore) BNot(a *Term) *Term {
	if a.IsConst() {
		return ts.BV(^a.val, a.w())
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return ts.mk(&Term{op: OBNot, sort: a.sort, args: []*Term{a}})
}

// shift amounts are 64-bit or any width terms; b has same width as a here
func (ts *TermStore) Shl(a, b *Term) *Term {
	w := a.w()
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return ts.BV(0, w)
		}
		n := int(b.val)
		return ts.Concat(ts.Extract(a, w-1-n, 0), ts.BV(0, n))
	}
	return ts.bin(OShl, a, b)
}
func (ts *TermStore) Lshr(a, b *Term) *Term {
	w := a.w()
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(w) {
			return ts.BV(0, w)
		}
		n := int(b.val)
		return ts.Zext(ts.Extract(a, w-1, n), w)
	}
	return ts.bin(OLshr, a, b)
}
func (ts *TermStore) Ashr(a, b *Term) *Term {
	w := a.w()
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		n := int(b.val)
		if b.val >= uint64(w) {
			n = w - 1
		}
		return ts.Sext(ts.Extract(a, w-1, n), w)
	}
	return ts.bin(OAshr, a, b)
}

func (ts *TermStore) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.w()-1 {
		return a
	}
	n := hi - lo + 1
	switch a.op {
	case OConst:
		return ts.BV(a.val>>uint(lo), n)
	case OExtract:
		return ts.Extract(a.args[0], a.lo+hi, a.lo+lo)
	case OZext:
		x := a.args[0]
		if hi < x.w() {
			return ts.Extract(x, hi, lo)
		}
		if lo >= x.w() {
			return ts.BV(0, n)
		}
		return ts.Zext(ts.Extract(x, x.w()-1, lo), n)
	case OSext:
		x := a.args[0]
		if hi < x.w() {
			return ts.Extract(x, hi, lo)
		}
		if lo < x.w() {
			return ts.Sext(ts.Extract(x, x.w()-1, lo), n)
		}
		return ts.Sext(ts.Extract(x, x.w()-1, x.w()-1), n)
	case OConcat:
		var out []*Term
		pos := a.w()
		for _, p := range a.args {
			pos -= p.w()
			ph, pl := hi-pos, lo-pos
			if ph < 0 || pl >= p.w() {
				continue
			}
			if ph >= p.w() {
				ph = p.w() - 1
			}
			if pl < 0 {
				pl = 0
			}
			out = append(out, ts.Extract(p, ph, pl))
		}
		return ts.Concat(out...)
	case OBNot:
		return ts.BNot(ts.Extract(a.args[0], hi, lo))
	case OBAnd, OBOr, OBXor:
		x, y := ts.Extract(a.args[0], hi, lo), ts.Extract(a.args[1], hi, lo)
		return ts.bitwise(a.op, x, y)
	case OIte:
		if a.args[1].IsConst() || a.args[2].IsConst() {
			return ts.Ite(a.args[0], ts.Extract(a.args[1], hi, lo), ts.Extract(a.args[2], hi, lo))
		}
	case OSum:
		if lo == 0 {
			// low bits of a sum: sum of low bits
			m := map[*Term]uint64{}
			c := a.val
			for i, x := range a.args {
				ts.lin(ts.Extract(x, hi, 0), a.cs[i], m, &c)
			}
			return ts.mkSum(m, c, n)
		}
	case OMul:
		if lo == 0 {
			return ts.Mul(ts.Extract(a.args[0], hi, 0), ts.Extract(a.args[1], hi, 0))
		}
	}
	return ts.mk(&Term{op: OExtract, sort: Sort(n), args: []*Term{a}, hi: hi, lo: lo})
}

func (ts *TermStore) Concat(as ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == OConcat {
			for _, x := range p.args {
				add(x)
			}
			return
		}
		if p.op == OZext {
			add(ts.BV(0, p.w()-p.args[0].w()))
			add(p.args[0])
			return
		}
		if len(out) > 0 {
			q := out[len(out)-1]
			if q.IsConst() && p.IsConst() {
				out[len(out)-1] = ts.BV(q.val<<uint(p.w())|p.val, q.w()+p.w())
				return
			}
			// q is x[h:m+1], p is x[m:l]
			qb, qh, ql := baseOf(q)
			pb, ph, pl := baseOf(p)
			if qb == pb && ql == ph+1 {
				out[len(out)-1] = ts.Extract(qb, qh, pl)
				return
			}
			// p is x[m:l] in the form that Extract gave it
			if n := p.w(); ql >= n && ts.Extract(qb, ql-1, ql-n) == p {
				out[len(out)-1] = ts.Extract(qb, qh, ql-n)
				return
			}
		}
		out = append(out, p)
	}
	for _, a := range as {
		add(a)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w()
	}
	if len(out) == 2 && out[0].IsConst() && out[0].val == 0 {
		return ts.mk(&Term{op: OZext, sort: Sort(w), args: []*Term{out[1]}})
	}
	return ts.mk(&Term{op: OConcat, sort: Sort(w), args: out})
}

func baseOf(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.args[0], t.hi, t.lo
	}
	return t, t.w() - 1, 0
}

func (ts *TermStore) Zext(a *Term, w int) *Term {
	if a.w() == w {
		return a
	}
	if a.IsConst() {
		return ts.BV(a.val, w)
	}
	return ts.Concat(ts.BV(0, w-a.w()), a)
}
func (ts *TermStore) Sext(a *Term, w int) *Term {
	if a.w() == w {
		return a
	}
	if a.IsConst() {
		return ts.BV(uint64(sext64(a.val, a.w())), w)
	}
	if a.op == OSext {
		a = a.args[0]
	}
	if a.op == OZext || (a.op == OConcat && a.args[0].IsConst() && a.args[0].val>>uint(a.args[0].w()-1) == 0) {
		return ts.Zext(a, w)
	}
	return ts.mk(&Term{op: OSext, sort: Sort(w), args: []*Term{a}})
}

// Resize converts a BV to width w
func (ts *TermStore) Resize(a *Term, w int, signed bool) *Term {
	switch {
	case a.w() == w:
		return a
	case a.w() > w:
		return ts.Extract(a, w-1, 0)
	case signed:
		return ts.Sext(a, w)
	default:
		return ts.Zext(a, w)
	}
}

// ---- printing

func (ts *TermStore) String(t *Term) string {
	s := smtExpr(t, func(x *Term) string { return "" }, 8)
	return s
}

func sortName(s Sort) string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SU:
		return "U"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

func smtName(n string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
}

// smtExpr prints one node; ref returns a name for an argument or "" to print inline
func smtExpr(t *Term, ref func(*Term) string, depth int) string {
	arg := func(a *Term) string {
		if a.op == OConst || a.op == OVar {
			return smtExpr(a, ref, depth)
		}
		if r := ref(a); r != "" {
			return r
		}
		if depth <= 0 {
			return "..."
		}
		return smtExpr(a, ref, depth-1)
	}
	var b strings.Builder
	nary := func(op string) string {
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(arg(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case OConst:
		if t.sort == SBool {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, int(t.sort))
	case OVar:
		return smtName(t.name)
	case OApp:
		if len(t.args) == 0 {
			return smtName(t.name)
		}
		return nary(smtName(t.name))
	case ONot:
		return nary("not")
	case OAnd:
		return nary("and")
	case OOr:
		return nary("or")
	case OEq:
		return nary("=")
	case OIte:
		return nary("ite")
	case OUlt:
		return nary("bvult")
	case OUle:
		return nary("bvule")
	case OSlt:
		return nary("bvslt")
	case OSle:
		return nary("bvsle")
	case OSum:
		w := t.w()
		parts := []string{}
		for i, a := range t.args {
			switch c := t.cs[i]; {
			case c == 1:
				parts = append(parts, arg(a))
			case c == mask(w):
				parts = append(parts, "(bvneg "+arg(a)+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", c, w, arg(a)))
			}
		}
		if t.val != 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.val, w))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OMul:
		return nary("bvmul")
	case OUdiv:
		return nary("bvudiv")
	case OUrem:
		return nary("bvurem")
	case OSdiv:
		return nary("bvsdiv")
	case OSrem:
		return nary("bvsrem")
	case OBAnd:
		return nary("bvand")
	case OBOr:
		return nary("bvor")
	case OBXor:
		return nary("bvxor")
	case OBNot:
		return nary("bvnot")
	case OShl:
		return nary("bvshl")
	case OLshr:
		return nary("bvlshr")
	case OAshr:
		return nary("bvashr")
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, arg(t.args[0]))
	case OConcat:
		r := arg(t.args[0])
		for _, a := range t.args[1:] {
			r = "(concat " + r + " " + arg(a) + ")"
		}
		return r
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w()-t.args[0].w(), arg(t.args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w()-t.args[0].w(), arg(t.args[0]))
	}
	panic("smtExpr")
}
