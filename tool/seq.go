package main

import (
	"fmt"
	"strings"
)

// Seq: an immutable sequence of values, kept as a rope
type Seq struct {
	segs []Seg
	n    *Term // cached length, may be nil
}

type SegKind uint8

const (
	SegLit SegKind = iota
	SegAtom
	SegRep
	SegFold
)

type Seg struct {
	kind SegKind
	vals []Value // SegLit
	atom *Atom   // SegAtom
	off  *Term   // SegAtom: offset in atom; SegFold: lower iteration index
	n    *Term   // SegAtom, SegRep: length; SegFold: upper iteration index
	val  Value   // SegRep
	fold *Fold
}

// Atom: an opaque sequence identified by a U-sorted key
type Atom struct {
	key  *Term
	len  *Term
	elem func(st *State, idx *Term) Value
	kind string  // "var" or name of the derived function
	args []Value // arguments of a derived sequence (for inverse rules)
}

// Fold: concatenation of step(k) for k in [lo,hi)
type Fold struct {
	name string
	id   int
	step func(st *State, k *Term) []FoldCase // guarded steps
	flen func(st *State, k *Term) *Term      // length of the prefix [0,k)
	unit bool                                // every step has length 1
	n    *Term                               // natural upper bound, may be nil
}

type FoldCase struct {
	cond *Term
	seq  *Seq
}

var emptySeq = &Seq{}

func litSeq(vals ...Value) *Seq {
	if len(vals) == 0 {
		return emptySeq
	}
	return &Seq{segs: []Seg{{kind: SegLit, vals: vals}}}
}

func (st *State) strSeq(s string) *Seq {
	if s == "" {
		return emptySeq
	}
	vals := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		vals[i] = st.ts.BV(uint64(s[i]), 8)
	}
	return litSeq(vals...)
}

func (st *State) repSeq(v Value, n *Term) *Seq {
	if n.IsConst() {
		if n.val == 0 {
			return emptySeq
		}
		if n.val <= 64 {
			vals := make([]Value, n.val)
			for i := range vals {
				vals[i] = v
			}
			return litSeq(vals...)
		}
	}
	return &Seq{segs: []Seg{{kind: SegRep, val: v, n: n}}, n: n}
}

func atomSeq(a *Atom, zero *Term) *Seq {
	return &Seq{segs: []Seg{{kind: SegAtom, atom: a, off: zero, n: a.len}}, n: a.len}
}

func (st *State) segLen(s *Seg) *Term {
	switch s.kind {
	case SegLit:
		return st.ts.I(len(s.vals))
	case SegFold:
		return st.ts.Sub(s.fold.flen(st, s.n), s.fold.flen(st, s.off))
	}
	return s.n
}

func (st *State) seqLen(q *Seq) *Term {
	if q.n == nil {
		n := st.ts.I(0)
		for i := range q.segs {
			n = st.ts.Add(n, st.segLen(&q.segs[i]))
		}
		q.n = n
	}
	return q.n
}

func (st *State) mkSeq(segs []Seg) *Seq {
	var out []Seg
	for _, s := range segs {
		if s.kind == SegLit && len(s.vals) == 0 {
			continue
		}
		if (s.kind == SegAtom || s.kind == SegRep) && s.n.IsConst() && s.n.val == 0 {
			continue
		}
		if s.kind == SegFold && s.off == s.n {
			continue
		}
		if len(out) > 0 {
			p := &out[len(out)-1]
			if p.kind == SegLit && s.kind == SegLit {
				nv := make([]Value, 0, len(p.vals)+len(s.vals))
				nv = append(append(nv, p.vals...), s.vals...)
				p.vals = nv
				continue
			}
			if p.kind == SegAtom && s.kind == SegAtom && p.atom.key == s.atom.key && st.ts.Add(p.off, p.n) == s.off {
				p.n = st.ts.Add(p.n, s.n)
				continue
			}
			if p.kind == SegFold && s.kind == SegFold && p.fold == s.fold && p.n == s.off {
				p.n = s.n
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return emptySeq
	}
	return &Seq{segs: out}
}

func (st *State) seqConcat(qs ...*Seq) *Seq {
	var segs []Seg
	k := 0
	var one *Seq
	for _, q := range qs {
		if len(q.segs) > 0 {
			k++
			one = q
		}
		segs = append(segs, q.segs...)
	}
	if k == 0 {
		return emptySeq
	}
	if k == 1 {
		return one
	}
	return st.mkSeq(segs)
}

// split cuts q at position p (0 <= p <= len must hold on this path)
func (st *State) seqSplit(q *Seq, p *Term) (*Seq, *Seq) {
	ts := st.ts
	if p.IsConst() && p.val == 0 {
		return emptySeq, q
	}
	if p == st.seqLen(q) {
		return q, emptySeq
	}
	acc := ts.I(0)
	for i := range q.segs {
		s := &q.segs[i]
		rel := ts.Sub(p, acc) // position relative to this segment
		if rel.IsConst() && rel.val == 0 {
			return st.mkSeq(q.segs[:i:i]), st.mkSeq(q.segs[i:])
		}
		sl := st.segLen(s)
		acc2 := ts.Add(acc, sl)
		if rel == sl {
			return st.mkSeq(q.segs[: i+1 : i+1]), st.mkSeq(q.segs[i+1:])
		}
		if s.kind == SegFold {
			// position at an iteration boundary inside the fold
			if l, r, ok := st.foldSplit(s, rel); ok {
				a := append(append([]Seg{}, q.segs[:i]...), l...)
				b := append(append([]Seg{}, r...), q.segs[i+1:]...)
				return st.mkSeq(a), st.mkSeq(b)
			}
		}
		last := i == len(q.segs)-1
		var inside bool
		if last {
			inside = true
		} else {
			inside = st.Branch(ts.Ule(rel, sl))
		}
		if inside {
			// maybe exactly at a boundary
			if st.valid(ts.Eq(rel, sl)) {
				return st.mkSeq(q.segs[: i+1 : i+1]), st.mkSeq(q.segs[i+1:])
			}
			if st.valid(ts.Eq(rel, ts.I(0))) {
				return st.mkSeq(q.segs[:i:i]), st.mkSeq(q.segs[i:])
			}
			var l, r Seg
			switch s.kind {
			case SegLit:
				k, ok := st.concretize(rel, 0, len(s.vals))
				if !ok {
					st.unsupported("symbolic position in literal sequence")
				}
				l, r = Seg{kind: SegLit, vals: s.vals[:k:k]}, Seg{kind: SegLit, vals: s.vals[k:]}
			case SegAtom:
				l = Seg{kind: SegAtom, atom: s.atom, off: s.off, n: rel}
				r = Seg{kind: SegAtom, atom: s.atom, off: ts.Add(s.off, rel), n: ts.Sub(sl, rel)}
			case SegRep:
				l, r = Seg{kind: SegRep, val: s.val, n: rel}, Seg{kind: SegRep, val: s.val, n: ts.Sub(sl, rel)}
			case SegFold:
				st.unsupported("position inside a fold")
			}
			a := append(append([]Seg{}, q.segs[:i]...), l)
			b := append([]Seg{r}, q.segs[i+1:]...)
			return st.mkSeq(a), st.mkSeq(b)
		}
		acc = acc2
	}
	return q, emptySeq
}

// concretize forks until a term has a concrete value in [lo,hi]
func (st *State) concretize(t *Term, lo, hi int) (int, bool) {
	if t.IsConst() {
		return int(t.val), true
	}
	if hi-lo > 300 {
		return 0, false
	}
	for k := lo; k <= hi; k++ {
		if k == hi {
			st.Assume(st.ts.Eq(t, st.ts.BV(uint64(k), t.w())))
			return k, true
		}
		if st.Branch(st.ts.Eq(t, st.ts.BV(uint64(k), t.w()))) {
			return k, true
		}
	}
	return 0, false
}

func (st *State) seqSlice(q *Seq, lo, hi *Term) *Seq {
	if lo == hi {
		return emptySeq
	}
	if lo.IsConst() && lo.val == 0 && hi == st.seqLen(q) {
		return q
	}
	// literal fast path
	if lo.IsConst() && hi.IsConst() && len(q.segs) == 1 && q.segs[0].kind == SegLit {
		return litSeq(q.segs[0].vals[lo.val:hi.val:hi.val]...)
	}
	l, _ := st.seqSplit(q, hi)
	_, r := st.seqSplit(l, lo)
	return r
}

func (st *State) segElem(s *Seg, rel *Term) Value {
	switch s.kind {
	case SegLit:
		if rel.IsConst() {
			return s.vals[rel.val]
		}
		return st.litAt(s.vals, rel)
	case SegAtom:
		return s.atom.elem(st, st.ts.Add(s.off, rel))
	case SegRep:
		return s.val
	case SegFold:
		if s.fold.unit {
			cs := s.fold.step(st, st.ts.Add(s.off, rel))
			if len(cs) == 1 {
				return st.seqGet(cs[0].seq, st.ts.I(0))
			}
		}
	}
	st.unsupported("element of a fold")
	return nil
}

// litAt reads a literal sequence at a symbolic index (in range on this path)
func (st *State) litAt(vals []Value, idx *Term) Value {
	ts := st.ts
	allc := true
	for _, v := range vals {
		t, ok := v.(*Term)
		if !ok {
			// fork on the index
			k, ok := st.concretize(idx, 0, len(vals)-1)
			if !ok {
				st.unsupported("symbolic index into non-scalar literal")
			}
			return vals[k]
		}
		if !t.IsConst() {
			allc = false
		}
	}
	if allc && len(vals) > 8 {
		// a table of constants, defined once for the solver
		w := vals[0].(*Term).w()
		var sb strings.Builder
		for _, v := range vals {
			fmt.Fprintf(&sb, "%x.", v.(*Term).val)
		}
		name := fmt.Sprintf("tab%d_%d_%s", w, len(vals), hashStr(sb.String()))
		if _, ok := tableDefs.Load(name); !ok {
			e := fmt.Sprintf("(_ bv%d %d)", vals[len(vals)-1].(*Term).val, w)
			for i := len(vals) - 2; i >= 0; i-- {
				e = fmt.Sprintf("(ite (= i (_ bv%d %d)) (_ bv%d %d) %s)", i, idx.w(), vals[i].(*Term).val, w, e)
			}
			tableDefs.Store(name, fmt.Sprintf("(define-fun %s ((i (_ BitVec %d))) (_ BitVec %d) %s)\n", smtName(name), idx.w(), w, e))
		}
		return ts.App(name, Sort(w), idx)
	}
	r := vals[len(vals)-1].(*Term)
	for i := len(vals) - 2; i >= 0; i-- {
		r = ts.Ite(ts.Eq(idx, ts.BV(uint64(i), idx.w())), vals[i].(*Term), r)
	}
	return r
}

// seqGet: element at idx (0 <= idx < len must hold on this path)
func (st *State) seqGet(q *Seq, idx *Term) Value {
	ts := st.ts
	acc := ts.I(0)
	for i := range q.segs {
		s := &q.segs[i]
		rel := ts.Sub(idx, acc)
		sl := st.segLen(s)
		if i == len(q.segs)-1 || st.Branch(ts.Ult(rel, sl)) {
			return st.segElem(s, rel)
		}
		acc = ts.Add(acc, sl)
	}
	st.unsupported("index into empty sequence")
	return nil
}

func (st *State) seqSet(q *Seq, idx *Term, v Value) *Seq {
	if idx.IsConst() && len(q.segs) == 1 && q.segs[0].kind == SegLit {
		nv := make([]Value, len(q.segs[0].vals))
		copy(nv, q.segs[0].vals)
		nv[idx.val] = v
		return litSeq(nv...)
	}
	l, r := st.seqSplit(q, idx)
	_, r2 := st.seqSplit(r, st.ts.I(1))
	return st.seqConcat(l, litSeq(v), r2)
}

func (st *State) seqString(q *Seq) string {
	var b strings.Builder
	b.WriteString("[")
	for i := range q.segs {
		if i > 0 {
			b.WriteString(" ++ ")
		}
		s := &q.segs[i]
		switch s.kind {
		case SegLit:
			b.WriteString("<")
			for j, v := range s.vals {
				if j > 0 {
					b.WriteString(" ")
				}
				if t, ok := v.(*Term); ok && t.IsConst() {
					fmt.Fprintf(&b, "%02x", t.val)
				} else {
					b.WriteString(st.describe(v))
				}
				if j > 24 {
					b.WriteString("...")
					break
				}
			}
			b.WriteString(">")
		case SegAtom:
			fmt.Fprintf(&b, "%s[%s:+%s]", st.ts.String(s.atom.key), st.ts.String(s.off), st.ts.String(s.n))
		case SegRep:
			fmt.Fprintf(&b, "rep(%s,%s)", st.describe(s.val), st.ts.String(s.n))
		case SegFold:
			fmt.Fprintf(&b, "fold(%s,%s..%s)", s.fold.name, st.ts.String(s.off), st.ts.String(s.n))
		}
	}
	b.WriteString("]")
	return b.String()
}

// seqKey gives a U term naming the content (syntactic canonical form)
func (st *State) seqKey(q *Seq) *Term {
	ts := st.ts
	if len(q.segs) == 0 {
		return ts.App("seq.empty", SU)
	}
	var ks []*Term
	for i := range q.segs {
		ks = append(ks, st.segKey(&q.segs[i]))
	}
	k := ks[len(ks)-1]
	for i := len(ks) - 2; i >= 0; i-- {
		k = ts.App("seq.cat", SU, ks[i], k)
	}
	return k
}

func (st *State) segKey(s *Seg) *Term {
	ts := st.ts
	switch s.kind {
	case SegLit:
		var args []*Term
		sig := ""
		for _, v := range s.vals {
			k := st.valKey(v)
			args = append(args, k)
			sig += fmt.Sprintf("%d.", k.sort)
		}
		if len(sig) > 24 {
			sig = fmt.Sprintf("%d_%s", len(args), hashStr(sig))
		}
		return ts.App("seq.lit"+sig, SU, args...)
	case SegAtom:
		if s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len {
			return s.atom.key
		}
		return ts.App("seq.slice", SU, s.atom.key, s.off, s.n)
	case SegRep:
		k := st.valKey(s.val)
		return ts.App(fmt.Sprintf("seq.rep%d", k.sort), SU, k, s.n)
	case SegFold:
		return ts.App("seq.fold."+s.fold.name, SU, s.off, s.n)
	}
	return nil
}

// valKey: a term standing for a value (U for composite)
func (st *State) valKey(v Value) *Term {
	ts := st.ts
	switch x := v.(type) {
	case *Term:
		return x
	case StrV:
		return st.seqKey(x.s)
	case *Seq:
		return st.seqKey(x)
	case *StructV:
		var as []*Term
		sig := ""
		for _, f := range x.fs {
			k := st.valKey(f)
			as = append(as, k)
			sig += fmt.Sprintf("%d.", k.sort)
		}
		return ts.App("struct"+hashStr(sig), SU, as...)
	case SliceV:
		return st.seqKey(st.sliceSeq(x))
	case Ptr:
		if x.obj == nil {
			return ts.App("ptr.nil", SU)
		}
		return ts.App(fmt.Sprintf("ptr.%d.%v", x.obj.id, x.path), SU)
	case IfaceV:
		if x.t == nil {
			return ts.App("iface.nil", SU)
		}
		k := st.valKey(x.v)
		return ts.App(fmt.Sprintf("iface.%s.%d", typeString(x.t), k.sort), SU, k)
	}
	if e, ok := v.(interface{ key(st *State) *Term }); ok {
		return e.key(st)
	}
	return ts.App(fmt.Sprintf("val.%p", v), SU)
}

// elemTerm: element i (constant) of q as a pure term, given total length known > i
func (st *State) elemIte(q *Seq, i *Term) *Term {
	ts := st.ts
	var r *Term
	acc := ts.I(0)
	type piece struct {
		end *Term
		v   *Term
	}
	var ps []piece
	for k := range q.segs {
		s := &q.segs[k]
		rel := ts.Sub(i, acc)
		sl := st.segLen(s)
		acc = ts.Add(acc, sl)
		if s.kind == SegFold && !s.fold.unit {
			return nil
		}
		if rel.IsConst() && sl.IsConst() {
			if rel.val >= sl.val {
				continue // includes negative (wrapped) values only for earlier pieces
			}
		}
		if s.kind == SegLit && !rel.IsConst() {
			for _, v := range s.vals {
				if _, ok := v.(*Term); !ok {
					return nil
				}
			}
			if len(s.vals) > 64 {
				return nil
			}
		}
		v, ok := st.segElem(s, rel).(*Term)
		if !ok {
			return nil
		}
		ps = append(ps, piece{ts.Ult(rel, sl), v})
		if ps[len(ps)-1].end.IsTrue() {
			break
		}
	}
	if len(ps) == 0 {
		return nil
	}
	r = ps[len(ps)-1].v
	for k := len(ps) - 2; k >= 0; k-- {
		r = ts.Ite(ps[k].end, ps[k].v, r)
	}
	return r
}

// seqEqTerm: a Bool term for content equality
func (st *State) seqEqTerm(a, b *Seq) *Term {
	ts := st.ts
	a, b = st.stripCommon(a, b)
	la, lb := st.seqLen(a), st.seqLen(b)
	if len(a.segs) == 0 && len(b.segs) == 0 {
		return ts.True
	}
	leq := ts.Eq(la, lb)
	if leq.IsFalse() {
		return ts.Fals
	}
	if len(a.segs) == 0 || len(b.segs) == 0 {
		return leq
	}
	if st.seqKey(a) == st.seqKey(b) {
		return ts.True
	}
	// one side of constant length: element by element
	c := a
	o := b
	if !(la.IsConst() && la.val <= 128) {
		c, o = b, a
	}
	lc := st.seqLen(c)
	if lc.IsConst() && lc.val <= 128 {
		r := []*Term{leq}
		ok := true
		for i := 0; i < int(lc.val); i++ {
			ix := ts.I(i)
			x, y := st.elemIte(c, ix), st.elemIte(o, ix)
			if x == nil || y == nil {
				ok = false
				break
			}
			r = append(r, ts.Eq(x, y))
		}
		if ok {
			return ts.And(r...)
		}
	}
	if len(a.segs) == 1 && len(b.segs) == 1 && a.segs[0].kind == SegLit && b.segs[0].kind == SegLit {
		va, vb := a.segs[0].vals, b.segs[0].vals
		if len(va) != len(vb) {
			return ts.Fals
		}
		r := ts.True
		for i := range va {
			r = ts.And(r, st.valEq(va[i], vb[i], nil))
		}
		return r
	}
	ka, kb := st.seqKey(a), st.seqKey(b)
	return ts.And(leq, ts.Eq(ka, kb))
}

func (st *State) segSame(x, y *Seg) bool {
	if x.kind != y.kind {
		return false
	}
	switch x.kind {
	case SegAtom:
		return x.atom.key == y.atom.key && x.off == y.off && x.n == y.n
	case SegRep:
		return x.n == y.n && st.valKey(x.val) == st.valKey(y.val)
	case SegFold:
		return x.fold.name == y.fold.name && x.off == y.off && x.n == y.n
	}
	return false
}

func (st *State) stripCommon(a, b *Seq) (*Seq, *Seq) {
	sa, sb := append([]Seg{}, a.segs...), append([]Seg{}, b.segs...)
	for len(sa) > 0 && len(sb) > 0 {
		x, y := &sa[0], &sb[0]
		if x.kind == SegLit && y.kind == SegLit {
			k := 0
			for k < len(x.vals) && k < len(y.vals) && st.valSame(x.vals[k], y.vals[k]) {
				k++
			}
			if k == 0 {
				break
			}
			x.vals, y.vals = x.vals[k:], y.vals[k:]
			e := false
			if len(x.vals) == 0 {
				sa = sa[1:]
				e = true
			}
			if len(y.vals) == 0 {
				sb = sb[1:]
				e = true
			}
			if !e {
				break
			}
			continue
		}
		if !st.segSame(x, y) {
			break
		}
		sa, sb = sa[1:], sb[1:]
	}
	for len(sa) > 0 && len(sb) > 0 {
		x, y := &sa[len(sa)-1], &sb[len(sb)-1]
		if x.kind == SegLit && y.kind == SegLit {
			k := 0
			for k < len(x.vals) && k < len(y.vals) && st.valSame(x.vals[len(x.vals)-1-k], y.vals[len(y.vals)-1-k]) {
				k++
			}
			if k == 0 {
				break
			}
			x.vals, y.vals = x.vals[:len(x.vals)-k], y.vals[:len(y.vals)-k]
			e := false
			if len(x.vals) == 0 {
				sa = sa[:len(sa)-1]
				e = true
			}
			if len(y.vals) == 0 {
				sb = sb[:len(sb)-1]
				e = true
			}
			if !e {
				break
			}
			continue
		}
		if !st.segSame(x, y) {
			break
		}
		sa, sb = sa[:len(sa)-1], sb[:len(sb)-1]
	}
	return st.mkSeq(sa), st.mkSeq(sb)
}

func (st *State) valSame(a, b Value) bool {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 {
		return x == y
	}
	if ok1 != ok2 {
		return false
	}
	return st.valKey(a) == st.valKey(b)
}

// seqGoal reduces "a equals b" to a list of terms to prove, aligning the ropes
// by forking where a length comparison is open. ok=false: no alignment found.
func (st *State) seqGoal(a, b *Seq) []*Term {
	ts := st.ts
	goals := []*Term{ts.Eq(st.seqLen(a), st.seqLen(b))}
	for {
		a, b = st.stripCommon(a, b)
		if len(a.segs) == 0 || len(b.segs) == 0 {
			return goals
		}
		x, y := a.segs[0], b.segs[0]
		// drop empty heads
		drop := func(q *Seq) (*Seq, bool) {
			s := &q.segs[0]
			if s.kind == SegLit {
				return q, false
			}
			l := st.segLen(s)
			if l.IsConst() {
				return q, false
			}
			if st.valid(ts.Eq(l, ts.I(0))) {
				return st.mkSeq(q.segs[1:]), true
			}
			return q, false
		}
		var d bool
		if a, d = drop(a); d {
			continue
		}
		if b, d = drop(b); d {
			continue
		}
		switch {
		case x.kind == SegLit && y.kind == SegLit:
			k := len(x.vals)
			if len(y.vals) < k {
				k = len(y.vals)
			}
			for i := 0; i < k; i++ {
				goals = append(goals, st.valEq(x.vals[i], y.vals[i], nil))
			}
			_, a = st.seqSplit(a, ts.I(k))
			_, b = st.seqSplit(b, ts.I(k))
			continue
		case x.kind == SegAtom && y.kind == SegAtom && (x.atom.key == y.atom.key || st.valid(ts.Eq(x.atom.key, y.atom.key))) && (x.off == y.off || st.valid(ts.Eq(x.off, y.off))):
			n := x.n
			if x.n != y.n && !st.valid(ts.Eq(x.n, y.n)) {
				if !st.Branch(ts.Ule(x.n, y.n)) {
					n = y.n
				}
			}
			_, a = st.seqSplit(a, n)
			if n == x.n && st.valid(ts.Eq(x.n, y.n)) {
				n = y.n
			}
			_, b = st.seqSplit(b, n)
			continue
		case x.kind == SegRep && y.kind == SegRep:
			n := x.n
			if x.n != y.n && !st.Branch(ts.Ule(x.n, y.n)) {
				n = y.n
			}
			goals = append(goals, st.valEq(x.val, y.val, nil))
			_, a = st.seqSplit(a, n)
			_, b = st.seqSplit(b, n)
			continue
		case x.kind == SegFold && y.kind == SegFold:
			if gs, ok := st.foldEqGoal(&x, &y); ok {
				goals = append(goals, gs...)
				a, b = st.mkSeq(a.segs[1:]), st.mkSeq(b.segs[1:])
				continue
			}
		case x.kind == SegLit || y.kind == SegLit:
			lit, oth := &x, &y
			if y.kind == SegLit {
				lit, oth = &y, &x
			}
			if oth.kind == SegFold && !oth.fold.unit {
				if st.foldUnfoldHead(oth) {
					// expose one step
					if x.kind == SegFold {
						a = st.exposeHead(a)
					} else {
						b = st.exposeHead(b)
					}
					continue
				}
				break
			}
			ol := st.segLen(oth)
			if !st.Branch(ts.Ult(ts.I(0), ol)) {
				continue // becomes droppable
			}
			goals = append(goals, st.valEqAny(lit.vals[0], st.segElem(oth, ts.I(0))))
			_, a = st.seqSplit(a, ts.I(1))
			_, b = st.seqSplit(b, ts.I(1))
			continue
		}
		// different whole atoms of equal length?
		if len(a.segs) == 1 && len(b.segs) == 1 {
			ka, kb := st.seqKey(a), st.seqKey(b)
			if st.valid(ts.Eq(ka, kb)) {
				return goals
			}
		}
		// last resort: an arbitrary index
		i := st.fresh("idx", 64)
		st.AssumeSilent(ts.And(ts.Ult(i, st.seqLen(a)), ts.Ult(i, st.seqLen(b))))
		ex, ey := st.elemIte(a, i), st.elemIte(b, i)
		if ex == nil || ey == nil {
			if len(a.segs) == 1 && len(b.segs) == 1 {
				vx, vy := st.segElem(&a.segs[0], i), st.segElem(&b.segs[0], i)
				goals = append(goals, st.valEqAny(vx, vy))
				return goals
			}
			goals = append(goals, ts.Fals)
			return goals
		}
		goals = append(goals, ts.Eq(ex, ey))
		return goals
	}
}

// valEqAny compares values allowing deep comparison of slices by content
func (st *State) valEqAny(a, b Value) *Term {
	if x, ok := a.(SliceV); ok {
		return st.seqEqTerm(st.sliceSeq(x), st.sliceSeq(b.(SliceV)))
	}
	return st.valEq(a, b, nil)
}
