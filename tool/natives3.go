package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// byteSet: which bytes of a text a search accepts
type byteSet [4]uint64

func (b *byteSet) add(c byte)      { b[c>>6] |= 1 << (c & 63) }
func (b *byteSet) has(c byte) bool { return b[c>>6]>>(c&63)&1 != 0 }
func (b *byteSet) name() string    { return fmt.Sprintf("%x_%x_%x_%x", b[0], b[1], b[2], b[3]) }

func (st *State) inByteSet(c *Term, b *byteSet) *Term {
	ts := st.ts
	r := ts.Fals
	for lo := 0; lo < 256; {
		if !b.has(byte(lo)) {
			lo++
			continue
		}
		hi := lo
		for hi < 255 && b.has(byte(hi+1)) {
			hi++
		}
		r = ts.Or(r, ts.And(ts.Ule(ts.BV(uint64(lo), 8), c), ts.Ule(c, ts.BV(uint64(hi), 8))))
		lo = hi + 1
	}
	return r
}

// funcByteSet is the set of ASCII characters a predicate on runes accepts; it must not accept any other rune
func (st *State) funcByteSet(f Value) *byteSet {
	ts := st.ts
	var b byteSet
	for c := 0; c < 128; c++ {
		r, ok := st.callValue(f, []Value{ts.BV(uint64(c), 32)}).(*Term)
		if !ok || !r.IsTrue() && !r.IsFalse() {
			st.unsupported("character predicate that is not a function of the character")
		}
		if r.IsTrue() {
			b.add(byte(c))
		}
	}
	r := st.fresh("rune", 32)
	st.AssumeSilent(ts.And(ts.Ule(ts.BV(128, 32), r), ts.Ule(r, ts.BV(0x10ffff, 32))))
	t, ok := st.callValue(f, []Value{r}).(*Term)
	if !ok || !st.valid(ts.Not(t)) {
		st.unsupported("character predicate that accepts characters beyond ASCII")
	}
	return &b
}

// lastIndexSet: position of the last byte of the text in the set, -1 if there is none
func (st *State) lastIndexSet(q *Seq, b *byteSet) *Term {
	ts := st.ts
	end := st.seqLen(q)
	for i := len(q.segs) - 1; i >= 0; i-- {
		s := &q.segs[i]
		n := st.segLen(s)
		start := ts.Sub(end, n)
		switch {
		case s.kind == SegLit:
			for k := len(s.vals) - 1; k >= 0; k-- {
				if st.Branch(st.inByteSet(s.vals[k].(*Term), b)) {
					return ts.Add(start, ts.I(k))
				}
			}
		case s.kind == SegAtom && n.IsConst() && n.val <= 24:
			for k := int(n.val) - 1; k >= 0; k-- {
				if st.Branch(st.inByteSet(st.segElem(s, ts.I(k)).(*Term), b)) {
					return ts.Add(start, ts.I(k))
				}
			}
		case s.kind == SegAtom:
			if s.atom.kind == "utoa" || s.atom.kind == "itoa" {
				none := s.atom.kind == "utoa" || !b.has('-')
				for c := byte('0'); c <= '9'; c++ {
					none = none && !b.has(c)
				}
				if none {
					break
				}
			}
			r := ts.App("lastindex_"+b.name(), 64, st.segKey(s))
			st.run.assumption("the last index of a character in a text of symbolic length: a function of the text, -1 or the position of such a character")
			st.AssumeSilent(ts.Or(ts.Eq(r, ts.I(-1)), ts.Ult(r, n)))
			if !st.Branch(ts.Eq(r, ts.I(-1))) {
				st.AssumeSilent(st.inByteSet(st.segElem(s, r).(*Term), b))
				return ts.Add(start, r)
			}
		default:
			st.unsupported("search in a text of this form")
		}
		end = start
	}
	return ts.I(-1)
}

func init() {
	n := natives
	n["strings.LastIndexFunc"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.lastIndexSet(a[0].(StrV).s, st.funcByteSet(a[1]))
	}
	n["strings.LastIndexAny"] = func(st *State, fn *ssa.Function, a []Value) Value {
		s, ok := st.concreteStr(a[1].(StrV).s)
		if !ok {
			st.unsupported("LastIndexAny of symbolic characters")
		}
		var b byteSet
		for i := 0; i < len(s); i++ {
			if s[i] >= 128 {
				st.unsupported("LastIndexAny of characters beyond ASCII")
			}
			b.add(s[i])
		}
		return st.lastIndexSet(a[0].(StrV).s, &b)
	}
	// 64-bit carries in the solver's own arithmetic
	carry := func(name string, sub bool) {
		n["math/bits."+name] = func(st *State, fn *ssa.Function, a []Value) Value {
			ts := st.ts
			x, y, c := a[0].(*Term), a[1].(*Term), a[2].(*Term)
			in := ts.Eq(ts.Extract(c, 0, 0), ts.BV(1, 1))
			if !c.IsConst() && !st.valid(ts.Ule(c, ts.I(1))) {
				st.unsupported("carry other than 0 or 1")
			}
			var r, out *Term
			if sub {
				r = ts.Sub(ts.Sub(x, y), c)
				out = ts.Or(ts.Ult(x, y), ts.And(in, ts.Eq(x, y)))
			} else {
				r = ts.Add(ts.Add(x, y), c)
				out = ts.Or(ts.Ult(ts.Add(x, y), x), ts.And(in, ts.Eq(ts.Add(x, y), ts.I(-1))))
			}
			return TupleV{r, ts.Ite(out, ts.I(1), ts.I(0))}
		}
	}
	carry("Sub64", true)
	carry("Add64", false)
}
