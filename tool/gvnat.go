package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (st *State) str(v Value) string {
	s, ok := st.concreteStr(v.(StrV).s)
	if !ok {
		st.unsupported("symbolic specification label")
	}
	return s
}

func (st *State) drawBV(name string, w int) *Term {
	n := st.drawName(name)
	t := st.ts.Var("in."+n, Sort(w))
	st.draws = append(st.draws, &Draw{Name: n, Kind: "u", T: t})
	return t
}

// arbitrary bytes
func (st *State) drawBytes(name string, kind string) *Seq {
	ts := st.ts
	n := st.drawName(name)
	key := ts.Var("in."+n, SU)
	ln := ts.Var("in."+n+".len", 64)
	st.AssumeSilent(ts.Ule(ln, ts.BV(1<<34, 64)))
	a := &Atom{key: key, len: ln, kind: kind}
	a.elem = func(st *State, idx *Term) Value { return ts.App("at8", 8, key, idx) }
	q := atomSeq(a, ts.I(0))
	st.draws = append(st.draws, &Draw{Name: n, Kind: "bytes", Q: q})
	return q
}

func (st *State) drawBytesN(name string, k int) *Seq {
	n := st.drawName(name)
	vs := make([]Value, k)
	for i := range vs {
		vs[i] = st.ts.Var(fmt.Sprintf("in.%s.%d", n, i), 8)
	}
	q := litSeq(vs...)
	st.draws = append(st.draws, &Draw{Name: n, Kind: "bytes", Q: q})
	return q
}

func init() {
	g := gvNatives
	for nm, w := range map[string]int{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64, "Int": 64} {
		w := w
		g[nm] = func(st *State, fn *ssa.Function, a []Value) Value { return st.drawBV(st.str(a[0]), w) }
	}
	g["Small"] = func(st *State, fn *ssa.Function, a []Value) Value {
		t := st.drawBV(st.str(a[0]), 64)
		st.Assume(st.ts.Ule(t, a[1].(*Term)))
		return t
	}
	g["Bool"] = func(st *State, fn *ssa.Function, a []Value) Value {
		n := st.drawName(st.str(a[0]))
		t := st.ts.Var("in."+n, SBool)
		st.draws = append(st.draws, &Draw{Name: n, Kind: "bool", T: t})
		return t
	}
	g["AnySyncMap"] = func(st *State, fn *ssa.Function, a []Value) Value {
		m := st.loadNative(a[0]).(*SyncMapV).m
		gen := a[1].(*Closure)
		m.base = &MapBase{name: "any", gen: func(st *State, k Value) (Value, *Term) {
			st.atomicN++
			defer func() { st.atomicN-- }()
			t := st.callValue(gen, []Value{k}).(TupleV)
			return t[0], t[1].(*Term)
		}}
		return nil
	}
	g["Ghost"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Var("ghost."+st.drawName(st.str(a[0])), SBool)
	}
	g["Choice"] = func(st *State, fn *ssa.Function, a []Value) Value {
		t := st.drawBV(st.str(a[0]), 64)
		n := a[1].(*Term)
		if !n.IsConst() {
			st.unsupported("symbolic Choice")
		}
		k := st.Choice(int(n.val))
		st.AssumeSilent(st.ts.Eq(t, st.ts.I(k)))
		return st.ts.I(k)
	}
	g["Bytes"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.bytesOf(st.drawBytes(st.str(a[0]), "var"))
	}
	g["BytesN"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.bytesOf(st.drawBytesN(st.str(a[0]), int(a[1].(*Term).val)))
	}
	g["String"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return StrV{st.drawBytes(st.str(a[0]), "var")}
	}
	g["StringN"] = func(st *State, fn *ssa.Function, a []Value) Value {
		n := a[1].(*Term)
		k, ok := st.concretize(n, 0, 64)
		if !ok {
			st.unsupported("StringN")
		}
		return StrV{st.drawBytesN(st.str(a[0]), k)}
	}
	g["Text"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q := st.drawBytes(st.str(a[0]), "var")
		st.AssumeSilent(st.ts.App("utf8.valid", SBool, st.seqKey(q)))
		st.run.assumption("strings drawn by the specification are valid UTF-8 (Go text); UTF-8 validity is an uninterpreted predicate of the text")
		return StrV{q}
	}
	g["Assume"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.Assume(a[0].(*Term))
		return nil
	}
	g["Assert"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.Oblige(st.str(a[1]), a[0].(*Term))
		return nil
	}
	g["AssertEqBytes"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.obligeSeq(st.str(a[2]), st.sliceSeq(a[0].(SliceV)), st.sliceSeq(a[1].(SliceV)))
		return nil
	}
	g["EqBytes"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.seqEqTerm(st.sliceSeq(a[0].(SliceV)), st.sliceSeq(a[1].(SliceV)))
	}
	g["Cover"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.covers[st.str(a[0])] = true
		return nil
	}
	g["Panics"] = func(st *State, fn *ssa.Function, a []Value) (res Value) {
		nf := len(st.cur.frames)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(*goPanic); !ok {
					panic(r)
				}
				st.cur.frames = st.cur.frames[:nf]
				res = st.ts.True
			}
		}()
		st.callValue(a[0], nil)
		return st.ts.Fals
	}
	g["Use"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.contracts[st.str(a[0])] = a[1].(IfaceV).v.(*Closure)
		return nil
	}
	g["Body"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.bodyOnce[st.str(a[0])]++
		return nil
	}
	g["Unroll"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.unroll = int(a[0].(*Term).val)
		return nil
	}
	g["Bounded"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.run.bound("inputs", st.str(a[0]))
		return nil
	}
	g["Cut"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.cutOn = true
		return nil
	}
	g["Invariant"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if st.invs == nil {
			st.invs = map[string]*Closure{}
		}
		st.invs[st.str(a[0])] = a[1].(IfaceV).v.(*Closure)
		return nil
	}
	g["Havoc"] = func(st *State, fn *ssa.Function, a []Value) Value {
		p, ok := a[0].(IfaceV).v.(Ptr)
		if !ok || p.obj == nil {
			return nil
		}
		et := a[0].(IfaceV).t.Underlying().(*types.Pointer).Elem()
		st.store(p, st.arbitrary("hv", st.load(p), et, nil))
		return nil
	}
	g["recAt"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.App("rec."+st.str(a[1]), SBool, a[2].(*Term))
	}
	g["Alloc"] = func(st *State, fn *ssa.Function, a []Value) Value {
		old := st.allocLim
		st.allocLim = a[0].(*Closure)
		defer func() { st.allocLim = old }()
		st.callValue(a[1], nil)
		return nil
	}
	g["Eval"] = func(st *State, fn *ssa.Function, a []Value) Value {
		old := st.allocLim
		st.allocLim = nil
		st.atomicN++
		defer func() { st.allocLim = old; st.atomicN-- }()
		st.callValue(a[0], nil)
		return nil
	}
	g["Go"] = func(st *State, fn *ssa.Function, a []Value) Value {
		et := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		th := st.spawn(a[0], nil, nil)
		o := st.newObj(et, st.zero(et))
		o.th = th
		return Ptr{obj: o}
	}
	g["taskDone"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Bool(a[0].(Ptr).obj.th.done)
	}
	g["Settle"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.settle()
		return nil
	}
	g["Interleave"] = func(st *State, fn *ssa.Function, a []Value) Value {
		n := int(a[0].(*Term).val)
		st.preempt = n > 0
		st.budget, st.budget0 = n, n
		return nil
	}
	g["MapOrder"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.oneOrder = !a[0].(*Term).IsTrue()
		return nil
	}
	g["Threads"] = func(st *State, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, t := range st.threads[1:] {
			if !t.done {
				n++
			}
		}
		return st.ts.I(n)
	}
	g["FireTimers"] = func(st *State, fn *ssa.Function, a []Value) Value {
		l, _ := st.nat["timers"].(*timerList)
		if l == nil {
			return nil
		}
		for _, c := range l.chs {
			if len(c.buf) < c.cap_ {
				st.selectOp([]selCase{{ch: c, send: true, v: st.zero(c.et)}}, false)
			}
		}
		l.chs = nil
		return nil
	}
}

// obligeSeq: content equality, reduced by aligning the two ropes
func (st *State) obligeSeq(label string, a, b *Seq) {
	gs := st.seqGoal(a, b)
	// proved together first; one by one when that fails, to tell which part
	all := st.ts.And(gs...)
	if st.pos >= len(st.prefix) && st.nocheck == 0 && len(gs) > 1 && !all.IsTrue() && !st.validNow(all) {
		for _, g := range gs {
			st.Oblige(label, g)
		}
		return
	}
	st.Oblige(label, all)
}
