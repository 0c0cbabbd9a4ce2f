package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Merging of side-effect-free branches: a conditional whose arms only compute
// values is evaluated as if-then-else terms instead of splitting the path.

type region struct {
	join   *ssa.BasicBlock // nil: every path returns
	blocks []*ssa.BasicBlock
}

type mergeAbort struct{}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup,
		*ssa.Extract, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.Slice:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Call:
		switch f := x.Call.Value.(type) {
		case *ssa.Builtin:
			return f.Name() == "len" || f.Name() == "cap" || f.Name() == "min" || f.Name() == "max"
		case *ssa.Function:
			return true
		}
	}
	return false
}

// regionOf: the blocks between b and the point where its branches meet again
func (e *Engine) regionOf(b *ssa.BasicBlock) *region {
	if v, ok := e.regCache.Load(b); ok {
		return v.(*region)
	}
	var r *region
	defer func() { e.regCache.Store(b, r) }()
	fn := b.Parent()
	n := len(fn.Blocks)
	if n > 400 {
		return nil
	}
	pd := e.postDoms(fn)
	// closest strict post-dominator
	var join *ssa.BasicBlock
	best := -1
	for i := 0; i < n; i++ {
		if i != b.Index && pd[b.Index][i] {
			c := 0
			for j := 0; j < n; j++ {
				if pd[i][j] {
					c++
				}
			}
			if c > best {
				best, join = c, fn.Blocks[i]
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	bad := false
	state := map[*ssa.BasicBlock]int{}
	var dfs func(x *ssa.BasicBlock)
	dfs = func(x *ssa.BasicBlock) {
		if x == join || bad {
			return
		}
		if x == b || state[x] == 1 || len(seen) > 40 {
			bad = true
			return
		}
		if state[x] == 2 {
			return
		}
		state[x] = 1
		seen[x] = true
		if e.isLoopHeader(x) {
			bad = true
			return
		}
		for _, in := range x.Instrs {
			if !pureInstr(in) {
				bad = true
				return
			}
		}
		if len(x.Succs) == 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); !ok || join != nil {
				bad = true
				return
			}
		}
		for _, s := range x.Succs {
			dfs(s)
		}
		state[x] = 2
		order = append(order, x)
	}
	for _, s := range b.Succs {
		dfs(s)
	}
	if bad {
		return nil
	}
	// entering the region only from inside
	for x := range seen {
		for _, p := range x.Preds {
			if p != b && !seen[p] {
				return nil
			}
		}
	}
	if join != nil {
		np := 0
		for _, in := range join.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				np++
			}
		}
		if np == 0 {
			// nothing is computed: arms without effect
		}
	}
	sort.SliceStable(order, func(i, j int) bool { return false })
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	r = &region{join: join, blocks: order}
	return r
}

// postDoms: post-dominator sets (indexes of blocks); the exit is virtual
func (e *Engine) postDoms(fn *ssa.Function) []map[int]bool {
	if v, ok := e.pdCache.Load(fn); ok {
		return v.([]map[int]bool)
	}
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	for i := range pd {
		pd[i] = map[int]bool{}
		if len(fn.Blocks[i].Succs) == 0 {
			pd[i][i] = true
		} else {
			for j := 0; j < n; j++ {
				pd[i][j] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			ss := fn.Blocks[i].Succs
			if len(ss) == 0 {
				continue
			}
			for j := range pd[i] {
				if j == i {
					continue
				}
				for _, s := range ss {
					if !pd[s.Index][j] {
						delete(pd[i], j)
						ch = true
						break
					}
				}
			}
		}
	}
	e.pdCache.Store(fn, pd)
	return pd
}

func mergeable(ts *TermStore, g *Term, a, b Value) (Value, bool) {
	if a == nil || b == nil {
		return nil, false
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if ok1 && ok2 {
		if x == y {
			return x, true
		}
		if x.sort != y.sort || x.sort == SU || x.sort == 64 {
			return nil, false
		}
		return ts.Ite(g, x, y), true
	}
	if ok1 || ok2 {
		return nil, false
	}
	switch p := a.(type) {
	case Ptr:
		q, ok := b.(Ptr)
		return a, ok && ptrEqSyn(p, q)
	case *StructV:
		return a, a == b
	case *MapObj, *ChanObj, *Closure, *Seq:
		return a, a == b
	case IfaceV:
		q, ok := b.(IfaceV)
		return a, ok && p.t == nil && q.t == nil
	case TupleV:
		q, ok := b.(TupleV)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		out := make(TupleV, len(p))
		for i := range p {
			v, ok := mergeable(ts, g, p[i], q[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case StrV:
		q, ok := b.(StrV)
		return a, ok && p.s == q.s
	}
	return nil, false
}

// tryMerge evaluates the region behind a symbolic branch. ok: the frame is at
// the join (phis set, next returned) or has returned (next nil).
func (st *State) tryMerge(fr *Frame, b *ssa.BasicBlock, c *Term) (next *ssa.BasicBlock, ok bool) {
	rg := st.eng.regionOf(b)
	if rg == nil {
		return nil, false
	}
	ts := st.ts
	nf := len(st.cur.frames)
	savedPrev, savedBlock, savedPos := fr.prev, fr.block, fr.pos
	savedRes := fr.result
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, *goPanic:
			default:
				if _, isU := r.(*unsupportedErr); !isU {
					panic(r)
				}
			}
			st.cur.frames = st.cur.frames[:nf]
			fr.prev, fr.block, fr.pos, fr.result = savedPrev, savedBlock, savedPos, savedRes
			next, ok = nil, false
		}
	}()
	st.pure++
	defer func() { st.pure-- }()
	type edge struct{ from, to *ssa.BasicBlock }
	eg := map[edge]*Term{}
	addEdge := func(f, t *ssa.BasicBlock, g *Term) {
		if o := eg[edge{f, t}]; o != nil {
			g = ts.Or(o, g)
		}
		eg[edge{f, t}] = g
	}
	addEdge(b, b.Succs[0], c)
	addEdge(b, b.Succs[1], ts.Not(c))
	var ret Value
	haveRet := false
	savedGuard := st.guard
	defer func() { st.guard = savedGuard }()
	phis := func(x *ssa.BasicBlock) []Value {
		var vs []Value
		for _, in := range x.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var v Value
			first := true
			for i, pr := range x.Preds {
				g := eg[edge{pr, x}]
				if g == nil || g.IsFalse() {
					continue
				}
				dup := false
				for _, q := range x.Preds[:i] {
					if q == pr {
						dup = true // both arms lead straight here
					}
				}
				if dup {
					// the edge index tells which arm; only a branch to the same block twice
					panic(mergeAbort{})
				}
				pv := st.val(fr, p.Edges[i])
				if first {
					v, first = pv, false
					continue
				}
				m, ok := mergeable(ts, g, pv, v)
				if !ok {
					panic(mergeAbort{})
				}
				v = m
			}
			if first {
				panic(mergeAbort{})
			}
			vs = append(vs, v)
		}
		return vs
	}
	for _, x := range rg.blocks {
		g := ts.Fals
		for _, p := range x.Preds {
			if q := eg[edge{p, x}]; q != nil {
				g = ts.Or(g, q)
			}
		}
		if g.IsFalse() {
			continue
		}
		st.guard = g
		if savedGuard != nil {
			st.guard = ts.And(savedGuard, g)
		}
		vs := phis(x)
		for i, v := range vs {
			fr.env[x.Instrs[i].(*ssa.Phi)] = v
		}
		fr.block = x
		for _, in := range x.Instrs[len(vs):] {
			st.steps++
			switch y := in.(type) {
			case *ssa.If:
				cc := st.val(fr, y.Cond).(*Term)
				addEdge(x, x.Succs[0], ts.And(g, cc))
				addEdge(x, x.Succs[1], ts.And(g, ts.Not(cc)))
			case *ssa.Jump:
				addEdge(x, x.Succs[0], g)
			case *ssa.Return:
				var v Value
				switch len(y.Results) {
				case 0:
					v = TupleV{}
				case 1:
					v = st.val(fr, y.Results[0])
				default:
					tv := make(TupleV, len(y.Results))
					for i, r := range y.Results {
						tv[i] = st.val(fr, r)
					}
					v = tv
				}
				if !haveRet {
					ret, haveRet = v, true
				} else {
					m, ok := mergeable(ts, g, v, ret)
					if !ok {
						panic(mergeAbort{})
					}
					ret = m
				}
			default:
				st.instr(fr, in)
			}
		}
	}
	if rg.join == nil {
		if !haveRet {
			panic(mergeAbort{})
		}
		fr.result = ret
		if t, ok := ret.(TupleV); ok && len(t) == 0 {
			fr.result = nil
		}
		return nil, true
	}
	vs := phis(rg.join)
	fr.phiOver = vs
	// any predecessor inside: the phis are already decided
	for _, p := range rg.join.Preds {
		if eg[edge{p, rg.join}] != nil {
			fr.prev = p
		}
	}
	return rg.join, true
}
