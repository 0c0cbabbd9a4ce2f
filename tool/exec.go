package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Value
	pos       token.Pos
	defers    []*deferred
	panicking *goPanic
	recovered bool
	deferOf   *Frame
	prev      *ssa.BasicBlock
	block     *ssa.BasicBlock
	visits    map[*ssa.BasicBlock]int
	symexits  map[*ssa.BasicBlock]int
	iters     map[*ssa.BasicBlock]*iterInfo
	result    Value
	id        int
	loopst    map[*ssa.BasicBlock]*loopState
	phiOver   []Value // phi values of the next block, already merged
}

type loopState struct{}

func (st *State) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x)
	case *ssa.Global:
		return Ptr{obj: st.global(x)}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return &Closure{name: "builtin:" + x.Name()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.env[fr.fn.FreeVars[i]]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		st.unsupported("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (st *State) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return st.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return st.ts.Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrV{st.strSeq(constant.StringVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			w := basicWidth(u)
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return st.ts.BV(uint64(i), w)
			}
			i, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return st.ts.BV(i, w)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if basicWidth(u) == 32 {
				return st.ts.BV(uint64(math.Float32bits(float32(f))), 32)
			}
			return st.ts.BV(math.Float64bits(f), 64)
		}
	case *types.TypeParam:
		st.unsupported("constant of type parameter")
	}
	st.unsupported("constant %v of type %v", c, t)
	return nil
}

func (st *State) global(g *ssa.Global) *Obj {
	if o, ok := st.globals[g]; ok {
		return o
	}
	et := g.Type().(*types.Pointer).Elem()
	o := st.newObj(et, nil)
	o.note = g.String()
	st.globals[g] = o
	if st.eng.ownPkg(g.Pkg) {
		o.val = st.zero(et)
		return o
	}
	if f, ok := nativeGlobals[g.String()]; ok {
		o.val = f(st)
		return o
	}
	if types.Identical(et, types.Universe.Lookup("error").Type()) {
		o.val = st.namedErr(g.String())
		return o
	}
	if _, ok := under(et).(*types.Struct); ok && under(et).(*types.Struct).NumFields() == 0 {
		o.val = st.zero(et)
		return o
	}
	// run the initialiser of that package once
	st.lazyInit(g.Pkg)
	if o.val == nil {
		o.val = st.zero(et)
	}
	return o
}

// lazyInit executes the package initialiser of a dependency for its globals
func (st *State) lazyInit(p *ssa.Package) {
	if st.inited[p] {
		return
	}
	st.inited[p] = true
	init := p.Func("init")
	if init == nil {
		return
	}
	if !st.eng.initOK(p.Pkg.Path()) {
		st.unsupported("global of package %s", p.Pkg.Path())
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, have := st.globals[g]; !have || st.globals[g].val == nil {
				et := g.Type().(*types.Pointer).Elem()
				ob := st.globals[g]
				if ob == nil {
					ob = st.newObj(et, nil)
					st.globals[g] = ob
				}
				ob.val = st.zero(et)
			}
		}
	}
	if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
		st.globals[g].val = st.ts.Fals
	}
	st.runFunc(init, nil, nil, nil)
}

func (st *State) callValue(f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok {
		st.unsupported("call of %T", f)
	}
	if c == nil {
		st.goPanicRT("nil func call")
	}
	if c.native != nil {
		if st.pure > 0 {
			panic(mergeAbort{})
		}
		return c.native(st, args)
	}
	return st.callFn(c.fn, args, c.free, nil, nil)
}

// natives without effects on the state
var pureNative = map[string]bool{"math.Float64bits": true, "math.Float32bits": true, "math/bits.Len64": true}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.RelString(nil)
	}
	return fn.RelString(nil)
}

func (st *State) callFn(fn *ssa.Function, args, free []Value, deferOf *Frame, call *ssa.CallCommon) Value {
	name := fnName(fn)
	if fn.Synthetic == "package initializer" {
		if !st.eng.ownPkg(fn.Pkg) {
			return nil
		}
	}
	if c, ok := st.contracts[name]; ok {
		if st.pure > 0 {
			panic(mergeAbort{})
		}
		if st.bodyOnce[name] > 0 {
			st.bodyOnce[name]--
		} else {
			st.run.useContract(name)
			return st.callValue(c, args)
		}
	}
	if st.pure > 0 && !pureNative[name] {
		if _, ok := natives[name]; ok {
			panic(mergeAbort{})
		}
		if isGv(fn) {
			panic(mergeAbort{})
		}
	}
	if r, ok := redirects[name]; ok {
		if f := st.gvFunc(r); f != nil {
			st.run.useNative(name)
			return st.runFunc(f, args, free, deferOf)
		}
	}
	if nf, ok := natives[name]; ok {
		if call == nil {
			call = &ssa.CallCommon{}
		}
		st.run.useNative(name)
		return nf(st, fn, args)
	}
	if isGv(fn) {
		if nf, ok := gvNatives[fn.Name()]; ok && (fn.Signature.Recv() == nil) {
			return nf(st, fn, args)
		}
	}
	if fn.Blocks == nil {
		st.unsupported("external function %s", name)
	}
	st.run.useFunc(fn)
	return st.runFunc(fn, args, free, deferOf)
}

func isGv(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	return p != nil && p.Pkg.Path() == gvPath
}

func (st *State) runFunc(fn *ssa.Function, args, free []Value, deferOf *Frame) (ret Value) {
	if st.eng.denied(fn) {
		st.unsupported("function outside the verified subset: %s", fnName(fn))
	}
	th := st.cur
	if len(th.frames) > 400 {
		st.unsupported("call depth")
	}
	fr := &Frame{fn: fn, env: make(map[ssa.Value]Value, 16), deferOf: deferOf, pos: fn.Pos()}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	th.frames = append(th.frames, fr)
	nfr := len(th.frames)
	defer func() {
		if len(th.frames) >= nfr {
			th.frames = th.frames[:nfr-1]
		}
	}()
	hasDefer := st.eng.hasDefer(fn)
	if hasDefer && st.pure > 0 {
		panic(mergeAbort{})
	}
	if !hasDefer {
		st.exec(fr, fn.Blocks[0])
		return fr.result
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = gp
			}
		}()
		st.exec(fr, fn.Blocks[0])
	}()
	if fr.panicking != nil {
		th.frames = th.frames[:nfr]
		for len(fr.defers) > 0 {
			st.runDefers(fr)
		}
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fn.Recover != nil {
			st.exec(fr, fn.Recover)
			return fr.result
		}
		return st.zeroResults(fn)
	}
	return fr.result
}

func (st *State) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return st.zero(r.At(0).Type())
	}
	return st.zero(r)
}

// runDefers runs deferred calls; on a panicking frame a recover() clears it
func (st *State) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			if fr.panicking != nil {
				defer func() {
					if r := recover(); r != nil {
						gp, ok := r.(*goPanic)
						if !ok {
							panic(r)
						}
						fr.panicking = gp
					}
				}()
			}
			st.callDeferred(fr, d)
		}()
	}
}

func (st *State) callDeferred(fr *Frame, d *deferred) {
	c := d.fn.(*Closure)
	if c != nil && c.fn != nil {
		st.callFn(c.fn, d.args, c.free, fr, d.call)
		return
	}
	if c != nil && len(c.name) > 8 && c.name[:8] == "builtin:" {
		st.builtin(fr, c.name[8:], d.args, d.call)
		return
	}
	st.callValue(d.fn, d.args)
}

func (st *State) exec(fr *Frame, b *ssa.BasicBlock) {
	for b != nil {
		fr.block = b
		if st.eng.isLoopHeader(b) {
			nb, handled := st.enterLoopHeader(fr, b)
			if handled {
				b = nb
				continue
			}
		}
		// phis in parallel
		var phiV []Value
		np := 0
		over := fr.phiOver
		fr.phiOver = nil
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			np++
			if over != nil {
				phiV = over
				continue
			}
			for i, p := range b.Preds {
				if p == fr.prev {
					phiV = append(phiV, st.val(fr, phi.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < np; i++ {
			fr.env[b.Instrs[i].(*ssa.Phi)] = phiV[i]
		}
		b = st.execFrom(fr, b, np)
	}
}

func (st *State) execFrom(fr *Frame, b *ssa.BasicBlock, from int) *ssa.BasicBlock {
	for _, in := range b.Instrs[from:] {
		st.steps++
		if st.steps > st.eng.maxSteps {
			st.unsupported("step limit")
		}
		if p := in.Pos(); p.IsValid() {
			fr.pos = p
		}
		switch x := in.(type) {
		case *ssa.If:
			c := st.val(fr, x.Cond).(*Term)
			k := 1
			if _, known := st.known(c); !known {
				if nb, ok := st.tryMerge(fr, b, c); ok {
					return nb
				}
			}
			if st.branchIf(fr, b, c) {
				k = 0
			}
			fr.prev = b
			return b.Succs[k]
		case *ssa.Jump:
			fr.prev = b
			return b.Succs[0]
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
			case 1:
				fr.result = st.val(fr, x.Results[0])
			default:
				tv := make(TupleV, len(x.Results))
				for i, r := range x.Results {
					tv[i] = st.val(fr, r)
				}
				fr.result = tv
			}
			return nil
		case *ssa.Panic:
			v := st.val(fr, x.X).(IfaceV)
			panic(&goPanic{val: v, pos: st.where()})
		default:
			st.instr(fr, in)
		}
	}
	return nil
}

func (st *State) branchIf(fr *Frame, b *ssa.BasicBlock, c *Term) bool {
	if _, ok := st.known(c); !ok {
		st.noteSymExit(fr, b)
	}
	return st.Branch(c)
}

func (st *State) instr(fr *Frame, in ssa.Instruction) {
	ts := st.ts
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		o := st.newObj(et, st.zero(et))
		o.note = x.Comment
		fr.env[x] = Ptr{obj: o}
	case *ssa.BinOp:
		fr.env[x] = st.binop(x.Op, st.val(fr, x.X), st.val(fr, x.Y), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		fr.env[x] = st.unop(fr, x)
	case *ssa.Store:
		p, ok := st.val(fr, x.Addr).(Ptr)
		if !ok {
			st.unsupported("store to %T", st.val(fr, x.Addr))
		}
		st.store(p, st.val(fr, x.Val))
	case *ssa.FieldAddr:
		p, ok := st.val(fr, x.X).(Ptr)
		if !ok {
			st.unsupported("field of %T", st.val(fr, x.X))
		}
		if p.obj == nil {
			st.goPanicRT("nil pointer dereference")
		}
		fr.env[x] = p.field(x.Field)
	case *ssa.Field:
		s, ok := st.val(fr, x.X).(*StructV)
		if !ok {
			st.unsupported("field of %T", st.val(fr, x.X))
		}
		fr.env[x] = s.fs[x.Field]
	case *ssa.IndexAddr:
		idx := st.idx64(st.val(fr, x.Index).(*Term), x.Index.Type())
		switch c := st.val(fr, x.X).(type) {
		case SliceV:
			st.check(ts.Ult(idx, c.ln), "index out of range")
			fr.env[x] = c.base.index(ts.Add(c.off, idx))
		case Ptr:
			if c.obj == nil {
				st.goPanicRT("nil pointer dereference")
			}
			at := under(x.X.Type()).(*types.Pointer).Elem()
			n := under(at).(*types.Array).Len()
			st.check(ts.Ult(idx, ts.BV(uint64(n), 64)), "index out of range")
			fr.env[x] = c.index(idx)
		default:
			st.unsupported("index of %T", c)
		}
	case *ssa.Index:
		idx := st.idx64(st.val(fr, x.Index).(*Term), x.Index.Type())
		switch c := st.val(fr, x.X).(type) {
		case *Seq:
			st.check(ts.Ult(idx, st.seqLen(c)), "index out of range")
			fr.env[x] = st.seqGet(c, idx)
		case StrV:
			st.check(ts.Ult(idx, st.seqLen(c.s)), "index out of range")
			fr.env[x] = st.seqGet(c.s, idx)
		default:
			st.unsupported("index of %T", c)
		}
	case *ssa.Lookup:
		switch c := st.val(fr, x.X).(type) {
		case StrV:
			idx := st.idx64(st.val(fr, x.Index).(*Term), x.Index.Type())
			st.check(ts.Ult(idx, st.seqLen(c.s)), "index out of range")
			fr.env[x] = st.seqGet(c.s, idx)
		case *MapObj:
			v, ok := st.mapGet(c, st.val(fr, x.Index), under(x.X.Type()).(*types.Map).Elem())
			if x.CommaOk {
				fr.env[x] = TupleV{v, ok}
			} else {
				fr.env[x] = v
			}
		default:
			st.unsupported("lookup in %T", c)
		}
	case *ssa.MapUpdate:
		m := st.val(fr, x.Map).(*MapObj)
		if m == nil {
			st.goPanicRT("assignment to entry in nil map")
		}
		st.mapSet(m, st.val(fr, x.Key), st.val(fr, x.Value))
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		fr.env[x] = st.newMap(mt.Key(), mt.Elem())
	case *ssa.MakeChan:
		n := st.val(fr, x.Size).(*Term)
		if !n.IsConst() {
			st.unsupported("symbolic channel capacity")
		}
		st.nobj++
		ch := &ChanObj{id: st.nobj, et: under(x.Type()).(*types.Chan).Elem(), cap_: int(n.val)}
		st.chans = append(st.chans, ch)
		fr.env[x] = ch
	case *ssa.MakeSlice:
		et := under(x.Type()).(*types.Slice).Elem()
		ln := st.idx64(st.val(fr, x.Len).(*Term), x.Len.Type())
		cp := st.idx64(st.val(fr, x.Cap).(*Term), x.Cap.Type())
		fr.env[x] = st.makeSlice(et, ln, cp)
	case *ssa.MakeInterface:
		fr.env[x] = IfaceV{t: x.X.Type(), v: st.val(fr, x.X)}
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.free = append(c.free, st.val(fr, b))
		}
		fr.env[x] = c
	case *ssa.ChangeType:
		fr.env[x] = st.val(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = st.val(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = st.convert(st.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = st.convert(st.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s := st.val(fr, x.X).(SliceV)
		n := under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
		st.check(ts.Ule(ts.BV(uint64(n), 64), s.ln), "slice to array pointer: length")
		st.unsupported("slice to array pointer")
	case *ssa.Slice:
		fr.env[x] = st.sliceOp(fr, x)
	case *ssa.TypeAssert:
		fr.env[x] = st.typeAssert(st.val(fr, x.X), x.AssertedType, x.CommaOk)
	case *ssa.Extract:
		fr.env[x] = st.val(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Call:
		fr.env[x] = st.callInstr(fr, &x.Call)
	case *ssa.Defer:
		f, args := st.prepCall(fr, &x.Call)
		fr.defers = append(fr.defers, &deferred{f, args, &x.Call})
	case *ssa.Go:
		f, args := st.prepCall(fr, &x.Call)
		st.spawn(f, args, &x.Call)
	case *ssa.RunDefers:
		st.runDefers(fr)
	case *ssa.Range:
		fr.env[x] = st.rangeOf(st.val(fr, x.X), x.X.Type())
	case *ssa.Next:
		fr.env[x] = st.next(fr, x)
	case *ssa.Send:
		ch := st.val(fr, x.Chan).(*ChanObj)
		st.selectOp([]selCase{{ch: ch, send: true, v: st.val(fr, x.X)}}, true)
	case *ssa.Select:
		var cs []selCase
		for _, s := range x.States {
			c := selCase{ch: st.val(fr, s.Chan).(*ChanObj), send: s.Dir == types.SendOnly}
			if c.send {
				c.v = st.val(fr, s.Send)
			}
			cs = append(cs, c)
		}
		idx, v, ok := st.selectOp(cs, x.Blocking)
		tv := TupleV{st.ts.I(idx), st.ts.Bool(ok)}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					tv = append(tv, v)
				} else {
					tv = append(tv, st.zero(under(s.Chan.Type()).(*types.Chan).Elem()))
				}
			}
		}
		fr.env[x] = tv
	default:
		st.unsupported("instruction %T", in)
	}
}

func (st *State) idx64(t *Term, ty types.Type) *Term {
	return st.narrowed(st.ts.Resize(t, 64, isSigned(ty)))
}

const maxAlloc = uint64(1) << 47

func (st *State) makeSlice(et types.Type, ln, cp *Term) SliceV {
	ts := st.ts
	sz := uint64(sizeOf(et))
	if sz == 0 {
		sz = 1
	}
	lim := ts.BV(maxAlloc/sz, 64)
	st.check(ts.Ule(ln, lim), "makeslice: len out of range")
	if cp != ln {
		st.check(ts.And(ts.Ule(ln, cp), ts.Ule(cp, lim)), "makeslice: cap out of range")
	}
	if st.allocLim != nil && !cp.IsConst() {
		st.checkAlloc(et, cp)
	}
	o := st.newObj(types.NewSlice(et), st.repSeq(st.zero(et), cp))
	return SliceV{Ptr{obj: o}, ts.I(0), ln, cp}
}

func (st *State) checkAlloc(et types.Type, n *Term) {
	f := st.allocLim
	lim := st.callValue(f, nil).(*Term)
	st.Oblige("no allocation beyond the input size", st.ts.Ule(n, lim))
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeOf(t types.Type) int64 { return stdSizes.Sizeof(t) }

func (st *State) sliceOp(fr *Frame, x *ssa.Slice) Value {
	ts := st.ts
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return st.idx64(st.val(fr, v).(*Term), v.Type())
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = ts.I(0)
	}
	switch c := st.val(fr, x.X).(type) {
	case StrV:
		n := st.seqLen(c.s)
		if hi == nil {
			hi = n
		}
		st.check(ts.And(ts.Ule(hi, n), ts.Ule(lo, hi)), "slice bounds out of range")
		return StrV{st.seqSlice(c.s, lo, hi)}
	case SliceV:
		if hi == nil {
			hi = c.ln
		}
		cp := c.cap_
		if max != nil {
			st.check(ts.Ule(max, cp), "slice bounds out of range")
			cp = max
		}
		st.check(ts.And(ts.Ule(hi, cp), ts.Ule(lo, hi)), "slice bounds out of range")
		if c.isNil() {
			return c
		}
		return SliceV{c.base, ts.Add(c.off, lo), ts.Sub(hi, lo), ts.Sub(cp, lo)}
	case Ptr:
		if c.obj == nil {
			st.goPanicRT("nil pointer dereference")
		}
		n := ts.BV(uint64(under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()), 64)
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			st.check(ts.Ule(max, n), "slice bounds out of range")
			cp = max
		}
		st.check(ts.And(ts.Ule(hi, cp), ts.Ule(lo, hi)), "slice bounds out of range")
		return SliceV{c, lo, ts.Sub(hi, lo), ts.Sub(cp, lo)}
	}
	st.unsupported("slice of %T", st.val(fr, x.X))
	return nil
}

func (st *State) unop(fr *Frame, x *ssa.UnOp) Value {
	v := st.val(fr, x.X)
	ts := st.ts
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			st.unsupported("load through %T", v)
		}
		return st.load(p)
	case token.NOT:
		return ts.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if isFloat(x.X.Type()) {
			return ts.App(fmt.Sprintf("fneg%d", t.w()), t.sort, t)
		}
		return ts.Sub(ts.BV(0, t.w()), t)
	case token.XOR:
		return ts.BNot(v.(*Term))
	case token.ARROW:
		ch := v.(*ChanObj)
		_, r, ok := st.selectOp([]selCase{{ch: ch}}, true)
		if x.CommaOk {
			return TupleV{r, ts.Bool(ok)}
		}
		return r
	}
	st.unsupported("unop %v", x.Op)
	return nil
}

func (st *State) floatEq(a, b *Term) *Term {
	if a == b && a.IsConst() {
		return st.ts.True
	}
	return st.ts.App(fmt.Sprintf("feq%d", a.w()), SBool, a, b)
}

func (st *State) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	ts := st.ts
	switch op {
	case token.EQL:
		return st.valEq(a, b, ta)
	case token.NEQ:
		return ts.Not(st.valEq(a, b, ta))
	}
	if x, ok := a.(StrV); ok {
		y := b.(StrV)
		switch op {
		case token.ADD:
			return StrV{st.seqConcat(x.s, y.s)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return st.strCmp(op, x.s, y.s)
		}
		st.unsupported("string op %v", op)
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		st.unsupported("binop %v on %T,%T", op, a, b)
	}
	if isFloat(ta) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ts.App("f"+op.String(), SBool, x, y)
		}
		return ts.App(fmt.Sprintf("f%s%d", op.String(), x.w()), x.sort, x, y)
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return ts.Add(x, y)
	case token.SUB:
		return ts.Sub(x, y)
	case token.MUL:
		return ts.Mul(x, y)
	case token.QUO, token.REM:
		st.check(ts.Not(ts.Eq(y, ts.BV(0, y.w()))), "integer divide by zero")
		switch {
		case op == token.QUO && sg:
			return ts.Sdiv(x, y)
		case op == token.QUO:
			return ts.Udiv(x, y)
		case sg:
			return ts.Srem(x, y)
		default:
			return ts.Urem(x, y)
		}
	case token.AND:
		if x.sort == SBool {
			return ts.And(x, y)
		}
		return ts.BAnd(x, y)
	case token.OR:
		if x.sort == SBool {
			return ts.Or(x, y)
		}
		return ts.BOr(x, y)
	case token.XOR:
		return ts.BXor(x, y)
	case token.AND_NOT:
		return ts.BAnd(x, ts.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			st.check(ts.Sle(ts.BV(0, y.w()), y), "negative shift amount")
		}
		w := x.w()
		var c *Term
		if y.w() <= w {
			c = ts.Zext(y, w)
		} else if y.IsConst() {
			c = ts.BV(minU(y.val, uint64(w)), w)
		} else {
			c = ts.Ite(ts.Ult(y, ts.BV(uint64(w), y.w())), ts.Extract(y, w-1, 0), ts.BV(uint64(w), w))
		}
		if op == token.SHL {
			return ts.Shl(x, c)
		}
		if sg {
			return ts.Ashr(x, c)
		}
		return ts.Lshr(x, c)
	case token.LSS:
		if sg {
			return ts.Slt(x, y)
		}
		return ts.Ult(x, y)
	case token.LEQ:
		if sg {
			return ts.Sle(x, y)
		}
		return ts.Ule(x, y)
	case token.GTR:
		if sg {
			return ts.Slt(y, x)
		}
		return ts.Ult(y, x)
	case token.GEQ:
		if sg {
			return ts.Sle(y, x)
		}
		return ts.Ule(y, x)
	}
	st.unsupported("binop %v", op)
	return nil
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func (st *State) strCmp(op token.Token, a, b *Seq) *Term {
	sa, oka := st.concreteStr(a)
	sb, okb := st.concreteStr(b)
	if oka && okb {
		switch op {
		case token.LSS:
			return st.ts.Bool(sa < sb)
		case token.LEQ:
			return st.ts.Bool(sa <= sb)
		case token.GTR:
			return st.ts.Bool(sa > sb)
		default:
			return st.ts.Bool(sa >= sb)
		}
	}
	st.unsupported("symbolic string order")
	return nil
}

// concreteStr: the text when every byte is constant
func (st *State) concreteStr(q *Seq) (string, bool) {
	if len(q.segs) == 0 {
		return "", true
	}
	if len(q.segs) != 1 || q.segs[0].kind != SegLit {
		return "", false
	}
	b := make([]byte, len(q.segs[0].vals))
	for i, v := range q.segs[0].vals {
		t, ok := v.(*Term)
		if !ok || !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// narrowed undoes a truncation that keeps the value
func (st *State) narrowed(t *Term) *Term {
	if t.op != OZext && t.op != OConcat {
		return t
	}
	a := t.args[len(t.args)-1]
	if t.op == OConcat && (len(t.args) != 2 || !t.args[0].IsConst() || t.args[0].val != 0) {
		return t
	}
	if a.op != OExtract || a.lo != 0 || a.args[0].w() != t.w() {
		return t
	}
	x := a.args[0]
	if st.valid(st.ts.Ule(x, st.ts.BV(1<<uint(a.hi+1)-1, x.w()))) {
		return x
	}
	return t
}

func (st *State) convert(v Value, from, to types.Type) Value {
	ts := st.ts
	if isStringT(to) {
		switch {
		case isStringT(from):
			return v
		case isByteSlice(from):
			return StrV{st.sliceSeq(v.(SliceV))}
		case isRuneSlice(from):
			return StrV{st.runesToString(st.sliceSeq(v.(SliceV)))}
		default:
			st.unsupported("convert %v to string", from)
		}
	}
	if isStringT(from) {
		s := v.(StrV)
		switch {
		case isByteSlice(to):
			return st.newSlice(under(to).(*types.Slice).Elem(), s.s)
		case isRuneSlice(to):
			return st.newSlice(under(to).(*types.Slice).Elem(), st.stringToRunes(s.s))
		}
	}
	fb, ok1 := under(from).(*types.Basic)
	tb, ok2 := under(to).(*types.Basic)
	if ok1 && ok2 {
		t, ok := v.(*Term)
		if !ok {
			return v // unsafe.Pointer and the like
		}
		ff, tf := isFloat(from), isFloat(to)
		wf, wt := basicWidth(fb), basicWidth(tb)
		switch {
		case !ff && !tf:
			return st.narrowed(ts.Resize(t, wt, isSigned(from)))
		case ff && tf:
			return st.floatConv(t, wf, wt)
		case ff:
			if t.IsConst() {
				f := math.Float64frombits(t.val)
				if wf == 32 {
					f = float64(math.Float32frombits(uint32(t.val)))
				}
				if isSigned(to) {
					return ts.BV(uint64(int64(f)), wt)
				}
				return ts.BV(uint64(f), wt)
			}
			return ts.App(fmt.Sprintf("f%dtoi%d_%v", wf, wt, isSigned(to)), Sort(wt), t)
		default:
			if t.IsConst() {
				var f float64
				if isSigned(from) {
					f = float64(sext64(t.val, wf))
				} else {
					f = float64(t.val)
				}
				if wt == 32 {
					return ts.BV(uint64(math.Float32bits(float32(f))), 32)
				}
				return ts.BV(math.Float64bits(f), 64)
			}
			return ts.App(fmt.Sprintf("i%d_%vtof%d", wf, isSigned(from), wt), Sort(wt), t)
		}
	}
	if _, ok := v.(Ptr); ok {
		return v
	}
	st.unsupported("convert %v to %v", from, to)
	return nil
}

// floatConv: float64(float32 x) is injective with inverse float32(.)
func (st *State) floatConv(t *Term, wf, wt int) *Term {
	ts := st.ts
	if wf == wt {
		return t
	}
	if t.IsConst() {
		if wf == 32 {
			return ts.BV(math.Float64bits(float64(math.Float32frombits(uint32(t.val)))), 64)
		}
		return ts.BV(uint64(math.Float32bits(float32(math.Float64frombits(t.val)))), 32)
	}
	if wf == 64 && t.op == OApp && t.name == "f32to64" {
		return t.args[0]
	}
	if wf == 32 {
		r := ts.App("f32to64", 64, t)
		st.axiomOnce(fmt.Sprintf("f32to64.%d", t.id), func() *Term {
			return ts.Eq(ts.Eq(r, ts.BV(0, 64)), ts.Eq(t, ts.BV(0, 32)))
		})
		return r
	}
	return ts.App("f64to32", 32, t)
}

func (st *State) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (st *State) typeAssert(v Value, at types.Type, commaOk bool) Value {
	i, ok := v.(IfaceV)
	if !ok {
		st.unsupported("type assertion on %T", v)
	}
	res := false
	var out Value
	if it, isI := under(at).(*types.Interface); isI {
		if i.t != nil && st.implements(i.t, it) {
			res, out = true, i
		} else {
			out = IfaceV{}
		}
	} else {
		if i.t != nil && types.Identical(i.t, at) {
			res, out = true, i.v
		} else {
			out = st.zero(at)
		}
	}
	if commaOk {
		return TupleV{out, st.ts.Bool(res)}
	}
	if !res {
		st.goPanicRT("interface conversion")
	}
	return out
}

// ---- calls

func (st *State) prepCall(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := st.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, st.val(fr, a))
		}
		return st.bindMethod(recv, c.Method, args)
	}
	for _, a := range c.Args {
		args = append(args, st.val(fr, a))
	}
	return st.val(fr, c.Value), args
}

func (st *State) bindMethod(recv Value, m *types.Func, args []Value) (Value, []Value) {
	i, ok := recv.(IfaceV)
	if !ok {
		st.unsupported("method call on %T", recv)
	}
	if i.t == nil {
		st.goPanicRT("nil interface method call " + m.Name())
	}
	if nm, ok := i.v.(interface {
		invoke(st *State, name string, args []Value) Value
	}); ok {
		return &Closure{native: func(st *State, a []Value) Value { return nm.invoke(st, m.Name(), a) }, name: m.Name()}, args
	}
	fn := st.eng.lookupMethod(i.t, m)
	if fn == nil {
		st.unsupported("no method %s on %v", m.Name(), i.t)
	}
	return &Closure{fn: fn}, append([]Value{i.v}, args...)
}

func (st *State) callInstr(fr *Frame, c *ssa.CallCommon) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range c.Args {
			args = append(args, st.val(fr, a))
		}
		return st.builtin(fr, b.Name(), args, c)
	}
	f, args := st.prepCall(fr, c)
	cl, ok := f.(*Closure)
	if !ok {
		st.unsupported("call of %T", f)
	}
	if cl == nil {
		st.goPanicRT("nil func call")
	}
	if cl.native != nil {
		if st.pure > 0 {
			panic(mergeAbort{})
		}
		return cl.native(st, args)
	}
	return st.callFn(cl.fn, args, cl.free, nil, c)
}

func (st *State) builtin(fr *Frame, name string, args []Value, c *ssa.CallCommon) Value {
	ts := st.ts
	switch name {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return x.ln
		case StrV:
			return st.seqLen(x.s)
		case *Seq:
			return st.seqLen(x)
		case *MapObj:
			return st.mapLen(x)
		case *ChanObj:
			return ts.I(len(x.buf))
		case Ptr:
			return st.seqLen(st.load(x).(*Seq))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return x.cap_
		case *Seq:
			return st.seqLen(x)
		case *ChanObj:
			return ts.I(x.cap_)
		}
	case "append":
		return st.appendOp(args[0].(SliceV), args[1], c.Args[0].Type())
	case "copy":
		d := args[0].(SliceV)
		var src *Seq
		switch s := args[1].(type) {
		case SliceV:
			src = st.sliceSeq(s)
		case StrV:
			src = s.s
		}
		return st.copyInto(d, src)
	case "close":
		st.closeChan(args[0].(*ChanObj))
		return nil
	case "delete":
		st.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "panic":
		panic(&goPanic{val: args[0].(IfaceV), pos: st.where()})
	case "recover":
		if fr.deferOf != nil && fr.deferOf.panicking != nil {
			p := fr.deferOf.panicking
			fr.deferOf.panicking = nil
			return p.val
		}
		return IfaceV{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(c.Args[0].Type())
		for _, a := range args[1:] {
			x := a.(*Term)
			var lt *Term
			if sg {
				lt = ts.Slt(x, r)
			} else {
				lt = ts.Ult(x, r)
			}
			if name == "max" {
				lt = ts.Not(lt)
			}
			r = ts.Ite(lt, x, r)
		}
		return r
	case "clear":
		if m, ok := args[0].(*MapObj); ok {
			m.entries, m.base = nil, nil
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			st.goPanicRT("nil pointer dereference (value method)")
		}
		return args[0]
	}
	st.unsupported("builtin %s", name)
	return nil
}

func (st *State) copyInto(d SliceV, src *Seq) *Term {
	ts := st.ts
	sl := st.seqLen(src)
	n := d.ln
	if n != sl && !st.Branch(ts.Ule(n, sl)) {
		n = sl
	}
	if n.IsConst() && n.val == 0 {
		return n
	}
	if d.isNil() {
		return ts.I(0)
	}
	part := st.seqSlice(src, ts.I(0), n)
	st.writeRange(d, part, n)
	return n
}

// writeRange overwrites the first n elements of d
func (st *State) writeRange(d SliceV, part *Seq, n *Term) {
	c := st.load(d.base).(*Seq)
	l, r := st.seqSplit(c, d.off)
	_, r2 := st.seqSplit(r, n)
	st.store(d.base, st.seqConcat(l, part, r2))
}

func (st *State) appendOp(s SliceV, more Value, t types.Type) Value {
	ts := st.ts
	var add *Seq
	switch m := more.(type) {
	case SliceV:
		add = st.sliceSeq(m)
	case StrV:
		add = m.s
	}
	n := st.seqLen(add)
	if n.IsConst() && n.val == 0 {
		return s
	}
	nl := ts.Add(s.ln, n)
	et := under(t).(*types.Slice).Elem()
	if !s.isNil() && s.cap_ != s.ln {
		if st.Branch(ts.Ule(nl, s.cap_)) {
			tail := SliceV{s.base, ts.Add(s.off, s.ln), n, n}
			st.writeRange(tail, add, n)
			return SliceV{s.base, s.off, nl, s.cap_}
		}
	}
	return st.newSlice(et, st.seqConcat(st.sliceSeq(s), add))
}
