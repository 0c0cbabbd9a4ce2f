package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Loop cutting: a loop whose exit depends on symbolic data is verified by
// induction. At its header everything the body can change is replaced by
// arbitrary values (the frame is found by a fixpoint over exploration rounds),
// candidate facts that every iteration preserves are kept, one arbitrary
// iteration is executed, and the path ends when the header is reached again.

type siteKey struct {
	fn  *ssa.Function
	pos token.Pos
	n   int
}

var siteNames sync.Map

func (k siteKey) String() string {
	if s, ok := siteNames.Load(k); ok {
		return s.(string)
	}
	s := k.str()
	siteNames.Store(k, s)
	return s
}

func (k siteKey) str() string {
	if k.fn == nil {
		return fmt.Sprintf("?#%d", k.n)
	}
	return fmt.Sprintf("%s:%d#%d", fnName(k.fn), k.pos, k.n)
}

// cutInfo is what earlier rounds found out about one loop
type cutInfo struct {
	mods    map[string]bool // changed locations
	dropped map[string]bool // candidate facts that an iteration does not preserve
}

type cutState struct {
	loops map[string]*cutInfo
}

type cutCtx struct {
	fr    *Frame
	hdr   *ssa.BasicBlock
	key   string
	objs  []objSnap
	maps  []mapSnap
	chans []chanSnap
	phis  []Value
	nth   int
	cands []cand
	inv   *Closure
	cn    int
}

type objSnap struct {
	o *Obj
	v Value
	m interface{} // copy of in-place native state
}
type mapSnap struct {
	m  *MapObj
	es []MapEntry
	b  *MapBase
}
type chanSnap struct {
	c      *ChanObj
	n      int
	closed bool
}

type cand struct {
	name string // location + kind
	get  func() *Term
	ok   func(v *Term) *Term
}

func (st *State) cuttable(fn *ssa.Function) bool {
	if !st.cutOn || len(st.threads) > 1 && st.cur.id != 0 {
		return false
	}
	return st.eng.inRepo(fn)
}

// inRepo: code of the repository itself, not of a specification
func (e *Engine) inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if !strings.HasPrefix(p, modPath) || p == gvPath {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return !strings.Contains(e.prog.Fset.Position(f.Pos()).Filename, "zz_verif_")
}

func loopKey(fr *Frame, b *ssa.BasicBlock) string {
	return fmt.Sprintf("%s.b%d", fnName(fr.fn), b.Index)
}

func (st *State) phiVals(fr *Frame, b *ssa.BasicBlock) []Value {
	var out []Value
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == fr.prev {
				out = append(out, st.val(fr, phi.Edges[i]))
				break
			}
		}
	}
	return out
}

// cutHeader handles the arrival at a loop header; true when the phis were preset
func (st *State) cutHeader(fr *Frame, b *ssa.BasicBlock) {
	body := st.eng.loopsOf(fr.fn)[b]
	key := loopKey(fr, b)
	back := fr.prev != nil && body[fr.prev]
	if back {
		for i := len(st.cuts) - 1; i >= 0; i-- {
			c := st.cuts[i]
			if c.fr == fr && c.hdr == b {
				st.cutBack(c)
			}
		}
		return
	}
	// leaving loops that ended: contexts of frames no longer on the stack
	for len(st.cuts) > 0 {
		c := st.cuts[len(st.cuts)-1]
		live := false
		for _, f := range st.cur.frames {
			live = live || f == c.fr
		}
		if live && !(c.fr == fr && c.hdr == b) && st.eng.loopsOf(c.fr.fn)[c.hdr][c.fr.block] {
			break
		}
		st.cuts = st.cuts[:len(st.cuts)-1]
	}
	info := st.run.cutKnown(key)
	if info == nil {
		return
	}
	ctx := &cutCtx{fr: fr, hdr: b, key: key, nth: len(st.threads), cn: st.clock}
	ctx.inv = st.invs[fnName(fr.fn)]
	if ctx.inv != nil {
		st.Oblige("loop invariant of "+fnName(fr.fn)+" holds on entry", st.invVal(ctx.inv, fr))
	}
	phis := st.phiVals(fr, b)
	type changed struct {
		loc string
		v0  *Term
		get func() *Term
	}
	var ints []changed
	add := func(loc, kind string, v0 *Term, get func() *Term, ok func(v *Term) *Term) {
		if kind == "ge" && v0.sort == 64 {
			ints = append(ints, changed{loc, v0, get})
		}
		nm := loc + "?" + kind
		if info.dropped[nm] {
			return
		}
		if c := ok(v0); !c.IsTrue() && !st.valid(c) {
			st.run.cutDrop(key, nm)
			return
		}
		ctx.cands = append(ctx.cands, cand{nm, get, ok})
	}
	// loop variables
	guards := st.loopGuards(fr, b, body)
	for i := range phis {
		i := i
		phi := b.Instrs[i].(*ssa.Phi)
		loc := fmt.Sprintf("phi%d", i)
		get := func() Value { return ctx.phis[i] }
		phis[i] = st.havoc(info, loc, phis[i], phi.Type(), func(l, k string, v0 *Term, proj func(Value) *Term, ok func(*Term) *Term) {
			add(l, k, v0, func() *Term { return proj(get()) }, ok)
		})
		if v0, ok := st.phiEntry(fr, phi).(*Term); ok && info.mods[loc] && v0.sort > 0 {
			for gi, g := range guards[phi] {
				g := g
				add(loc, fmt.Sprintf("guard%d", gi), v0, func() *Term { return get().(*Term) }, func(v *Term) *Term { return g(v) })
			}
		}
	}
	// memory
	for _, o := range st.objs {
		if o.val == nil {
			continue
		}
		o := o
		loc := o.site.String()
		if info.touches(loc) {
			o.val = st.havoc(info, loc, o.val, o.typ, func(l, k string, v0 *Term, proj func(Value) *Term, ok func(*Term) *Term) {
				add(l, k, v0, func() *Term { return proj(o.val) }, ok)
			})
		}
	}
	for _, m := range st.maps {
		if info.mods["map "+m.site.String()] {
			st.havocMap(m)
		}
	}
	// how the changed numbers relate to each other
	if len(ints) <= 6 {
		for i, a := range ints {
			for j, b := range ints {
				if i == j {
					continue
				}
				b := b
				nm := a.loc + "?sle " + b.loc
				if info.dropped[nm] {
					continue
				}
				if !st.valid(st.ts.Sle(a.v0, b.v0)) {
					st.run.cutDrop(key, nm)
					continue
				}
				ctx.cands = append(ctx.cands, cand{nm, a.get, func(v *Term) *Term { return st.ts.Sle(v, b.get()) }})
			}
		}
	}
	// snapshot of the arbitrary iteration's start
	for _, o := range st.objs {
		ctx.objs = append(ctx.objs, objSnap{o, o.val, copyNative(o.val)})
	}
	for _, m := range st.maps {
		s := mapSnap{m: m, b: m.base}
		for _, e := range m.entries {
			s.es = append(s.es, *e)
		}
		ctx.maps = append(ctx.maps, s)
	}
	for _, c := range st.chans {
		ctx.chans = append(ctx.chans, chanSnap{c, len(c.buf), c.closed})
	}
	ctx.phis = phis
	for _, c := range ctx.cands {
		st.AssumeSilent(c.ok(c.get()))
	}
	if ctx.inv != nil {
		st.Assume(st.invVal(ctx.inv, fr))
	}
	fr.phiOver = phis
	if len(phis) == 0 {
		fr.phiOver = nil
	}
	st.cuts = append(st.cuts, ctx)
	st.run.induct(key)
}

func (st *State) invVal(c *Closure, fr *Frame) *Term {
	// an invariant with parameters gets those of the function
	var args []Value
	if n := len(c.fn.Params); n > 0 {
		if n != len(fr.fn.Params) {
			st.unsupported("invariant of %s has other parameters", fnName(fr.fn))
		}
		for _, p := range fr.fn.Params {
			args = append(args, st.val(fr, p))
		}
	}
	st.atomicN++
	defer func() { st.atomicN-- }()
	return st.callValue(c, args).(*Term)
}

func (st *State) phiEntry(fr *Frame, phi *ssa.Phi) Value {
	for i, p := range phi.Block().Preds {
		if p == fr.prev {
			return st.val(fr, phi.Edges[i])
		}
	}
	return nil
}

// cutBack: the arbitrary iteration ended at the header again
func (st *State) cutBack(c *cutCtx) {
	info := st.run.cutKnown(c.key)
	if len(st.threads) > c.nth && st.cur.id == 0 {
		st.settle()
		for _, t := range st.threads[c.nth:] {
			if !t.done {
				st.unsupported("goroutine started in a loop that is verified by induction is still blocked (%s)", t.what)
			}
		}
	}
	now := st.phiVals(c.fr, c.hdr)
	var ch []string
	for i := range now {
		st.diff(fmt.Sprintf("phi%d", i), c.phis[i], now[i], &ch)
	}
	for _, s := range c.objs {
		st.diff(s.o.site.String(), s.v, s.o.val, &ch)
		if s.m != nil && s.m != copyNative(s.o.val) {
			st.unsupported("lock or once state changes across iterations of a loop verified by induction")
		}
	}
	for _, s := range c.maps {
		same := s.m.base == s.b && len(s.m.entries) >= len(s.es)
		if same {
			for i, e := range s.es {
				x := s.m.entries[i]
				same = same && x.key != nil && sameVal(e.key, x.key) && sameVal(e.val, x.val) && e.present == x.present
			}
			for _, x := range s.m.entries[len(s.es):] {
				// lookups of a symbolic map add entries that it already had
				same = same && s.b != nil && x.read
			}
		}
		if !same {
			ch = append(ch, "map "+s.m.site.String())
		}
	}
	for _, s := range c.chans {
		if len(s.c.buf) != s.n || s.c.closed != s.closed {
			st.unsupported("channel changes across iterations of a loop verified by induction")
		}
	}
	fresh := false
	for _, l := range ch {
		if !info.mods[l] {
			st.run.cutMod(c.key, l)
			fresh = true
		}
	}
	if fresh {
		panic(pathKill{"again"})
	}
	c.phis = now
	for _, k := range c.cands {
		if !st.valid(k.ok(k.get())) {
			st.run.cutDrop(c.key, k.name)
			fresh = true
		}
	}
	if fresh {
		panic(pathKill{"again"})
	}
	if c.inv != nil {
		st.Oblige("loop invariant of "+fnName(c.fr.fn)+" is preserved", st.invVal(c.inv, c.fr))
	}
	panic(pathKill{"cut"})
}

func (i *cutInfo) touches(loc string) bool {
	for m := range i.mods {
		if strings.HasPrefix(m, loc) {
			return true
		}
	}
	return false
}

func copyNative(v Value) interface{} {
	switch x := v.(type) {
	case *MutexV:
		return *x
	case *OnceV:
		return *x
	case *WGV:
		return *x
	case *StructV:
		s := ""
		for _, f := range x.fs {
			if m := copyNative(f); m != nil {
				s += fmt.Sprint(m)
			} else {
				s += "."
			}
		}
		if strings.Trim(s, ".") == "" {
			return nil
		}
		return s
	}
	return nil
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case Ptr:
		y, ok := b.(Ptr)
		return ok && ptrEqSyn(x, y)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && ptrEqSyn(x.base, y.base) && x.off == y.off && x.ln == y.ln && x.cap_ == y.cap_
	case StrV:
		y, ok := b.(StrV)
		return ok && sameSeq(x.s, y.s)
	case *Seq:
		y, ok := b.(*Seq)
		return ok && sameSeq(x, y)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}
		for i := range x.fs {
			if !sameVal(x.fs[i], y.fs[i]) {
				return false
			}
		}
		return true
	case TupleV:
		return false
	case *BufV:
		y, ok := b.(*BufV)
		return ok && sameVal(x.s, y.s) && x.off == y.off
	case *RdV:
		y, ok := b.(*RdV)
		return ok && sameVal(x.s, y.s) && x.pos == y.pos
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.TypeOf(a).Comparable() && a == b
}

func sameSeq(a, b *Seq) bool {
	if a == b {
		return true
	}
	if len(a.segs) != len(b.segs) {
		return false
	}
	for i := range a.segs {
		x, y := a.segs[i], b.segs[i]
		if x.kind != y.kind || len(x.vals) != len(y.vals) || x.atom != y.atom || x.off != y.off || x.n != y.n || x.fold != y.fold {
			return false
		}
		for j := range x.vals {
			if !sameVal(x.vals[j], y.vals[j]) {
				return false
			}
		}
		if x.kind == SegRep && !sameVal(x.val, y.val) {
			return false
		}
	}
	return true
}

func (st *State) diff(loc string, a, b Value, out *[]string) {
	if sameVal(a, b) {
		return
	}
	switch x := a.(type) {
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.fs) == len(y.fs) {
			for i := range x.fs {
				st.diff(fmt.Sprintf("%s.%d", loc, i), x.fs[i], y.fs[i], out)
			}
			return
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && ptrEqSyn(x.base, y.base) && x.base.obj != nil {
			st.diff(loc+".off", x.off, y.off, out)
			st.diff(loc+".ln", x.ln, y.ln, out)
			st.diff(loc+".cap", x.cap_, y.cap_, out)
			return
		}
	case *BufV:
		if y, ok := b.(*BufV); ok {
			st.diff(loc+".s", x.s, y.s, out)
			st.diff(loc+".o", x.off, y.off, out)
			return
		}
	case *RdV:
		if y, ok := b.(*RdV); ok {
			st.diff(loc+".s", x.s, y.s, out)
			st.diff(loc+".o", x.pos, y.pos, out)
			return
		}
	}
	*out = append(*out, loc)
}

type candFn func(loc, kind string, v0 *Term, proj func(Value) *Term, ok func(*Term) *Term)

// havoc replaces the changed parts of a value by arbitrary ones
func (st *State) havoc(info *cutInfo, loc string, v Value, t types.Type, add candFn) Value {
	if !info.touches(loc) {
		return v
	}
	ts := st.ts
	if info.mods[loc] {
		return st.arbitrary("h", v, t, func(kind string, ok func(e, v *Term) *Term) {
			e := v.(*Term)
			add(loc, kind, e, func(x Value) *Term { return x.(*Term) }, func(x *Term) *Term { return ok(e, x) })
		})
	}
	part := func(sub string, e *Term, proj func(Value) *Term, hi *Term) *Term {
		if !info.mods[loc+sub] {
			return e
		}
		n := st.fresh("h", e.sort)
		l := loc + sub
		add(l, "ge", e, proj, func(x *Term) *Term { return ts.Sle(e, x) })
		add(l, "le", e, proj, func(x *Term) *Term { return ts.Sle(x, e) })
		add(l, "ge0", e, proj, func(x *Term) *Term { return ts.Sle(ts.I(0), x) })
		if hi != nil {
			add(l, "max", e, proj, func(x *Term) *Term { return ts.Sle(x, hi) })
		}
		return n
	}
	switch x := v.(type) {
	case *StructV:
		fs := append([]Value{}, x.fs...)
		su, _ := (types.Type)(nil), 0
		if t != nil {
			su = under(t)
		}
		for i := range fs {
			i := i
			var ft types.Type
			if s, ok := su.(*types.Struct); ok {
				ft = s.Field(i).Type()
			}
			fs[i] = st.havoc(info, fmt.Sprintf("%s.%d", loc, i), fs[i], ft, func(l, k string, v0 *Term, proj func(Value) *Term, ok func(*Term) *Term) {
				add(l, k, v0, func(y Value) *Term { return proj(y.(*StructV).fs[i]) }, ok)
			})
		}
		return &StructV{fs}
	case SliceV:
		// same storage, other window
		n := SliceV{x.base, nil, nil, nil}
		end := ts.Add(x.off, x.cap_)
		n.off = part(".off", x.off, func(y Value) *Term { return y.(SliceV).off }, end)
		n.ln = part(".ln", x.ln, func(y Value) *Term { return y.(SliceV).ln }, nil)
		n.cap_ = part(".cap", x.cap_, func(y Value) *Term { return y.(SliceV).cap_ }, nil)
		// a window stays inside its storage
		st.AssumeSilent(ts.And(ts.Ule(n.off, end), ts.Ule(n.cap_, ts.Sub(end, n.off)), ts.Ule(n.ln, n.cap_)))
		return n
	case *BufV:
		n := &BufV{x.s, x.off}
		if info.touches(loc + ".s") {
			n.s = st.havoc(info, loc+".s", x.s, nil, func(l, k string, v0 *Term, proj func(Value) *Term, ok func(*Term) *Term) {
				add(l, k, v0, func(y Value) *Term { return proj(y.(*BufV).s) }, ok)
			}).(SliceV)
			n.off = st.fresh("h", 64)
			st.AssumeSilent(ts.Ule(n.off, n.s.ln))
			return n
		}
		n.off = part(".o", x.off, func(y Value) *Term { return y.(*BufV).off }, x.s.ln)
		st.AssumeSilent(ts.Ule(n.off, n.s.ln))
		return n
	case *RdV:
		n := &RdV{x.s, x.pos}
		if info.touches(loc + ".s") {
			st.unsupported("reader reset in a loop verified by induction")
		}
		n.pos = part(".o", x.pos, func(y Value) *Term { return y.(*RdV).pos }, x.s.ln)
		st.AssumeSilent(ts.Sle(ts.I(0), n.pos))
		return n
	}
	return v
}

// arbitrary: a value about which nothing is known
func (st *State) arbitrary(nm string, v Value, t types.Type, add func(kind string, ok func(e, v *Term) *Term)) Value {
	ts := st.ts
	switch x := v.(type) {
	case *Term:
		if add != nil && x.sort > 0 {
			add("ge", func(e, y *Term) *Term { return ts.Sle(e, y) })
			add("le", func(e, y *Term) *Term { return ts.Sle(y, e) })
			add("ge0", func(e, y *Term) *Term { return ts.Sle(ts.BV(0, int(y.sort)), y) })
		}
		return st.fresh(nm, x.sort)
	case StrV:
		return StrV{st.anySeq(types.Typ[types.Uint8], nil)}
	case *Seq:
		var et types.Type
		if t != nil {
			switch u := under(t).(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
		}
		return st.anySeq(et, st.seqLen(x))
	case SliceV:
		var et types.Type = byteT
		if t != nil {
			if s, ok := under(t).(*types.Slice); ok {
				et = s.Elem()
			}
		} else if x.base.obj != nil && x.base.obj.typ != nil {
			if s, ok := under(x.base.obj.typ).(*types.Slice); ok {
				et = s.Elem()
			}
		}
		s := st.newSlice(et, st.anySeq(et, nil))
		s.base.obj.nilT = st.fresh("hnil", SBool)
		st.AssumeSilent(ts.Implies(s.base.obj.nilT, ts.Eq(s.ln, ts.I(0))))
		return s
	case *StructV:
		fs := append([]Value{}, x.fs...)
		for i := range fs {
			var ft types.Type
			if t != nil {
				ft = under(t).(*types.Struct).Field(i).Type()
			}
			fs[i] = st.arbitrary(nm, fs[i], ft, nil)
		}
		return &StructV{fs}
	case nil:
		return nil
	}
	if t != nil {
		return &Poison{t}
	}
	return &Poison{}
}

// Poison stands for a value that the verification lost track of; using it is outside the subset
type Poison struct{ t types.Type }

// anySeq: arbitrary elements of a type, of a given or arbitrary length
func (st *State) anySeq(et types.Type, n *Term) *Seq {
	ts := st.ts
	key := st.fresh("hseq", SU)
	if n == nil {
		n = st.fresh("hlen", 64)
		st.AssumeSilent(ts.Ule(n, ts.BV(1<<34, 64)))
	}
	a := &Atom{key: key, len: n, kind: "havoc"}
	a.elem = func(st *State, idx *Term) Value { return st.anyElem("el", et, key, idx) }
	return atomSeq(a, ts.I(0))
}

func (st *State) anyElem(path string, t types.Type, key, idx *Term) Value {
	ts := st.ts
	if t == nil {
		return &Poison{}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			k := ts.App(path+".s", SU, key, idx)
			n := ts.App(path+".n", 64, key, idx)
			st.AssumeSilent(ts.Ule(n, ts.BV(1<<34, 64)))
			a := &Atom{key: k, len: n, kind: "havoc"}
			a.elem = func(st *State, i *Term) Value { return ts.App("at8", 8, k, i) }
			return StrV{atomSeq(a, ts.I(0))}
		}
		if u.Info()&types.IsBoolean != 0 {
			return ts.App(path+".b", SBool, key, idx)
		}
		w := basicWidth(u)
		if w == 8 && path == "el" {
			return ts.App("at8", 8, key, idx)
		}
		if w > 0 {
			return ts.App(fmt.Sprintf("%s.%d", path, w), Sort(w), key, idx)
		}
	case *types.Struct:
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = st.anyElem(fmt.Sprintf("%s.f%d", path, i), u.Field(i).Type(), key, idx)
		}
		return &StructV{fs}
	case *types.Array:
		if u.Len() <= 64 {
			vs := make([]Value, u.Len())
			for i := range vs {
				vs[i] = st.anyElem(fmt.Sprintf("%s.a%d", path, i), u.Elem(), key, idx)
			}
			return litSeq(vs...)
		}
	}
	return &Poison{t}
}

func (st *State) havocMap(m *MapObj) {
	ts := st.ts
	key := st.fresh("hmap", SU)
	m.entries = nil
	kt, vt := m.kt, m.vt
	_ = kt
	m.base = &MapBase{name: "havoc", gen: func(st *State, k Value) (Value, *Term) {
		kk := st.valKey(k)
		id := ts.App(fmt.Sprintf("mapslot.%d", kk.sort), SU, key, kk)
		p := ts.App("mapin", SBool, id)
		return st.anyMapVal(vt, id), p
	}}
}

// anyMapVal: an arbitrary value of a map's element type, identified by the slot
func (st *State) anyMapVal(vt types.Type, id *Term) Value {
	ts := st.ts
	switch u := under(vt).(type) {
	case *types.Slice:
		n := ts.App("mv.len", 64, id)
		st.AssumeSilent(ts.Ule(n, ts.BV(1<<34, 64)))
		et := u.Elem()
		a := &Atom{key: id, len: n, kind: "havoc"}
		a.elem = func(st *State, idx *Term) Value { return st.anyElem("el", et, id, idx) }
		s := st.newSlice(et, atomSeq(a, ts.I(0)))
		s.base.obj.nilT = ts.App("mv.nil", SBool, id)
		st.AssumeSilent(ts.Implies(s.base.obj.nilT, ts.Eq(n, ts.I(0))))
		return s
	}
	return st.anyElem("mv", vt, id, ts.I(0))
}

// loopGuards: for each integer loop variable, upper and lower bounds it is compared with
func (st *State) loopGuards(fr *Frame, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) map[*ssa.Phi][]func(*Term) *Term {
	ts := st.ts
	out := map[*ssa.Phi][]func(*Term) *Term{}
	outside := func(v ssa.Value) (val *Term) {
		defer func() {
			if recover() != nil {
				val = nil
			}
		}()
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				t, _ := st.val(fr, x).(*Term)
				return t
			}
			return nil
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := x.Call.Args[0]
				if i, ok := a.(ssa.Instruction); ok && body[i.Block()] {
					return nil
				}
				switch s := st.val(fr, a).(type) {
				case SliceV:
					return s.ln
				case StrV:
					return st.seqLen(s.s)
				}
				return nil
			}
		}
		if i, ok := v.(ssa.Instruction); ok && body[i.Block()] {
			return nil
		}
		t, _ := st.val(fr, v).(*Term)
		return t
	}
	var bs []*ssa.BasicBlock
	for b := range body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch op.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			try := func(v, o ssa.Value) {
				// phi itself, or phi+constant (range loops)
				phi, ok := v.(*ssa.Phi)
				if !ok {
					if bo, k := v.(*ssa.BinOp); k && bo.Op == token.ADD {
						if _, isC := bo.Y.(*ssa.Const); isC {
							phi, ok = bo.X.(*ssa.Phi)
						}
					}
				}
				if !ok || phi.Block() != hdr {
					return
				}
				y := outside(o)
				if y == nil || y.sort <= 0 {
					return
				}
				if isSigned(phi.Type()) {
					out[phi] = append(out[phi], func(x *Term) *Term { return ts.Sle(x, y) }, func(x *Term) *Term { return ts.Slt(x, y) }, func(x *Term) *Term { return ts.Sle(y, x) })
				} else {
					out[phi] = append(out[phi], func(x *Term) *Term { return ts.Ule(x, y) }, func(x *Term) *Term { return ts.Ult(x, y) }, func(x *Term) *Term { return ts.Ule(y, x) })
				}
			}
			try(op.X, op.Y)
			try(op.Y, op.X)
		}
	}
	return out
}

// ---- rounds

func (r *Run) cutKnown(key string) *cutInfo {
	return r.cuts[key]
}

func (r *Run) cutNext(key string) *cutInfo {
	i := r.cutsNew[key]
	if i == nil {
		i = &cutInfo{mods: map[string]bool{}, dropped: map[string]bool{}}
		r.cutsNew[key] = i
	}
	return i
}

func (r *Run) cutMod(key, loc string) {
	r.mu.Lock()
	r.cutNext(key).mods[loc] = true
	r.mu.Unlock()
}
func (r *Run) cutDrop(key, nm string) {
	r.mu.Lock()
	r.cutNext(key).dropped[nm] = true
	r.mu.Unlock()
}
func (r *Run) cutFound(key string) {
	r.mu.Lock()
	r.cutNext(key)
	r.mu.Unlock()
}
func (r *Run) induct(key string) {
	r.mu.Lock()
	r.inducts[key] = true
	r.mu.Unlock()
}

// cutMerge adds what the round found; true when another round is needed
func (r *Run) cutMerge() bool {
	ch := false
	for k, n := range r.cutsNew {
		i := r.cuts[k]
		if i == nil {
			i = &cutInfo{mods: map[string]bool{}, dropped: map[string]bool{}}
			r.cuts[k] = i
			ch = true
		}
		for m := range n.mods {
			if !i.mods[m] {
				i.mods[m] = true
				ch = true
			}
		}
		for m := range n.dropped {
			if !i.dropped[m] {
				i.dropped[m] = true
				ch = true
			}
		}
	}
	r.cutsNew = map[string]*cutInfo{}
	return ch
}
