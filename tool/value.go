package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Obj is a heap cell
type Obj struct {
	id   int
	typ  types.Type
	val  Value
	note string
	th   *Thread
	site siteKey
	nilT *Term // storage of an arbitrary slice: whether that slice is nil
}

// path element: field number (idx == nil) or sequence index
type PE struct {
	f   int
	idx *Term
}

type Ptr struct {
	obj  *Obj
	path []PE
}

func (p Ptr) isNil() bool { return p.obj == nil }

func (p Ptr) field(i int) Ptr {
	np := make([]PE, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = PE{f: i}
	return Ptr{p.obj, np}
}
func (p Ptr) index(i *Term) Ptr {
	np := make([]PE, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = PE{idx: i}
	return Ptr{p.obj, np}
}

type StructV struct{ fs []Value }

type StrV struct{ s *Seq }

type SliceV struct {
	base          Ptr // container holding a *Seq
	off, ln, cap_ *Term
}

func (s SliceV) isNil() bool { return s.base.obj == nil }

type IfaceV struct {
	t types.Type // nil for nil interface
	v Value
}

type TupleV []Value

type Closure struct {
	fn     *ssa.Function
	free   []Value
	native func(st *State, args []Value) Value
	name   string
}

type MapEntry struct {
	key, val Value
	present  *Term
	read     bool // only looked up
}

type MapObj struct {
	site    siteKey
	id      int
	kt, vt  types.Type
	entries []*MapEntry // keys pairwise distinct under the path condition
	base    *MapBase    // nil: nothing else present
	fold    *MapFold
}

// MapBase: unknown rest of a symbolic map
type MapBase struct {
	name string
	n    int
	gen  func(st *State, key Value) (val Value, present *Term)
	size *Term
}

type ChanObj struct {
	id     int
	et     types.Type
	cap_   int
	buf    []Value
	closed bool
	site   siteKey
	recvq  []*Thread
	sendq  []*sendWait
}

type sendWait struct {
	th   *Thread
	v    Value
	done bool
}

// NativeV is a native model stored inside memory (bytes.Buffer, sync.Map, ...)
type NativeV interface{ nativeName() string }

func under(t types.Type) types.Type { return t.Underlying() }

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return t.String()
}

// width of a basic type; 0 = bool; -1 otherwise
func basicWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isStringT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (st *State) zero(t types.Type) Value {
	if z, ok := nativeZero[typeName(t)]; ok {
		return z(st)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return StrV{emptySeq}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		w := basicWidth(u)
		if w == 0 {
			return st.ts.Fals
		}
		if w > 0 {
			return st.ts.BV(0, w)
		}
		st.unsupported("zero of %v", t)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := st.ts.I(0)
		return SliceV{Ptr{}, z, z, z}
	case *types.Struct:
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = st.zero(u.Field(i).Type())
		}
		return &StructV{fs}
	case *types.Array:
		return st.repSeq(st.zero(u.Elem()), st.ts.BV(uint64(u.Len()), 64))
	case *types.Interface:
		return IfaceV{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = st.zero(u.At(i).Type())
		}
		return tv
	}
	st.unsupported("zero of %v", t)
	return nil
}

func (st *State) newObj(t types.Type, v Value) *Obj {
	st.nobj++
	o := &Obj{id: st.nobj, typ: t, val: v, site: st.site()}
	st.objs = append(st.objs, o)
	return o
}

// site names an allocation independently of the path taken to it
func (st *State) site() siteKey {
	k := siteKey{}
	if st.cur != nil && len(st.cur.frames) > 0 {
		fr := st.cur.frames[len(st.cur.frames)-1]
		k.fn, k.pos = fr.fn, fr.pos
	}
	if st.siteN == nil {
		st.siteN = map[siteKey]int{}
	}
	st.siteN[k]++
	k.n = st.siteN[k]
	return k
}

func (st *State) getPath(v Value, path []PE) Value {
	for _, pe := range path {
		if pe.idx == nil {
			s, ok := v.(*StructV)
			if !ok {
				st.unsupported("field of %T", v)
			}
			v = s.fs[pe.f]
		} else {
			q, ok := v.(*Seq)
			if !ok {
				st.unsupported("index of %T", v)
			}
			v = st.seqGet(q, pe.idx)
		}
	}
	return v
}

func (st *State) setPath(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	pe := path[0]
	if pe.idx == nil {
		s, ok := v.(*StructV)
		if !ok {
			st.unsupported("field update of %T", v)
		}
		fs := make([]Value, len(s.fs))
		copy(fs, s.fs)
		fs[pe.f] = st.setPath(fs[pe.f], path[1:], nv)
		return &StructV{fs}
	}
	q, ok := v.(*Seq)
	if !ok {
		st.unsupported("index update of %T", v)
	}
	if len(path) > 1 {
		nv = st.setPath(st.seqGet(q, pe.idx), path[1:], nv)
	}
	return st.seqSet(q, pe.idx, nv)
}

func (st *State) load(p Ptr) Value {
	if p.obj == nil {
		st.goPanicRT("nil pointer dereference")
	}
	return st.getPath(p.obj.val, p.path)
}

func (st *State) store(p Ptr, v Value) {
	if p.obj == nil {
		st.goPanicRT("nil pointer dereference")
	}
	if st.pure > 0 {
		panic(mergeAbort{})
	}
	st.noteWrite(p)
	p.obj.val = st.setPath(p.obj.val, p.path, v)
}

func ptrEqSyn(a, b Ptr) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// sliceSeq returns the current contents of a slice as an immutable sequence
func (st *State) sliceSeq(s SliceV) *Seq {
	if s.isNil() {
		return emptySeq
	}
	c := st.load(s.base).(*Seq)
	return st.seqSlice(c, s.off, st.ts.Add(s.off, s.ln))
}

func (st *State) newSlice(et types.Type, q *Seq) SliceV {
	n := st.seqLen(q)
	o := st.newObj(types.NewSlice(et), q)
	return SliceV{Ptr{obj: o}, st.ts.I(0), n, n}
}

// valEq builds a Bool term for Go ==
func (st *State) valEq(a, b Value, t types.Type) *Term {
	ts := st.ts
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			st.unsupported("compare term with %T", b)
		}
		if t != nil && isFloat(t) {
			return st.floatEq(x, y)
		}
		return ts.Eq(x, y)
	case StrV:
		return st.seqEqTerm(x.s, b.(StrV).s)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			if yn, ok := b.(*AbsPtr); ok {
				_ = yn
			}
			st.unsupported("compare pointer with %T", b)
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return ts.Fals
		}
		r := ts.True
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			if p.idx != nil && q.idx != nil {
				r = ts.And(r, ts.Eq(p.idx, q.idx))
			} else if p != q {
				return ts.Fals
			}
		}
		return r
	case *StructV:
		y := b.(*StructV)
		var su *types.Struct
		if t != nil {
			su, _ = under(t).(*types.Struct)
		}
		r := ts.True
		for i := range x.fs {
			var ft types.Type
			if su != nil {
				ft = su.Field(i).Type()
			}
			r = ts.And(r, st.valEq(x.fs[i], y.fs[i], ft))
		}
		return r
	case *Seq:
		return st.seqEqTerm(x, b.(*Seq))
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			st.unsupported("compare interface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return ts.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return ts.Fals
		}
		switch x.v.(type) {
		case SliceV, *MapObj, *Closure:
			st.goPanicRT("comparing uncomparable type")
		}
		return st.valEq(x.v, y.v, x.t)
	case *MapObj:
		return ts.Bool(x == b.(*MapObj))
	case *ChanObj:
		return ts.Bool(x == b.(*ChanObj))
	case *Closure:
		y, _ := b.(*Closure)
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		return ts.Bool(x == y)
	case SliceV:
		// only comparison with nil is legal
		y := b.(SliceV)
		if x.isNil() && !y.isNil() {
			x, y = y, x
		}
		if y.isNil() && !x.isNil() && x.base.obj.nilT != nil {
			return x.base.obj.nilT
		}
		return ts.Bool(x.isNil() && y.isNil())
	case nil:
		return ts.Bool(b == nil)
	}
	if e, ok := a.(interface {
		eq(st *State, o Value) *Term
	}); ok {
		return e.eq(st, b)
	}
	if a == b {
		return ts.True
	}
	st.unsupported("compare %T with %T", a, b)
	return nil
}

func (st *State) describe(v Value) string {
	switch x := v.(type) {
	case *Term:
		return st.ts.String(x)
	case StrV:
		return "str" + st.seqString(x.s)
	case *Seq:
		return st.seqString(x)
	case SliceV:
		if x.isNil() {
			return "nil"
		}
		return "slice" + st.seqString(st.sliceSeq(x))
	case *StructV:
		s := "{"
		for i, f := range x.fs {
			if i > 0 {
				s += ", "
			}
			s += st.describe(f)
		}
		return s + "}"
	case Ptr:
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&%d%v", x.obj.id, x.path)
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("(%v)%s", x.t, st.describe(x.v))
	}
	return fmt.Sprintf("%T", v)
}
