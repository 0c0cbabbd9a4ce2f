package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// RV models reflect.Value over concrete static types with symbolic contents
type RV struct {
	t     types.Type
	p     Ptr   // addressable location (p.obj != nil)
	v     Value // otherwise the value itself
	ro    bool  // sticky read-only (unexported field)
	embRO bool
}

// RTV models reflect.Type
type RTV struct{ t types.Type }

func (r RTV) eq(st *State, o Value) *Term {
	p, ok := o.(RTV)
	return st.ts.Bool(ok && types.Identical(r.t, p.t))
}
func (r RTV) key(st *State) *Term { return st.ts.App("rtype."+typeString(r.t), SU) }

func (r RV) addressable() bool { return r.p.obj != nil }

func (st *State) rvGet(r RV) Value {
	if r.addressable() {
		return st.load(r.p)
	}
	return r.v
}

func (st *State) rtype(t types.Type) Value {
	return IfaceV{t: types.NewPointer(st.pkgType("reflect", "rtype")), v: RTV{t}}
}

func rtOf(v Value) types.Type {
	if i, ok := v.(IfaceV); ok {
		if r, ok := i.v.(RTV); ok {
			return r.t
		}
	}
	return nil
}

var kindNo = map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14,
	types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

func kindOf(t types.Type) int {
	switch u := under(t).(type) {
	case *types.Basic:
		return kindNo[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (st *State) rvOf(v Value) RV {
	r, ok := v.(RV)
	if !ok {
		st.unsupported("reflect.Value is %T", v)
	}
	return r
}

func (st *State) rvKind(r RV) int {
	if r.t == nil {
		return 0
	}
	return kindOf(r.t)
}

func (st *State) rvPanic(m string) { st.goPanicRT("reflect: " + m) }

func (st *State) rvMust(r RV, m string, ks ...int) {
	k := st.rvKind(r)
	for _, x := range ks {
		if k == x {
			return
		}
	}
	st.rvPanic(fmt.Sprintf("call of %s on %v Value", m, r.t))
}

func (r RV) readonly() bool { return r.ro || r.embRO }

func (st *State) rvMustSet(r RV, m string) {
	if r.t == nil {
		st.rvPanic(m + " on zero Value")
	}
	if r.readonly() {
		st.rvPanic(m + " using value obtained using unexported field")
	}
	if !r.addressable() {
		st.rvPanic(m + " using unaddressable value")
	}
}

// value as stored into a location of type t
func (st *State) rvAssign(r RV, t types.Type, m string) Value {
	if r.t == nil {
		st.rvPanic(m + ": zero Value")
	}
	if r.readonly() {
		st.rvPanic(m + " using value obtained using unexported field")
	}
	if !types.AssignableTo(r.t, t) {
		st.rvPanic(m + ": value of type " + typeString(r.t) + " is not assignable to type " + typeString(t))
	}
	v := st.rvGet(r)
	if _, ok := under(t).(*types.Interface); ok {
		if _, ok := under(r.t).(*types.Interface); !ok {
			return IfaceV{t: r.t, v: v}
		}
	}
	return v
}

func (st *State) isZeroTerm(v Value, t types.Type) *Term {
	ts := st.ts
	switch x := v.(type) {
	case *Term:
		if x.sort == SBool {
			return ts.Not(x)
		}
		return ts.Eq(x, ts.BV(0, x.w()))
	case StrV:
		return ts.Eq(st.seqLen(x.s), ts.I(0))
	case Ptr:
		return ts.Bool(x.isNil())
	case SliceV:
		return ts.Bool(x.isNil())
	case *MapObj:
		return ts.Bool(x == nil)
	case *ChanObj:
		return ts.Bool(x == nil)
	case *Closure:
		return ts.Bool(x == nil)
	case IfaceV:
		return ts.Bool(x.t == nil)
	case *StructV:
		u := under(t).(*types.Struct)
		r := ts.True
		for i, f := range x.fs {
			r = ts.And(r, st.isZeroTerm(f, u.Field(i).Type()))
		}
		return r
	case *Seq:
		n := st.seqLen(x)
		if n.IsConst() && n.val <= 256 {
			r := ts.True
			et := under(t).(*types.Array).Elem()
			for i := 0; i < int(n.val); i++ {
				r = ts.And(r, st.isZeroTerm(st.seqGet(x, ts.I(i)), et))
			}
			return r
		}
	}
	st.unsupported("IsZero of %T", v)
	return nil
}

func (st *State) rvField(r RV, i int) RV {
	u := under(r.t).(*types.Struct)
	f := u.Field(i)
	n := RV{t: f.Type(), ro: r.ro}
	if !f.Exported() {
		if f.Embedded() {
			n.embRO = true
		} else {
			n.ro = true
		}
	}
	if r.addressable() {
		n.p = r.p.field(i)
	} else {
		n.v = r.v.(*StructV).fs[i]
	}
	return n
}

// rangeEntries is an ordered snapshot of a map, as MapRange visits it
type MapIterV struct {
	m  RV
	it *rangeIter
	k  Value
	v  Value
}

func (st *State) rvIface(r RV) Value {
	if r.t == nil {
		st.rvPanic("Interface of zero Value")
	}
	v := st.rvGet(r)
	if _, ok := under(r.t).(*types.Interface); ok {
		return v
	}
	return IfaceV{t: r.t, v: v}
}

func (st *State) constInt(t *Term, what string, max int) int {
	if t.IsConst() {
		return int(int64(t.val))
	}
	k, ok := st.concretize(t, 0, max)
	if !ok {
		st.unsupported("symbolic %s", what)
	}
	return k
}

func (st *State) structField(t *types.Struct, i int) Value {
	ft := st.pkgType("reflect", "StructField")
	u := under(ft).(*types.Struct)
	v := st.zero(ft).(*StructV)
	f := t.Field(i)
	for k := 0; k < u.NumFields(); k++ {
		switch u.Field(k).Name() {
		case "Name":
			v.fs[k] = StrV{st.strSeq(f.Name())}
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				v.fs[k] = StrV{st.strSeq(f.Pkg().Path())}
			}
		case "Type":
			v.fs[k] = st.rtype(f.Type())
		case "Tag":
			v.fs[k] = StrV{st.strSeq(t.Tag(i))}
		case "Anonymous":
			v.fs[k] = st.ts.Bool(f.Embedded())
		}
	}
	return v
}

func (r RTV) invoke(st *State, name string, args []Value) Value {
	ts := st.ts
	switch name {
	case "Kind":
		return ts.BV(uint64(kindOf(r.t)), 64)
	case "Elem":
		switch u := under(r.t).(type) {
		case *types.Pointer:
			return st.rtype(u.Elem())
		case *types.Slice:
			return st.rtype(u.Elem())
		case *types.Array:
			return st.rtype(u.Elem())
		case *types.Map:
			return st.rtype(u.Elem())
		case *types.Chan:
			return st.rtype(u.Elem())
		}
		st.rvPanic("Elem of invalid type")
	case "Key":
		if u, ok := under(r.t).(*types.Map); ok {
			return st.rtype(u.Key())
		}
		st.rvPanic("Key of non-map type")
	case "NumField":
		if u, ok := under(r.t).(*types.Struct); ok {
			return ts.I(u.NumFields())
		}
		st.rvPanic("NumField of non-struct type")
	case "Field":
		u, ok := under(r.t).(*types.Struct)
		if !ok {
			st.rvPanic("Field of non-struct type")
		}
		i := st.constInt(args[0].(*Term), "field number", u.NumFields()-1)
		if i < 0 || i >= u.NumFields() {
			st.rvPanic("Field index out of bounds")
		}
		return st.structField(u, i)
	case "Size":
		return ts.BV(uint64(sizeOf(r.t)), 64)
	case "Bits":
		return ts.I(int(sizeOf(r.t)) * 8)
	case "Len":
		if u, ok := under(r.t).(*types.Array); ok {
			return ts.I(int(u.Len()))
		}
		st.rvPanic("Len of non-array type")
	case "NumMethod":
		return ts.I(types.NewMethodSet(r.t).Len())
	case "Implements":
		t := rtOf(args[0])
		it, ok := under(t).(*types.Interface)
		if !ok {
			st.rvPanic("non-interface type passed to Type.Implements")
		}
		return ts.Bool(types.Implements(r.t, it))
	case "AssignableTo":
		return ts.Bool(types.AssignableTo(r.t, rtOf(args[0])))
	case "ConvertibleTo":
		return ts.Bool(types.ConvertibleTo(r.t, rtOf(args[0])))
	case "Comparable":
		return ts.Bool(types.Comparable(r.t))
	case "Name":
		n := ""
		switch x := types.Unalias(r.t).(type) {
		case *types.Named:
			n = x.Obj().Name()
		case *types.Basic:
			n = x.Name()
		}
		return StrV{st.strSeq(n)}
	case "String":
		return StrV{st.strSeq(types.TypeString(r.t, func(p *types.Package) string { return p.Name() }))}
	case "PkgPath":
		n := ""
		if x, ok := types.Unalias(r.t).(*types.Named); ok && x.Obj().Pkg() != nil {
			n = x.Obj().Pkg().Path()
		}
		return StrV{st.strSeq(n)}
	}
	st.unsupported("reflect.Type.%s", name)
	return nil
}

func (st *State) rvLen(r RV) *Term {
	switch x := st.rvGet(r).(type) {
	case SliceV:
		return x.ln
	case StrV:
		return st.seqLen(x.s)
	case *Seq:
		return st.seqLen(x)
	case *MapObj:
		return st.mapLen(x)
	case *ChanObj:
		return st.ts.I(len(x.buf))
	}
	st.rvPanic(fmt.Sprintf("call of reflect.Value.Len on %v Value", r.t))
	return nil
}

func init() {
	nativeZero["reflect.Value"] = func(st *State) Value { return RV{} }
	nativeZero["reflect.MapIter"] = func(st *State) Value { return &MapIterV{} }
	type rvf func(st *State, r RV, a []Value) Value
	def := func(n string, f rvf) {
		natives["(reflect.Value)."+n] = func(st *State, fn *ssa.Function, a []Value) Value {
			return f(st, st.rvOf(a[0]), a[1:])
		}
	}
	pk := func(n string, f nativeFn) { natives["reflect."+n] = f }

	pk("TypeOf", func(st *State, fn *ssa.Function, a []Value) Value {
		i := a[0].(IfaceV)
		if i.t == nil {
			return IfaceV{}
		}
		return st.rtype(i.t)
	})
	pk("ValueOf", func(st *State, fn *ssa.Function, a []Value) Value {
		i := a[0].(IfaceV)
		if i.t == nil {
			return RV{}
		}
		if r, ok := i.v.(RTV); ok {
			st.unsupported("reflect.ValueOf(reflect.Type %v)", r.t)
		}
		return RV{t: i.t, v: i.v}
	})
	pk("Indirect", func(st *State, fn *ssa.Function, a []Value) Value {
		r := st.rvOf(a[0])
		if st.rvKind(r) != 22 {
			return r
		}
		return st.rvElem(r)
	})
	pk("New", func(st *State, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		if t == nil {
			st.rvPanic("New(nil)")
		}
		return RV{t: types.NewPointer(t), v: Ptr{obj: st.newObj(t, st.zero(t))}}
	})
	pk("Zero", func(st *State, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		if t == nil {
			st.rvPanic("Zero(nil)")
		}
		return RV{t: t, v: st.zero(t)}
	})
	pk("MakeSlice", func(st *State, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		s, ok := under(t).(*types.Slice)
		if !ok {
			st.rvPanic("MakeSlice of non-slice type")
		}
		ln, cp := a[1].(*Term), a[2].(*Term)
		st.check(st.ts.Sle(st.ts.I(0), ln), "reflect.MakeSlice: negative len")
		st.check(st.ts.Sle(ln, cp), "reflect.MakeSlice: len > cap")
		return RV{t: t, v: st.makeSlice(s.Elem(), ln, cp)}
	})
	mkMap := func(st *State, fn *ssa.Function, a []Value) Value {
		t := rtOf(a[0])
		m, ok := under(t).(*types.Map)
		if !ok {
			st.rvPanic("MakeMap of non-map type")
		}
		return RV{t: t, v: st.newMap(m.Key(), m.Elem())}
	}
	pk("MakeMap", mkMap)
	pk("MakeMapWithSize", mkMap)
	pk("SliceOf", func(st *State, fn *ssa.Function, a []Value) Value { return st.rtype(types.NewSlice(rtOf(a[0]))) })
	ptrTo := func(st *State, fn *ssa.Function, a []Value) Value { return st.rtype(types.NewPointer(rtOf(a[0]))) }
	pk("PtrTo", ptrTo)
	pk("PointerTo", ptrTo)
	pk("MapOf", func(st *State, fn *ssa.Function, a []Value) Value {
		if !types.Comparable(rtOf(a[0])) {
			st.rvPanic("MapOf: invalid key type")
		}
		return st.rtype(types.NewMap(rtOf(a[0]), rtOf(a[1])))
	})
	pk("StructOf", func(st *State, fn *ssa.Function, a []Value) Value {
		s := a[0].(SliceV)
		n := st.constInt(s.ln, "field count", 64)
		q := st.sliceSeq(s)
		ft := under(st.pkgType("reflect", "StructField")).(*types.Struct)
		var fs []*types.Var
		var tags []string
		for i := 0; i < n; i++ {
			v := st.seqGet(q, st.ts.I(i)).(*StructV)
			var name, tag string
			var typ types.Type
			anon := false
			for k := 0; k < ft.NumFields(); k++ {
				switch ft.Field(k).Name() {
				case "Name":
					name, _ = st.concreteStr(v.fs[k].(StrV).s)
				case "Tag":
					tag, _ = st.concreteStr(v.fs[k].(StrV).s)
				case "Type":
					typ = rtOf(v.fs[k])
				case "Anonymous":
					anon = v.fs[k].(*Term).IsTrue()
				}
			}
			if name == "" || typ == nil {
				st.rvPanic("StructOf: field without name or type")
			}
			fs = append(fs, types.NewField(0, nil, name, typ, anon))
			tags = append(tags, tag)
		}
		return st.rtype(types.NewStruct(fs, tags))
	})
	pk("Append", func(st *State, fn *ssa.Function, a []Value) Value {
		r := st.rvOf(a[0])
		st.rvMust(r, "reflect.Append", 23)
		if r.readonly() {
			st.rvPanic("Append using value obtained using unexported field")
		}
		xs := a[1].(SliceV)
		n := st.constInt(xs.ln, "append count", 64)
		q := st.sliceSeq(xs)
		et := under(r.t).(*types.Slice).Elem()
		s := st.rvGet(r).(SliceV)
		for i := 0; i < n; i++ {
			e := st.rvAssign(st.rvOf(st.seqGet(q, st.ts.I(i))), et, "reflect.Append")
			s = st.appendOp(s, st.newSlice(et, litSeq(e)), r.t).(SliceV)
		}
		return RV{t: r.t, v: s}
	})
	pk("Copy", func(st *State, fn *ssa.Function, a []Value) Value {
		d, s := st.rvGet(st.rvOf(a[0])).(SliceV), st.rvGet(st.rvOf(a[1])).(SliceV)
		return st.copyInto(d, st.sliceSeq(s))
	})

	def("Kind", func(st *State, r RV, a []Value) Value { return st.ts.BV(uint64(st.rvKind(r)), 64) })
	def("Type", func(st *State, r RV, a []Value) Value {
		if r.t == nil {
			st.rvPanic("Type of zero Value")
		}
		return st.rtype(r.t)
	})
	def("IsValid", func(st *State, r RV, a []Value) Value { return st.ts.Bool(r.t != nil) })
	def("CanSet", func(st *State, r RV, a []Value) Value { return st.ts.Bool(r.addressable() && !r.readonly()) })
	def("CanAddr", func(st *State, r RV, a []Value) Value { return st.ts.Bool(r.addressable()) })
	def("CanInterface", func(st *State, r RV, a []Value) Value { return st.ts.Bool(!r.readonly()) })
	def("Addr", func(st *State, r RV, a []Value) Value {
		if !r.addressable() {
			st.rvPanic("Addr of unaddressable value")
		}
		return RV{t: types.NewPointer(r.t), v: r.p, ro: r.readonly()}
	})
	def("Interface", func(st *State, r RV, a []Value) Value {
		if r.readonly() {
			st.rvPanic("cannot return value obtained from unexported field")
		}
		return st.rvIface(r)
	})
	def("Elem", func(st *State, r RV, a []Value) Value { return st.rvElem(r) })
	def("NumField", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.NumField", 25)
		return st.ts.I(under(r.t).(*types.Struct).NumFields())
	})
	def("Field", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.Field", 25)
		n := under(r.t).(*types.Struct).NumFields()
		i := st.constInt(a[0].(*Term), "field number", n-1)
		if i < 0 || i >= n {
			st.rvPanic("Field index out of range")
		}
		return st.rvField(r, i)
	})
	def("Len", func(st *State, r RV, a []Value) Value { return st.rvLen(r) })
	def("Cap", func(st *State, r RV, a []Value) Value {
		if s, ok := st.rvGet(r).(SliceV); ok {
			return s.cap_
		}
		return st.rvLen(r)
	})
	def("Index", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.Index", 23, 17, 24)
		idx := a[0].(*Term)
		switch u := under(r.t).(type) {
		case *types.Slice:
			s := st.rvGet(r).(SliceV)
			st.check(st.ts.Ult(idx, s.ln), "reflect: slice index out of range")
			return RV{t: u.Elem(), p: s.base.index(st.ts.Add(s.off, idx)), ro: r.readonly()}
		case *types.Array:
			st.check(st.ts.Ult(idx, st.ts.BV(uint64(u.Len()), 64)), "reflect: array index out of range")
			if r.addressable() {
				return RV{t: u.Elem(), p: r.p.index(idx), ro: r.readonly()}
			}
			return RV{t: u.Elem(), v: st.seqGet(r.v.(*Seq), idx), ro: r.readonly()}
		default:
			s := st.rvGet(r).(StrV)
			st.check(st.ts.Ult(idx, st.seqLen(s.s)), "reflect: string index out of range")
			return RV{t: byteT, v: st.seqGet(s.s, idx), ro: r.readonly()}
		}
	})
	def("Int", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.Int", 2, 3, 4, 5, 6)
		return st.ts.Resize(st.rvGet(r).(*Term), 64, true)
	})
	def("Uint", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.Uint", 7, 8, 9, 10, 11, 12)
		return st.ts.Resize(st.rvGet(r).(*Term), 64, false)
	})
	def("Float", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.Float", 13, 14)
		return st.floatConv(st.rvGet(r).(*Term), int(sizeOf(r.t))*8, 64)
	})
	def("Bool", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.Bool", 1)
		return st.rvGet(r)
	})
	def("String", func(st *State, r RV, a []Value) Value {
		if st.rvKind(r) == 24 {
			return StrV{st.rvGet(r).(StrV).s}
		}
		if r.t == nil {
			return StrV{st.strSeq("<invalid Value>")}
		}
		return StrV{st.strSeq("<" + typeString(r.t) + " Value>")}
	})
	def("Bytes", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.Bytes", 23)
		return st.rvGet(r)
	})
	def("IsZero", func(st *State, r RV, a []Value) Value {
		if r.t == nil {
			st.rvPanic("IsZero of zero Value")
		}
		return st.isZeroTerm(st.rvGet(r), r.t)
	})
	def("IsNil", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.IsNil", 18, 19, 20, 21, 22, 23, 26)
		return st.isZeroTerm(st.rvGet(r), r.t)
	})
	def("Set", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.Set")
		st.store(r.p, st.rvAssign(st.rvOf(a[0]), r.t, "reflect.Set"))
		return nil
	})
	def("SetZero", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.SetZero")
		st.store(r.p, st.zero(r.t))
		return nil
	})
	def("SetBool", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.SetBool")
		st.rvMust(r, "reflect.Value.SetBool", 1)
		st.store(r.p, a[0])
		return nil
	})
	def("SetInt", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.SetInt")
		st.rvMust(r, "reflect.Value.SetInt", 2, 3, 4, 5, 6)
		st.store(r.p, st.ts.Resize(a[0].(*Term), int(sizeOf(r.t))*8, true))
		return nil
	})
	def("SetUint", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.SetUint")
		st.rvMust(r, "reflect.Value.SetUint", 7, 8, 9, 10, 11, 12)
		st.store(r.p, st.ts.Resize(a[0].(*Term), int(sizeOf(r.t))*8, false))
		return nil
	})
	def("SetFloat", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.SetFloat")
		st.rvMust(r, "reflect.Value.SetFloat", 13, 14)
		st.store(r.p, st.floatConv(a[0].(*Term), 64, int(sizeOf(r.t))*8))
		return nil
	})
	def("SetString", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.SetString")
		st.rvMust(r, "reflect.Value.SetString", 24)
		st.store(r.p, a[0])
		return nil
	})
	def("SetLen", func(st *State, r RV, a []Value) Value {
		st.rvMustSet(r, "reflect.SetLen")
		s := st.rvGet(r).(SliceV)
		st.check(st.ts.Ule(a[0].(*Term), s.cap_), "reflect: slice length out of range in SetLen")
		st.store(r.p, SliceV{s.base, s.off, a[0].(*Term), s.cap_})
		return nil
	})
	def("SetMapIndex", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.SetMapIndex", 21)
		if r.readonly() {
			st.rvPanic("SetMapIndex using value obtained using unexported field")
		}
		mt := under(r.t).(*types.Map)
		m := st.rvGet(r).(*MapObj)
		k := st.rvAssign(st.rvOf(a[0]), mt.Key(), "reflect.Value.SetMapIndex")
		e := st.rvOf(a[1])
		if e.t == nil {
			st.mapDelete(m, k)
			return nil
		}
		v := st.rvAssign(e, mt.Elem(), "reflect.Value.SetMapIndex")
		if m == nil {
			st.goPanicRT("assignment to entry in nil map")
		}
		st.mapSet(m, k, v)
		return nil
	})
	def("MapIndex", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.MapIndex", 21)
		mt := under(r.t).(*types.Map)
		k := st.rvAssign(st.rvOf(a[0]), mt.Key(), "reflect.Value.MapIndex")
		v, ok := st.mapGet(st.rvGet(r).(*MapObj), k, mt.Elem())
		if ok.IsTrue() {
			return RV{t: mt.Elem(), v: v, ro: r.readonly()}
		}
		return RV{}
	})
	def("MapKeys", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.MapKeys", 21)
		mt := under(r.t).(*types.Map)
		it := st.rangeOf(st.rvGet(r), r.t).(*rangeIter)
		var vs []Value
		for {
			k, _, ok := st.mapNext(it)
			if !ok {
				break
			}
			vs = append(vs, RV{t: mt.Key(), v: k, ro: r.readonly()})
		}
		return st.newSlice(st.pkgType("reflect", "Value"), litSeq(vs...))
	})
	def("MapRange", func(st *State, r RV, a []Value) Value {
		st.rvMust(r, "reflect.Value.MapRange", 21)
		t := st.pkgType("reflect", "MapIter")
		return Ptr{obj: st.newObj(t, &MapIterV{m: r, it: st.rangeOf(st.rvGet(r), r.t).(*rangeIter)})}
	})
	mi := func(n string, f func(st *State, it *MapIterV) Value) {
		natives["(*reflect.MapIter)."+n] = func(st *State, fn *ssa.Function, a []Value) Value {
			return f(st, st.load(a[0].(Ptr)).(*MapIterV))
		}
	}
	mi("Next", func(st *State, it *MapIterV) Value {
		k, v, ok := st.mapNext(it.it)
		it.k, it.v = k, v
		return st.ts.Bool(ok)
	})
	mi("Key", func(st *State, it *MapIterV) Value {
		if it.k == nil {
			st.rvPanic("MapIter.Key called before Next")
		}
		return RV{t: under(it.m.t).(*types.Map).Key(), v: it.k, ro: it.m.readonly()}
	})
	mi("Value", func(st *State, it *MapIterV) Value {
		if it.k == nil {
			st.rvPanic("MapIter.Value called before Next")
		}
		return RV{t: under(it.m.t).(*types.Map).Elem(), v: it.v, ro: it.m.readonly()}
	})
	pk("DeepEqual", func(st *State, fn *ssa.Function, a []Value) Value {
		return st.deepEqual(a[0], a[1], nil, 0)
	})
}

func (st *State) rvElem(r RV) RV {
	switch u := under2(r.t).(type) {
	case *types.Pointer:
		p := st.rvGet(r).(Ptr)
		if p.obj == nil {
			return RV{}
		}
		return RV{t: u.Elem(), p: p, ro: r.readonly()}
	case *types.Interface:
		i := st.rvGet(r).(IfaceV)
		if i.t == nil {
			return RV{}
		}
		return RV{t: i.t, v: i.v, ro: r.readonly()}
	}
	st.rvPanic(fmt.Sprintf("call of reflect.Value.Elem on %v Value", r.t))
	return RV{}
}

func under2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// mapNext advances an iteration over a map
func (st *State) mapNext(it *rangeIter) (Value, Value, bool) {
	for len(it.todo) > 0 {
		e := it.todo[0]
		it.todo = it.todo[1:]
		live := false
		for _, c := range it.m.entries {
			if c == e {
				live = true
			}
		}
		if !live || !st.Branch(e.present) {
			continue
		}
		return e.key, e.val, true
	}
	return nil, nil, false
}

// deepEqual mirrors reflect.DeepEqual on acyclic values
func (st *State) deepEqual(a, b Value, t types.Type, depth int) *Term {
	ts := st.ts
	if depth > 60 {
		st.unsupported("DeepEqual depth")
	}
	switch x := a.(type) {
	case IfaceV:
		y := b.(IfaceV)
		if x.t == nil || y.t == nil {
			return ts.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return ts.Fals
		}
		return st.deepEqual(x.v, y.v, x.t, depth+1)
	case Ptr:
		y := b.(Ptr)
		if x.isNil() || y.isNil() {
			return ts.Bool(x.isNil() && y.isNil())
		}
		if ptrEqSyn(x, y) {
			return ts.True
		}
		return st.deepEqual(st.load(x), st.load(y), under(t).(*types.Pointer).Elem(), depth+1)
	case SliceV:
		y := b.(SliceV)
		if x.isNil() != y.isNil() {
			return ts.Fals
		}
		return st.deepSeq(st.sliceSeq(x), st.sliceSeq(y), under(t).(*types.Slice).Elem(), depth)
	case *Seq:
		return st.deepSeq(x, b.(*Seq), under(t).(*types.Array).Elem(), depth)
	case *StructV:
		y := b.(*StructV)
		u := under(t).(*types.Struct)
		r := ts.True
		for i := range x.fs {
			r = ts.And(r, st.deepEqual(x.fs[i], y.fs[i], u.Field(i).Type(), depth+1))
		}
		return r
	case *MapObj:
		y := b.(*MapObj)
		if (x == nil) != (y == nil) {
			return ts.Fals
		}
		if x == nil || x == y {
			return ts.True
		}
		mt := under(t).(*types.Map)
		r := ts.Eq(st.mapLen(x), st.mapLen(y))
		for _, e := range append([]*MapEntry{}, x.entries...) {
			if !st.Branch(e.present) {
				continue
			}
			v, ok := st.mapGet(y, e.key, mt.Elem())
			if !ok.IsTrue() {
				return ts.Fals
			}
			r = ts.And(r, st.deepEqual(e.val, v, mt.Elem(), depth+1))
		}
		return r
	case *Closure:
		y, _ := b.(*Closure)
		return ts.Bool(x == nil && y == nil)
	}
	return st.valEq(a, b, t)
}

func (st *State) deepSeq(a, b *Seq, et types.Type, depth int) *Term {
	ts := st.ts
	switch under(et).(type) {
	case *types.Basic:
		return st.seqEqTerm(a, b)
	}
	la, lb := st.seqLen(a), st.seqLen(b)
	if !st.Branch(ts.Eq(la, lb)) {
		return ts.Fals
	}
	n := st.constInt(la, "length in DeepEqual", 64)
	r := ts.True
	for i := 0; i < n; i++ {
		r = ts.And(r, st.deepEqual(st.seqGet(a, ts.I(i)), st.seqGet(b, ts.I(i)), et, depth+1))
	}
	return r
}
