package serialization

import (
	"math"

	gv "github.com/tg123/phabrik/zzgv"
)

type specNamed int32
type specText string

type specInner struct {
	A uint16
	b uint32
	C bool
}

// specTexts: text of a length the format can carry
func specTexts(n string) string {
	v := gv.Text(n)
	gv.Assume(len(v) < 1<<28)
	return v
}

func specInnerV(n string) (specInner, []byte) {
	v := specInner{A: gv.U16(n + ".A"), C: gv.Bool(n + ".C")}
	return v, specObj(specU16(v.A), specB(v.C))
}

type SpecBase struct {
	X uint8
	S string
}

type SpecMiddle struct {
	SpecBase
	Y int16
}

type specHidden struct{ H uint8 }

type SpecCount int32

func caseBool() specCase   { v := gv.Bool("v"); return specPlain(v, specB(v)) }
func caseI8() specCase     { v := gv.I8("v"); return specPlain(v, specI8(v)) }
func caseU8() specCase     { v := gv.U8("v"); return specPlain(v, specU8(v)) }
func caseI16() specCase    { v := gv.I16("v"); return specPlain(v, specI16(v)) }
func caseU16() specCase    { v := gv.U16("v"); return specPlain(v, specU16(v)) }
func caseI32() specCase    { v := gv.I32("v"); return specPlain(v, specI32(v)) }
func caseU32() specCase    { v := gv.U32("v"); return specPlain(v, specU32(v)) }
func caseI64() specCase    { v := gv.I64("v"); return specPlain(v, specI64(v)) }
func caseU64() specCase    { v := gv.U64("v"); return specPlain(v, specU64(v)) }
func caseNamed() specCase  { v := specNamed(gv.I32("v")); return specPlain(v, specI32(int32(v))) }
func caseString() specCase { v := specTexts("v"); return specPlain(v, specStr(v)) }
func caseNamedString() specCase {
	v := specText(specTexts("v"))
	return specPlain(v, specStr(string(v)))
}

// floating-point numbers, compared by their bits
func caseF64() specCase {
	v := math.Float64frombits(gv.U64("v"))
	return specMake(v, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }, specF(v))
}

func caseF32() specCase {
	v := math.Float32frombits(gv.U32("v"))
	gv.Assume(v == v)
	return specMake(v, func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }, specF(float64(v)))
}

func caseGUID() specCase {
	var g GUID
	g.Data1, g.Data2, g.Data3 = gv.U32("data1"), gv.U16("data2"), gv.U16("data3")
	copy(g.Data4[:], gv.BytesN("data4", 8))
	return specPlain(g, specG(g))
}

func caseCustom() specCase { v := specCustom{gv.U32("v")}; return specPlain(v, specC(v)) }

// pointers
func specPtrCase[T any](v T, enc []byte, same func(a, b T) bool) specCase {
	var p *T
	var to []byte
	if gv.Bool("set") {
		p, to = &v, enc
	}
	return specMake(p, func(a, b *T) bool {
		if a == nil || b == nil {
			return a == b
		}
		return same(*a, *b)
	}, specPtr(to))
}

func casePtrInt() specCase  { v := gv.U32("v"); return specPtrCase(v, specU32(v), specSame[uint32]) }
func casePtrBool() specCase { v := gv.Bool("v"); return specPtrCase(v, specB(v), specSame[bool]) }
func casePtrStr() specCase  { v := specTexts("v"); return specPtrCase(v, specStr(v), specSame[string]) }
func casePtrStruct() specCase {
	v, enc := specInnerV("v")
	return specPtrCase(v, enc, specSame[specInner])
}
func casePtrCustom() specCase {
	v := specCustom{gv.U32("v")}
	return specPtrCase(v, specC(v), specSame[specCustom])
}
func casePtrPtr() specCase {
	v := gv.I16("v")
	var p *int16
	enc := []byte{specPointer | specEmpty}
	if gv.Bool("inner set") {
		p, enc = &v, specPtr(specI16(v))
	}
	return specPtrCase(p, enc, func(a, b *int16) bool {
		if a == nil || b == nil {
			return a == b
		}
		return *a == *b
	})
}
func casePtrSlice() specCase {
	v, enc := specSliceV(specUInt32|specArrays, specU32s)
	return specPtrCase(v, enc, specSameSlice[uint32])
}

// structs
func caseStruct() specCase {
	v, enc := specInnerV("v")
	return specPlain(v, enc)
}

func caseEmptyStruct() specCase { return specPlain(struct{}{}, specObj()) }

func caseUnexported() specCase {
	type t struct {
		a uint32
		B uint8
		c *t
		D GUID
		e []int
	}
	v := t{a: gv.U32("a"), B: gv.U8("B"), e: []int{1}}
	v.D.Data2 = gv.U16("data2")
	return specMake(v, func(a, b t) bool { return b.a == 0 && a.B == b.B && a.D == b.D && b.c == nil && b.e == nil }, specObj(specU8(v.B), specG(v.D)))
}

func caseNested() specCase {
	type in2 struct {
		P specInner
		Q int8
	}
	type in3 struct {
		A uint8
		N in2
		B uint8
	}
	i, enc := specInnerV("P")
	v := in3{gv.U8("A"), in2{i, gv.I8("Q")}, gv.U8("B")}
	return specPlain(v, specObj(specU8(v.A), specObj(enc, specI8(v.N.Q)), specU8(v.B)))
}

func caseEmbedded() specCase {
	type t struct {
		A uint8
		SpecMiddle
		B bool
	}
	v := t{A: gv.U8("A"), B: gv.Bool("B")}
	v.X, v.S, v.Y = gv.U8("X"), specTexts("S"), []int16{0, -300}[gv.Choice("Y", 2)]
	gv.Assume(v.A != 0 && v.X != 0)
	return specPlain(v, specObj(specU8(v.A), specU8(v.X), specStr(v.S), specI16(v.Y), specB(v.B)))
}

// embedded fields that are not exported structs: their exported fields are promoted, or they are fields themselves
func caseEmbeddedOther() specCase {
	type t struct {
		specHidden
		SpecCount
		*SpecBase
		B bool
	}
	v := t{B: gv.Bool("B"), SpecCount: SpecCount(gv.I8("count"))}
	v.H = gv.U8("H")
	enc := specPtr(nil)
	if gv.Bool("pointer set") {
		v.SpecBase = &SpecBase{X: gv.U8("X")}
		enc = specPtr(specObj(specU8(v.X), specStr("")))
	}
	return specMake(v, func(a, b t) bool {
		if a.H != b.H || a.B != b.B || a.SpecCount != b.SpecCount {
			return false
		}
		if a.SpecBase == nil || b.SpecBase == nil {
			return a.SpecBase == b.SpecBase
		}
		return *a.SpecBase == *b.SpecBase
	}, specObj(specU8(v.H), specI32(int32(v.SpecCount)), enc, specB(v.B)))
}

// slices, of up to three elements
func specSliceV[T any](meta byte, elem func(n string) (T, []byte)) ([]T, []byte) {
	var v []T
	var enc [][]byte
	n := gv.Choice("length", 4) - 1
	if n == 0 {
		v = []T{} // empty, not nil
	}
	for i := 0; i < n; i++ {
		e, b := elem([]string{"first", "second"}[i])
		v, enc = append(v, e), append(enc, b)
	}
	return v, specList(meta, enc...)
}

func specSameSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) || len(a) == 0 && b != nil {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func specSliceCase[T comparable](meta byte, elem func(n string) (T, []byte)) specCase {
	v, enc := specSliceV(meta, elem)
	return specMake(v, specSameSlice[T], enc)
}

func specBools(n string) (bool, []byte)  { v := gv.Bool(n); return v, specB(v) }
func specI8s(n string) (int8, []byte)    { v := gv.I8(n); return v, specI8(v) }
func specU8s(n string) (uint8, []byte)   { v := gv.U8(n); return v, specU8(v) }
func specI16s(n string) (int16, []byte)  { v := gv.I16(n); return v, specI16(v) }
func specU16s(n string) (uint16, []byte) { v := gv.U16(n); return v, specU16(v) }
func specI32s(n string) (int32, []byte)  { v := gv.I32(n); return v, specI32(v) }
func specU32s(n string) (uint32, []byte) { v := gv.U32(n); return v, specU32(v) }
func specI64s(n string) (int64, []byte)  { v := gv.I64(n); return v, specI64(v) }
func specU64s(n string) (uint64, []byte) { v := gv.U64(n); return v, specU64(v) }

// the first is any text
func specStrs(n string) (string, []byte) {
	v := "\u00e9 \U0001f600"
	if n == "first" || n == "key one" || n == "value one" {
		v = specTexts(n)
	} else if gv.Bool(n + " empty") {
		v = ""
	}
	return v, specStr(v)
}

func specInns(n string) (specInner, []byte) { return specInnerV(n) }
func specCusts(n string) (specCustom, []byte) {
	v := specCustom{gv.U32(n)}
	return v, specC(v)
}
func specGUIDs(n string) (GUID, []byte) {
	g := GUID{Data1: gv.U32(n + ".data1"), Data3: gv.U16(n + ".data3")}
	return g, specG(g)
}

func caseBools() specCase { return specSliceCase(specBool|specArrays, specBools) }
func caseI8s() specCase   { return specSliceCase(specChar|specArrays, specI8s) }
func caseU8s() specCase   { return specSliceCase(specUChar|specArrays, specU8s) }
func caseI16s() specCase  { return specSliceCase(specShort|specArrays, specI16s) }
func caseU16s() specCase  { return specSliceCase(specUShort|specArrays, specU16s) }
func caseI32s() specCase  { return specSliceCase(specInt32|specArrays, specI32s) }
func caseU32s() specCase  { return specSliceCase(specUInt32|specArrays, specU32s) }
func caseI64s() specCase  { return specSliceCase(specInt64|specArrays, specI64s) }
func caseU64s() specCase  { return specSliceCase(specUInt64|specArrays, specU64s) }
func caseStrs() specCase  { return specSliceCase(specUInt32, specStrs) }
func caseInns() specCase  { return specSliceCase(specArrays, specInns) }
func caseCusts() specCase { return specSliceCase(specArrays, specCusts) }
func caseGUIDs() specCase { return specSliceCase(specArrays, specGUIDs) }

func casePtrs() specCase {
	v, enc := specSliceV(specUInt32, func(n string) (*int16, []byte) {
		if gv.Bool(n + " nil") {
			return nil, specPtr(nil)
		}
		v := gv.I16(n)
		return &v, specPtr(specI16(v))
	})
	return specMake(v, func(a, b []*int16) bool {
		if len(a) != len(b) || len(a) == 0 && b != nil {
			return false
		}
		for i := range a {
			if (a[i] == nil) != (b[i] == nil) || a[i] != nil && *a[i] != *b[i] {
				return false
			}
		}
		return true
	}, enc)
}

// longer slices: the count takes more than one byte
func caseLong() specCase {
	n := []int{63, 64, 127, 128, 200}[gv.Choice("length", 5)]
	v := make([]uint16, n)
	v[n-1] = gv.U16("last")
	enc := make([][]byte, n)
	for i := range enc {
		enc[i] = specU16(v[i])
	}
	return specMake(v, specSameSlice[uint16], specList(specUShort|specArrays, enc...))
}

// maps, of up to two entries, written in some order
func specMapCase[K, V comparable](key func(n string) (K, []byte), val func(n string) (V, []byte)) specCase {
	var m map[K]V
	var enc [][]byte
	n := gv.Choice("entries", 4) - 1
	if n >= 0 {
		m = map[K]V{}
	}
	for i := 0; i < n; i++ {
		k, kb := key([]string{"key one", "key two"}[i])
		v, vb := val([]string{"value one", "value two"}[i])
		_, has := m[k]
		gv.Assume(!has)
		m[k] = v
		enc = append(enc, specObj(kb, vb))
	}
	want := [][]byte{specList(specArrays, enc...)}
	if n == 2 {
		want = append(want, specList(specArrays, enc[1], enc[0]))
	}
	return specMake(m, func(a, b map[K]V) bool {
		if len(a) != len(b) || len(a) == 0 && b != nil {
			return false
		}
		for k, v := range a {
			if w, ok := b[k]; !ok || w != v {
				return false
			}
		}
		return true
	}, want...)
}

func caseMapI() specCase { return specMapCase(specU8s, specI8s) }
func caseMapS() specCase { return specMapCase(specStrs, specBools) }
func caseMapT() specCase { return specMapCase(specBools, specStrs) }

func caseMapG() specCase { return specMapCase(specGUIDs, specInns) }
func caseMapC() specCase { return specMapCase(specCusts, specU8s) }

// everything together
func caseMixed() specCase {
	type elem struct {
		P *specInner
		L []uint8
	}
	type t struct {
		M map[uint8][]elem
		P **GUID
		N struct{ X []*specCustom }
	}
	in, enc := specInnerV("in")
	b := gv.U8("b")
	v := t{M: map[uint8][]elem{7: {{&in, []uint8{b, 0}}, {}}}}
	g := GUID{Data3: gv.U16("data3")}
	gp := &g
	v.P = &gp
	v.N.X = []*specCustom{nil, {gv.U32("n")}}
	e1 := specObj(specPtr(enc), specList(specUChar|specArrays, specU8(b), specU8(0)))
	e2 := specObj(specPtr(nil), specList(specUChar|specArrays))
	want := specObj(
		specList(specArrays, specObj(specU8(7), specList(specArrays, e1, e2))),
		specPtr(specPtr(specG(g))),
		specObj(specList(specUInt32, specPtr(nil), specPtr(specC(*v.N.X[1])))))
	return specMake(v, func(a, w t) bool {
		if len(w.M) != 1 || len(w.M[7]) != 2 || w.P == nil || *w.P == nil || len(w.N.X) != 2 {
			return false
		}
		x, y := w.M[7][0], w.M[7][1]
		if x.P == nil || *x.P != in || len(x.L) != 2 || x.L[0] != b || x.L[1] != 0 || y.P != nil || y.L != nil {
			return false
		}
		return **w.P == g && w.N.X[0] == nil && w.N.X[1] != nil && *w.N.X[1] == *a.N.X[1]
	}, want)
}
