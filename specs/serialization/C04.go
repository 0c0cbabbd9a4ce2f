//verif:property C04
//verif:level proof
//verif:note all pairs of ten versions of a type whose fields cover every kind, at top level, nested once and twice, behind a pointer, in a slice and in a map; C04any.go has fields of any type (nested values under contract) for up to 3 fields
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
package serialization

import (
	"reflect"

	gv "github.com/tg123/phabrik/zzgv"
)

// versions of one type: each adds a field to the one before
type specV0 struct{}
type specV1 struct{ A uint16 }
type specV2 struct {
	A uint16
	B string
}
type specV3 struct {
	A uint16
	B string
	C GUID
}
type specV4 struct {
	A uint16
	B string
	C GUID
	D specInner
}
type specV5 struct {
	A uint16
	B string
	C GUID
	D specInner
	E *specInner
}
type specV6 struct {
	A uint16
	B string
	C GUID
	D specInner
	E *specInner
	F []int8
}
type specV7 struct {
	A uint16
	B string
	C GUID
	D specInner
	E *specInner
	F []int8
	G map[uint8]bool
}
type specV8 struct {
	A uint16
	B string
	C GUID
	D specInner
	E *specInner
	F []int8
	G map[uint8]bool
	H float64
}
type specV9 struct {
	A uint16
	B string
	C GUID
	D specInner
	E *specInner
	F []int8
	G map[uint8]bool
	H float64
	I []*specInner
}

func specVersions() []reflect.Type {
	return []reflect.Type{
		reflect.TypeOf(specV0{}), reflect.TypeOf(specV1{}), reflect.TypeOf(specV2{}), reflect.TypeOf(specV3{}), reflect.TypeOf(specV4{}),
		reflect.TypeOf(specV5{}), reflect.TypeOf(specV6{}), reflect.TypeOf(specV7{}), reflect.TypeOf(specV8{}), reflect.TypeOf(specV9{}),
	}
}

// specWritten: what the writer has (the format writes equal and different, empty and set values)
func specWritten() specV9 {
	in := specInner{A: 9, C: true}
	v := specV9{A: gv.U16("A"), B: "two", C: GUID{Data3: 0x2f3f}, D: specInner{A: 0x2f}, E: &in, F: []int8{0x2f, 0x3f}, G: map[uint8]bool{0x2f: true}, H: 1.5, I: []*specInner{nil, &in}}
	if gv.Bool("empties") {
		v = specV9{A: v.A}
	}
	return v
}

func specPreset() specV9 {
	in := specInner{A: 100}
	return specV9{A: 77, B: "kept", C: GUID{Data1: 5}, D: specInner{A: 3, C: true}, E: &in, F: []int8{1}, G: map[uint8]bool{1: true}, H: -1, I: []*specInner{&in}}
}

func specFill(to reflect.Value, from specV9) {
	f := reflect.ValueOf(from)
	for i := 0; i < to.NumField(); i++ {
		to.Field(i).Set(f.Field(i))
	}
}

// specRead: to was read from what a writer with n fields wrote; the others are as in before
func specRead(to reflect.Value, n int, from, before specV9) bool {
	f, p := reflect.ValueOf(from), reflect.ValueOf(before)
	for i := 0; i < to.NumField(); i++ {
		want := p.Field(i).Interface()
		if i < n {
			want = f.Field(i).Interface()
		}
		if !reflect.DeepEqual(to.Field(i).Interface(), want) {
			return false
		}
	}
	return true
}

const (
	specWrite = iota
	specPrepare
	specCheck
)

func specWrap(typ reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{
		{Name: "Before", Type: reflect.TypeOf(uint8(0))},
		{Name: "V", Type: typ},
		{Name: "After", Type: reflect.TypeOf(int8(0))},
	})
}

// gvxVersions writes a value of one version and reads it into another; in wraps the type, get finds the values within
func gvxVersions(in func(reflect.Type) reflect.Type, get func(v reflect.Value, use int) []reflect.Value, kept bool) {
	w, r := gv.Choice("writer", 10), gv.Choice("reader", 10)
	ts := specVersions()
	written := specWritten()
	var before specV9
	if kept {
		before = specPreset()
	}
	from, to := reflect.New(in(ts[w])), reflect.New(in(ts[r]))
	for _, v := range get(from.Elem(), specWrite) {
		specFill(v, written)
	}
	if kept {
		for _, v := range get(to.Elem(), specPrepare) {
			specFill(v, before)
		}
	}
	b, err := Marshal(from.Interface())
	gv.Assert(err == nil, "writing succeeds")
	err = Unmarshal(b, to.Interface())
	gv.Assert(err == nil, "reading into another version succeeds")
	if err != nil {
		return
	}
	vs := get(to.Elem(), specCheck)
	gv.Assert(len(vs) > 0, "the objects are there")
	for _, v := range vs {
		gv.Assert(specRead(v, w, written, before), "common fields are restored, the others keep their values")
	}
	if w < r {
		gv.Cover("newer reader")
	} else if w > r {
		gv.Cover("older reader")
	}
}

// gvxWithin: the object is the value of a field between two others
func gvxWithin(in func(reflect.Type) reflect.Type, get func(v reflect.Value, use int) []reflect.Value, kept bool) {
	b, a := gv.U8("before"), gv.I8("after")
	gvxVersions(func(t reflect.Type) reflect.Type { return specWrap(in(t)) }, func(v reflect.Value, use int) []reflect.Value {
		if use == specWrite {
			v.Field(0).SetUint(uint64(b))
			v.Field(2).SetInt(int64(a))
		} else if use == specCheck {
			gv.Assert(v.Field(0).Uint() == uint64(b) && v.Field(2).Int() == int64(a), "what follows the object is read correctly")
		}
		return get(v.Field(1), use)
	}, kept)
}

func specItself(v reflect.Value, use int) []reflect.Value { return []reflect.Value{v} }

func Verif_C04_top() {
	gvxVersions(func(t reflect.Type) reflect.Type { return t }, specItself, true)
}

func Verif_C04_nested() {
	gvxWithin(func(t reflect.Type) reflect.Type { return t }, specItself, true)
}

func Verif_C04_deeper() {
	gvxWithin(specWrap, func(v reflect.Value, use int) []reflect.Value {
		return []reflect.Value{v.Field(1)}
	}, true)
}

func Verif_C04_pointer() {
	gvxWithin(reflect.PtrTo, func(v reflect.Value, use int) []reflect.Value {
		if use == specWrite {
			v.Set(reflect.New(v.Type().Elem()))
		}
		return []reflect.Value{v.Elem()}
	}, false)
}

func Verif_C04_slice() {
	gvxWithin(reflect.SliceOf, func(v reflect.Value, use int) []reflect.Value {
		if use == specWrite {
			v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		}
		gv.Assert(v.Len() == 2, "the elements are there")
		return []reflect.Value{v.Index(0), v.Index(1)}
	}, false)
}

// Verif_C04_map: as the value of a map entry, and within the list of a struct that is
func Verif_C04_map() {
	gvxWithin(func(t reflect.Type) reflect.Type { return reflect.MapOf(reflect.TypeOf(uint8(0)), reflect.PtrTo(t)) }, func(v reflect.Value, use int) []reflect.Value {
		k := reflect.ValueOf(uint8(3))
		if use == specWrite {
			v.Set(reflect.MakeMap(v.Type()))
			v.SetMapIndex(k, reflect.New(v.Type().Elem().Elem()))
		}
		e := v.MapIndex(k)
		gv.Assert(v.Len() == 1 && e.IsValid() && !e.IsNil(), "the entry is there")
		return []reflect.Value{e.Elem()}
	}, false)
}

// Verif_C04_base: a struct reads what the struct it embeds wrote, and the other way round
func Verif_C04_base() {
	type derived struct {
		SpecMiddle
		Z uint8
		G GUID
	}
	in := SpecMiddle{SpecBase{gv.U8("X"), specTexts("S")}, int16(gv.I8("Y"))}
	z := gv.U8("Z")
	b, err := Marshal(&in)
	gv.Assert(err == nil, "writing succeeds")
	d := derived{Z: z, G: GUID{Data1: 1}}
	d.Y = 7
	gv.Assert(Unmarshal(b, &d) == nil, "reading the base succeeds")
	gv.Assert(d.SpecMiddle == in && d.Z == z && d.G == GUID{Data1: 1}, "common fields are restored, the others keep their values")
	b, err = Marshal(&d)
	gv.Assert(err == nil, "writing succeeds")
	var m SpecMiddle
	var base SpecBase
	gv.Assert(Unmarshal(b, &m) == nil && m == in, "the base reads its own fields")
	gv.Assert(Unmarshal(b, &base) == nil && base == in.SpecBase, "the base reads its own fields")
	gv.Cover("done")
}
