//verif:property C05
//verif:level proof
//verif:note loops over the input are verified by induction; C05any.go verifies decodeState.value for each kind of target with nested values under its own contract, so recursive target types and any element type are covered; maps are filled in the concrete harness only
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
package serialization

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// gvxAny: any bytes are deserialized into v without a panic or an allocation beyond the input
func gvxAny(v interface{}) {
	gv.Cut()
	data := gv.Bytes("data")
	var err error
	gv.Alloc(func() int { return len(data) }, func() { err = Unmarshal(data, v) })
	if err == nil {
		gv.Cover("a value")
	} else {
		gv.Cover("an error")
	}
}

func Verif_C05_small() {
	gvxAny(&struct {
		A int8
		B uint8
		C bool
	}{})
}
func Verif_C05_signed() {
	gvxAny(&struct {
		A int16
		B int64
	}{})
}
func Verif_C05_unsigned() {
	gvxAny(&struct {
		A uint16
		B uint32
	}{})
}
func Verif_C05_float() {
	gvxAny(&struct {
		A float64
		B float32
	}{})
}
func Verif_C05_string()  { gvxAny(&struct{ A string }{}) }
func Verif_C05_guid()    { gvxAny(&struct{ A GUID }{}) }
func Verif_C05_custom()  { gvxAny(&struct{ A specCustom }{}) }
func Verif_C05_pointer() { gvxAny(&struct{ A **uint16 }{}) }
func Verif_C05_nested()  { gvxAny(&struct{ A struct{ B bool } }{}) }
func Verif_C05_strings() { gvxAny(&struct{ A []string }{}) }
func Verif_C05_bytes()   { gvxAny(&struct{ A []uint8 }{}) }
func Verif_C05_structs() { gvxAny(&struct{ A []struct{ B bool } }{}) }
func Verif_C05_pointers() {
	gvxAny(&struct{ A []*struct{ B bool } }{})
}
func Verif_C05_map() { gvxAny(&struct{ A map[bool]bool }{}) }
