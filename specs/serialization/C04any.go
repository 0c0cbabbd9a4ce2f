//verif:property C04
//verif:optional
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
//verif:needs serialization/opaque.go
package serialization

import (
	gv "github.com/tg123/phabrik/zzgv"
)

type gvxT0 struct{}
type gvxT1 struct{ A uint32 }
type gvxT2 struct {
	A uint32
	B string
}
type gvxT3 struct {
	A uint32
	B string
	C specInner
}

// Verif_C04_any_fields: fields of any type, within anything; those the reader knows are read, the rest skipped
func Verif_C04_any_fields() {
	us, ss, is := specVals()
	n, m := gv.Choice("writer", 4), gv.Choice("reader", 4)
	var c gvxParts
	all := []interface{}{us[0], ss[0], is[0]}
	big := gv.Choice("big", 3)
	for i := 0; i < n; i++ {
		if i == big {
			c.add(all[i])
		} else {
			c.few(all[i])
		}
	}
	data := specObj(c.encs...)
	k := n
	if m < n {
		k = m
	}
	t := gvxT3{7, "kept", specInner{A: 8}}
	switch m {
	case 0:
		c.gvxRead(&gvxT0{}, data, k)
	case 1:
		r := gvxT1{t.A}
		c.gvxRead(&r, data, k)
		t.A = r.A
	case 2:
		r := gvxT2{t.A, t.B}
		c.gvxRead(&r, data, k)
		t.A, t.B = r.A, r.B
	case 3:
		c.gvxRead(&t, data, k)
	}
	want := gvxT3{7, "kept", specInner{A: 8}}
	if k > 0 {
		want.A = us[0]
	}
	if k > 1 {
		want.B = ss[0]
	}
	if k > 2 {
		want.C = is[0]
	}
	gv.Assert(t == want, "common fields are restored, the others keep their values")
}
