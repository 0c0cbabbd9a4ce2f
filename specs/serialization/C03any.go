//verif:property C03
//verif:optional
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
//verif:needs serialization/opaque.go
package serialization

func Verif_C03_any_container() { c := anyContainer(); c.gvxWrite(c.v, c.want) }
func Verif_C03_any_struct()    { c := anyStruct(); c.gvxWrite(c.v, c.want) }
