//verif:property C02
//verif:optional
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
//verif:needs serialization/opaque.go
package serialization

import (
	"reflect"

	gv "github.com/tg123/phabrik/zzgv"
)

// What serializing produces for any nested values is what C03 proves; reading it restores them.
func gvxReadBack(c *gvxContainer) {
	c.gvxRead(c.to, c.want, len(c.vals))
	gv.Assert(reflect.DeepEqual(c.v, c.to), "every nested value is restored")
}

func Verif_C02_any_container() { gvxReadBack(anyContainer()) }
func Verif_C02_any_struct()    { gvxReadBack(anyStruct()) }
