//verif:property C18
//verif:optional
//verif:needs transport/C18.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C18_step: from any state of the generator, the next id is the next counter value under the same prefix.
// Two ids fewer than 2^32 calls apart therefore have different counters.
func Verif_C18_step() {
	f, err := newMessageFactory()
	if err != nil {
		gv.Assert(false, "a generator is made")
		return
	}
	gv.Assert(!f.messagePrefix.IsEmpty(), "the prefix is not empty")
	n := gv.U32("ids drawn before")
	f.messageIdx = n
	p := f.messagePrefix
	id := f.Next()
	gv.Assert(id.Id == p && f.messagePrefix == p, "the prefix stays")
	gv.Assert(id.Index == n+1 && f.messageIdx == n+1, "the counter advances by one")
	gv.Assert(!id.IsEmpty(), "an id is never empty")
	gv.Cover("step")
}
