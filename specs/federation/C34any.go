//verif:property C34
//verif:optional
//verif:needs federation/C34.go
package federation

import (
	"crypto/md5"
	"strconv"
	"strings"

	gv "github.com/tg123/phabrik/zzgv"
)

// gvxHash: all that is used of the hash here is that it is a function of the text (md5 stands for any such function)
func gvxHash() {
	gv.Use("github.com/tg123/phabrik/federation.pearsonHash", func(v string) []byte {
		h := md5.Sum([]byte(v))
		return h[:]
	})
}

func gvxHashed(v string) (id NodeID) {
	h := pearsonHash(v)
	if len(h) != 16 {
		return
	}
	for i := uint(0); i < 8; i++ {
		id.Hi |= uint64(h[i]) << (8 * i)
		id.Lo |= uint64(h[8+i]) << (8 * i)
	}
	return
}

// Verif_C34_distinct: instances of one role, with any name
func Verif_C34_distinct() {
	gvxHash()
	role := gv.String("role")
	sep := []string{".", "_"}[gv.Choice("separator", 2)]
	i, j := gv.U64("i"), gv.U64("j")
	a := NodeIDFromV4Generator(role + sep + strconv.FormatUint(i, 10))
	b := NodeIDFromV4Generator(role + sep + strconv.FormatUint(j, 10))
	gv.Assert((i-j)&0xffffff == 0 || a.Hi>>40 != b.Hi>>40, "instances whose numbers differ modulo 2^24 have different ids")
	gv.Assert((i-j)&0xffffff != 0 || a.Hi>>40 == b.Hi>>40, "the top 24 bits depend on the number modulo 2^24")
	gv.Cover("two instances")
}

// Verif_C34_any: any name
func Verif_C34_any() {
	gvxHash()
	v := gv.String("name")
	id := NodeIDFromV4Generator(v)
	whole := gvxHashed(v)
	idx := strings.LastIndexAny(v, "._")
	if idx >= 0 {
		n, err := strconv.ParseUint(v[idx+1:], 10, 64)
		if err == nil {
			role := gvxHashed(v[:idx])
			top := ((role.Lo + n) * 14938617) & 0xffffff
			gv.Assert(id.Lo == whole.Lo && id.Hi<<24 == whole.Hi<<24, "the lower 104 bits are the hash of the name")
			gv.Assert(id.Hi>>40 == top, "the top 24 bits are the instance number, shifted by the hash of the role and permuted")
			gv.Cover("instance")
			return
		}
		gv.Cover("no number")
	} else {
		gv.Cover("no separator")
	}
	gv.Assert(id == whole, "a name without separator or instance number gets its plain hash")
}
