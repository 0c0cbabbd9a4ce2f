//verif:property C41
//verif:level proof
//verif:optional
//verif:needs lease/C40.go
package lease

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C41_any: any bytes as a lease message
func Verif_C41_any() {
	b := gv.Bytes("message")
	gv.Assume(len(b) < 1<<31)
	var m *Message
	var err error
	gv.Alloc(func() int { return len(b) + 256 }, func() { m, err = unmarshal(b) })
	gv.Assert((m == nil) == (err != nil), "a message or an error")
	if len(b) < 200 {
		gv.Assert(err != nil, "a message shorter than its header is an error")
		return
	}
	off, size := specU(b, 188, 4), specU(b, 192, 4)
	if off+size > uint64(len(b)) {
		gv.Assert(err != nil, "an endpoint outside the data is an error")
		gv.Cover("outside")
	} else if size < 6 {
		gv.Assert(err != nil, "an endpoint too small for an address is an error")
		gv.Cover("small")
	} else if err == nil {
		gv.Assert(m.Type == LeaseMessageType(specU(b, 24, 4)) && m.LeaseInstance == int64(specU(b, 32, 8)), "the fields are those of the data")
		gv.Cover("message")
	}
}

// Verif_C41_short: data that ends within the header
func Verif_C41_short() {
	b := gv.BytesN("message", []int{0, 1, 11, 12, 100, 187, 188, 196, 199}[gv.Choice("length", 9)])
	m, err := unmarshal(b)
	gv.Assert(err != nil && m == nil, "a message shorter than its header is an error")
	gv.Cover("short")
}
