//verif:property C33
//verif:level proof
//verif:needs federation/C30.go
//verif:note text of every length from 0 to 36 characters (any characters); longer texts with up to 60 leading zeros
package federation

import (
	"github.com/tg123/phabrik/serialization"
	gv "github.com/tg123/phabrik/zzgv"
)

func specHexDigit(c byte) (byte, bool) {
	switch {
	case '0' <= c && c <= '9':
		return c - '0', true
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10, true
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

// Verif_C33_text: an id prints as 32 lower-case hexadecimal digits and reads back
func Verif_C33_text() {
	id := specNodeID("id")
	s := id.String()
	gv.Assert(len(s) == 32, "32 digits")
	if len(s) != 32 {
		return
	}
	for i := 0; i < 32; i++ {
		v := id.Hi
		if i >= 16 {
			v = id.Lo
		}
		d := byte(v>>uint(60-4*(i%16))) & 15
		w := '0' + d
		if d > 9 {
			w = 'a' + d - 10
		}
		gv.Assert(s[i] == w, "lower-case digits, most significant first")
	}
	back, err := NodeIDFromHex(s)
	gv.Assert(err == nil && back == id, "the printed text reads back")
	gv.Cover("printed")
}

// Verif_C33_parse: any text of up to 36 characters
func Verif_C33_parse() {
	n := gv.Choice("length", 37)
	gv.Bounded("texts of up to 36 characters")
	s := gv.StringN("s", n)
	good := n > 0
	var hi, lo uint64
	over := false
	for i := 0; i < n; i++ {
		d, ok := specHexDigit(s[i])
		good = good && ok
		over = over || hi>>60 != 0
		hi = hi<<4 | lo>>60
		lo = lo<<4 | uint64(d)
	}
	if n > 0 {
		// a leading sign: a plus may or may not be accepted, a minus only before zero
		gv.Assume(s[0] != '+' && s[0] != '-')
	}
	id, err := NodeIDFromHex(s)
	if good && !over {
		gv.Assert(err == nil, "hexadecimal text of up to 128 bits is accepted")
		gv.Assert(err != nil || id == NodeID{Hi: hi, Lo: lo}, "the id has the value of the digits")
		gv.Cover("accepted")
	} else {
		gv.Assert(err != nil, "other text is rejected")
		gv.Cover("rejected")
	}
}

// Verif_C33_sign: negative numbers are rejected
func Verif_C33_sign() {
	n := gv.Choice("length", 36)
	gv.Bounded("texts of up to 36 characters")
	t := gv.StringN("t", n)
	zero := true
	for i := 0; i < n; i++ {
		zero = zero && t[i] == '0'
	}
	id, err := NodeIDFromHex("-" + t)
	gv.Assert(err != nil || n > 0 && zero && id == NodeID{}, "negative text is rejected")
	id, err = NodeIDFromHex("+" + t)
	plain, perr := NodeIDFromHex(t)
	gv.Assert(n > 0 && (t[0] == '+' || t[0] == '-') || err != nil || perr == nil && id == plain, "a plus sign is rejected or changes nothing")
	gv.Cover("signs")
}

// Verif_C33_zeros: leading zeros do not count
func Verif_C33_zeros() {
	gv.Bounded("up to 60 leading zeros")
	zeros := "000000000000000000000000000000000000000000000000000000000000"
	k := 1 + gv.Choice("zeros", len(zeros))
	want := specNodeID("id")
	id, err := NodeIDFromHex(zeros[:k] + want.String())
	gv.Assert(err == nil && id == want, "leading zeros do not change the value")
	gv.Cover("zeros")
}

type specIDMsg struct{ Id NodeID }
type specRangeMsg struct{ R NodeIdRange }

func specIDBytes(id NodeID) []byte {
	b := []byte{0x84, 0x10}
	for i := uint(0); i < 8; i++ {
		b = append(b, byte(id.Hi>>(8*i)))
	}
	for i := uint(0); i < 8; i++ {
		b = append(b, byte(id.Lo>>(8*i)))
	}
	return b
}

// Verif_C33_wire: an id on the wire
func Verif_C33_wire() {
	id := specNodeID("id")
	was := id
	b, err := serialization.Marshal(&specIDMsg{id})
	if err != nil {
		gv.Assert(false, "an id can be written")
		return
	}
	empty, err := serialization.Marshal(&struct{}{})
	gv.Assume(err == nil)
	gv.Assert(len(b) == len(empty)+18, "type, size and 16 bytes")
	if len(b) != len(empty)+18 {
		return
	}
	at := len(empty) - 2
	gv.AssertEqBytes(b[at:at+18], specIDBytes(id), "a byte array of 16: the little-endian halves, high half first")
	var back specIDMsg
	gv.Assert(serialization.Unmarshal(b, &back) == nil && back.Id == was, "reading restores the id")
	gv.Cover("id")
}

// Verif_C33_range: a range on the wire
func Verif_C33_range() {
	r := NodeIdRange{specNodeID("begin"), specNodeID("end")}
	b, err := serialization.Marshal(&specRangeMsg{r})
	if err != nil {
		gv.Assert(false, "a range can be written")
		return
	}
	empty, err := serialization.Marshal(&struct{}{})
	gv.Assume(err == nil)
	gv.Assert(len(b) == len(empty)+36, "two ids")
	if len(b) != len(empty)+36 {
		return
	}
	at := len(empty) - 2
	gv.AssertEqBytes(b[at:at+36], append(specIDBytes(r.Begin), specIDBytes(r.End)...), "begin, then end")
	var back specRangeMsg
	gv.Assert(serialization.Unmarshal(b, &back) == nil && back.R == r, "reading restores the range")
	gv.Cover("range")
}

// Verif_C33_wrong: another type or another size is an error
func Verif_C33_wrong() {
	id := specNodeID("id")
	other := specNodeID("other")
	ranged := gv.Bool("range")
	second := gv.Bool("second id of the range")
	var b []byte
	var err error
	if ranged {
		b, err = serialization.Marshal(&specRangeMsg{NodeIdRange{other, id}})
	} else {
		gv.Assume(!second)
		b, err = serialization.Marshal(&specIDMsg{id})
	}
	empty, eerr := serialization.Marshal(&struct{}{})
	gv.Assume(err == nil && eerr == nil)
	at := len(empty) - 2
	if second {
		at += 18
	}
	if gv.Bool("type") {
		t := gv.U8("wrong type")
		gv.Assume(t != b[at])
		gv.Assume(t&0x40 == 0)                                              // empty values have no type to check
		gv.Assume(t != byte(serialization.FabricSerializationTypeScopeEnd)) // an older version without the field
		b[at] = t
	} else {
		n := gv.U8("wrong size")
		gv.Assume(n != b[at+1] && n < 0x80) // not a longer form of the same number
		b[at+1] = n
	}
	if ranged {
		var back specRangeMsg
		gv.Assert(serialization.Unmarshal(b, &back) != nil, "a range with a wrong type or size is an error")
	} else {
		var back specIDMsg
		gv.Assert(serialization.Unmarshal(b, &back) != nil, "an id with a wrong type or size is an error")
	}
	gv.Cover("wrong")
}
