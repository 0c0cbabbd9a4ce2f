//verif:property C06
package serialization

import (
	gv "github.com/tg123/phabrik/zzgv"
)

func specGUID() (g GUID) {
	g.Data1 = gv.U32("data1")
	g.Data2 = gv.U16("data2")
	g.Data3 = gv.U16("data3")
	copy(g.Data4[:], gv.BytesN("data4", 8))
	return g
}

func specHexDigit(v byte, upper bool) byte {
	v &= 15
	if v < 10 {
		return '0' + v
	}
	if upper {
		return 'A' + v - 10
	}
	return 'a' + v - 10
}

// specGUIDBytes: the 16 bytes in text order
func specGUIDBytes(g GUID) []byte {
	b := []byte{byte(g.Data1 >> 24), byte(g.Data1 >> 16), byte(g.Data1 >> 8), byte(g.Data1), byte(g.Data2 >> 8), byte(g.Data2), byte(g.Data3 >> 8), byte(g.Data3)}
	return append(b, g.Data4[:]...)
}

// specGUIDText: 8-4-4-4-12 hexadecimal; digit i is upper case when up(i)
func specGUIDText(g GUID, up func(i int) bool) []byte {
	var out []byte
	for i, x := range specGUIDBytes(g) {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			out = append(out, '-')
		}
		out = append(out, specHexDigit(x>>4, up(2*i)), specHexDigit(x, up(2*i+1)))
	}
	return out
}

func Verif_C06_text() {
	g := specGUID()
	s := g.String()
	gv.AssertEqBytes([]byte(s), specGUIDText(g, func(int) bool { return false }), "lower-case 8-4-4-4-12 form")
	h, err := GUIDFromString(s)
	gv.Assert(err == nil, "the printed form parses")
	gv.Assert(h == g, "parsing gives the same GUID back")
	gv.Cover("printed and parsed")
}

func specIsHex(c byte) bool {
	return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}

func specVal(c byte) byte {
	switch {
	case c <= '9':
		return c - '0'
	case c <= 'F':
		return c - 'A' + 10
	}
	return c - 'a' + 10
}

// any text of the right length
func Verif_C06_parse() {
	s := gv.StringN("s", 36)
	g, err := GUIDFromString(s)
	good := true
	var val [16]byte
	k := 0
	for i := 0; i < 36; i++ {
		c := s[i]
		if i == 8 || i == 13 || i == 18 || i == 23 {
			good = good && c == '-'
			continue
		}
		good = good && specIsHex(c)
		val[k/2] = val[k/2]<<4 | specVal(c)
		k++
	}
	if err != nil {
		gv.Cover("rejected")
		gv.Assert(!good, "well-formed text in either letter case is accepted")
		return
	}
	gv.Cover("accepted")
	gv.Assert(good, "wrong dash position or digit alphabet is rejected")
	if good {
		gv.Assert(gv.EqBytes(specGUIDBytes(g), val[:]), "the value is that of the digits")
	}
}

func Verif_C06_length() {
	s := gv.String("s")
	gv.Assume(len(s) != 36)
	_, err := GUIDFromString(s)
	gv.Assert(err != nil, "any other length is rejected")
	gv.Cover("other length")
}

func Verif_C06_generate() {
	g, err := NewGuidV4()
	if err != nil {
		return
	}
	gv.Assert(g.Data3>>12 == 4, "version 4")
	gv.Assert(g.Data4[0]>>6 == 2, "RFC 4122 variant")
	gv.Assert(!g.IsEmpty(), "a generated GUID is not empty")
	gv.Cover("generated")
	h := MustNewGuidV4()
	gv.Assert(h.Data3>>12 == 4 && h.Data4[0]>>6 == 2, "version 4 and variant also for MustNewGuidV4")
	gv.Cover("generated by MustNewGuidV4")
}

func Verif_C06_empty() {
	g := specGUID()
	zero := g.Data1 == 0 && g.Data2 == 0 && g.Data3 == 0 && g.Data4 == [8]byte{}
	gv.Assert(g.IsEmpty() == zero, "only the all-zero GUID is empty")
	gv.Cover("checked")
}

// wire form: type byte then 16 bytes, little-endian fields
type specGUIDMsg struct{ Id GUID }

func Verif_C06_wire() {
	g := specGUID()
	b, err := Marshal(&specGUIDMsg{g})
	gv.Assert(err == nil, "marshals")
	if err != nil {
		return
	}
	var back specGUIDMsg
	gv.Assert(Unmarshal(b, &back) == nil, "unmarshals")
	gv.Assert(back.Id == g, "the same GUID is read back")
	if g == (GUID{}) {
		gv.Cover("empty")
		gv.Assert(len(b) == 1+8+1+1+1+1 && b[10] == 0x4c, "the empty GUID is its empty type byte")
		return
	}
	gv.Cover("non-empty")
	gv.Assert(len(b) == 1+8+1+17+1+1, "17 bytes for a GUID")
	w := []byte{byte(FabricSerializationTypeGuid), byte(g.Data1), byte(g.Data1 >> 8), byte(g.Data1 >> 16), byte(g.Data1 >> 24), byte(g.Data2), byte(g.Data2 >> 8), byte(g.Data3), byte(g.Data3 >> 8)}
	gv.AssertEqBytes(b[10:27], append(w, g.Data4[:]...), "little-endian fields and the eight bytes")
}
