package serialization

import (
	"bytes"
	"encoding/binary"
	"math"
	"strconv"
	"unicode/utf16"

	gv "github.com/tg123/phabrik/zzgv"
)

// The Service Fabric binary form, written down without reflection.

const (
	specBool, specChar, specUChar                   = 0x02, 0x03, 0x04
	specShort, specUShort, specInt32, specUInt32    = 0x05, 0x06, 0x07, 0x08
	specInt64, specUInt64, specDouble, specGuid     = 0x09, 0x0a, 0x0b, 0x0c
	specWString, specPointer, specEmpty, specArrays = 0x0d, 0x01, 0x40, 0x80
)

// specVarint: big-endian 7-bit groups, 0x80 on every byte but the last, in the fewest
// bytes whose leading group shows the sign in bit 0x40; zero is no bytes
func specVarint(signed bool, v uint64) []byte {
	if v == 0 {
		return nil
	}
	n := 1
	for n < 10 {
		if signed {
			if t := int64(v) >> uint(7*n-1); t == 0 || t == -1 {
				break
			}
		} else if v>>uint(7*n-1) == 0 {
			break
		}
		n++
	}
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		k := uint(7 * (n - 1 - i))
		g := byte(v>>k) & 0x7f
		if signed {
			g = byte(int64(v)>>k) & 0x7f
		}
		if i != n-1 {
			g |= 0x80
		}
		out[i] = g
	}
	return out
}

func specCat(parts ...[]byte) (out []byte) {
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func specObj(fields ...[]byte) []byte {
	body := specCat(fields...)
	n := uint32(len(body)) + 11
	out := []byte{0, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24), 0, 0, 0, 0, 0x1f}
	return append(append(out, body...), 0x2f, 0x3f)
}

func specB(v bool) []byte {
	if v {
		return []byte{0x42}
	}
	return []byte{0x72}
}

func specNum(meta byte, signed bool, v uint64) []byte {
	if v == 0 {
		return []byte{meta | specEmpty}
	}
	return append([]byte{meta}, specVarint(signed, v)...)
}

func specI8(v int8) []byte {
	if v == 0 {
		return []byte{specChar | specEmpty}
	}
	return []byte{specChar, byte(v)}
}

func specU8(v uint8) []byte {
	if v == 0 {
		return []byte{specUChar | specEmpty}
	}
	return []byte{specUChar, v}
}

func specI16(v int16) []byte  { return specNum(specShort, true, uint64(int64(v))) }
func specU16(v uint16) []byte { return specNum(specUShort, false, uint64(v)) }
func specI32(v int32) []byte  { return specNum(specInt32, true, uint64(int64(v))) }
func specU32(v uint32) []byte { return specNum(specUInt32, false, uint64(v)) }
func specI64(v int64) []byte  { return specNum(specInt64, true, uint64(v)) }
func specU64(v uint64) []byte { return specNum(specUInt64, false, v) }

func specF(v float64) []byte {
	b := math.Float64bits(v)
	if b == 0 {
		return []byte{specDouble | specEmpty}
	}
	return []byte{specDouble, byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24), byte(b >> 32), byte(b >> 40), byte(b >> 48), byte(b >> 56)}
}

func specStr(v string) []byte {
	if v == "" {
		return []byte{specWString | specArrays | specEmpty}
	}
	u := utf16.Encode([]rune(v))
	return specCat([]byte{specWString | specArrays}, specVarint(false, uint64(len(u))), specUnits(u))
}

func specUnits(u []uint16) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, u)
	return b.Bytes()
}

func specG(g GUID) []byte {
	if g == (GUID{}) {
		return []byte{specGuid | specEmpty}
	}
	a, b, c := g.Data1, g.Data2, g.Data3
	return append([]byte{specGuid, byte(a), byte(a >> 8), byte(a >> 16), byte(a >> 24), byte(b), byte(b >> 8), byte(c), byte(c >> 8)}, g.Data4[:]...)
}

func specPtr(to []byte) []byte {
	if to == nil {
		return []byte{specPointer | specEmpty}
	}
	return append([]byte{specPointer}, to...)
}

// specList: elements of a slice; those of strings and pointers are announced as a count
func specList(meta byte, elems ...[]byte) []byte {
	if len(elems) == 0 {
		return []byte{meta | specEmpty}
	}
	return specCat([]byte{meta}, specVarint(false, uint64(len(elems))), specCat(elems...))
}

// specCustom is a custom-marshaled type
type specCustom struct{ n uint32 }

func (c *specCustom) Marshal(s Encoder) error {
	if err := s.WriteTypeMeta(FabricSerializationTypeUInt64); err != nil {
		return err
	}
	if err := s.WriteBinary(c.n); err != nil {
		return err
	}
	return s.WriteCompressedUInt32(c.n | 1)
}

func (c *specCustom) Unmarshal(meta FabricSerializationType, s Decoder) error {
	if meta != FabricSerializationTypeUInt64 {
		return strconv.ErrSyntax
	}
	if err := s.ReadBinary(&c.n); err != nil {
		return err
	}
	n, err := s.ReadCompressedUInt32()
	if err == nil && n != c.n|1 {
		return strconv.ErrRange
	}
	return err
}

func specC(c specCustom) []byte {
	return specCat([]byte{specUInt64, byte(c.n), byte(c.n >> 8), byte(c.n >> 16), byte(c.n >> 24)}, specVarint(false, uint64(c.n|1)))
}

// specCase: a value, its bytes (one of several for maps), and whether what was read is the same
type specCase struct {
	v, to interface{}
	want  [][]byte
	same  func() bool
}

type specHolder[T any] struct {
	Before uint8
	V      T
	After  int8
}

func specMake[T any](v T, same func(a, b T) bool, want ...[]byte) specCase {
	h := &specHolder[T]{gv.U8("before"), v, gv.I8("after")}
	var to specHolder[T]
	c := specCase{v: h, to: &to}
	for _, w := range want {
		c.want = append(c.want, specObj(specU8(h.Before), w, specI8(h.After)))
	}
	c.same = func() bool { return to.Before == h.Before && to.After == h.After && same(v, to.V) }
	return c
}

func specSame[T comparable](a, b T) bool { return a == b }

func specPlain[T comparable](v T, want []byte) specCase { return specMake(v, specSame[T], want) }

func gvxBytes(c specCase) {
	b, err := Marshal(c.v)
	gv.Assert(err == nil, "serializing succeeds")
	for _, w := range c.want[1:] {
		if gv.EqBytes(b, w) {
			return
		}
	}
	gv.AssertEqBytes(b, c.want[0], "the bytes are those of the Service Fabric format")
	gv.Cover("done")
}

func gvxTrip(c specCase) {
	b, err := Marshal(c.v)
	gv.Assert(err == nil, "serializing succeeds")
	err = Unmarshal(b, c.to)
	gv.Assert(err == nil, "deserializing succeeds")
	if err == nil {
		gv.Assert(c.same(), "every field is restored")
	}
	gv.Cover("done")
}
