//verif:property C01
package serialization

import (
	"bytes"

	gv "github.com/tg123/phabrik/zzgv"
)

// specGroups is the contract of the compressed form, from the property: big-endian
// 7-bit groups, 0x80 on every byte but the last, in the fewest bytes whose leading
// group shows the sign in bit 0x40; zero is no bytes.
func specGroups(signed bool, v uint64) []byte {
	if v == 0 {
		return nil
	}
	n := 1
	for n < 10 {
		if signed {
			if t := int64(v) >> uint(7*n-1); t == 0 || t == -1 {
				break
			}
		} else if v>>uint(7*n-1) == 0 {
			break
		}
		n++
	}
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		k := uint(7 * (n - 1 - i))
		var g byte
		if signed {
			g = byte(int64(v)>>k) & 0x7f
		} else {
			g = byte(v>>k) & 0x7f
		}
		if i != n-1 {
			g |= 0x80
		}
		out[i] = g
	}
	return out
}

func gvxWriteRead(signed bool, size int, v uint64) {
	s := &encodeState{}
	s.pushBuffer()
	before := gv.BytesN("before", 2)
	s.buf.Write(before)
	var err error
	if signed {
		err = s.writeCompressedSigned(size, int64(v))
	} else {
		err = s.writeCompressedUnsigned(size, v)
	}
	gv.Assert(err == nil, "writing succeeds")
	got := s.buf.Bytes()
	want := specGroups(signed, v)
	gv.AssertEqBytes(got, append(append([]byte{}, before...), want...), "the canonical bytes are appended")
	if v == 0 {
		gv.Cover("zero")
		return
	}
	tail := gv.Bytes("tail")
	rd := bytes.NewReader(append(append([]byte{}, want...), tail...))
	d := &decodeState{rd}
	if signed {
		r, err := d.readCompressedSigned(size)
		gv.Assert(err == nil, "reading succeeds")
		gv.Assert(r == int64(v), "the same integer is read")
	} else {
		r, err := d.readCompressedUnsigned(size)
		gv.Assert(err == nil, "reading succeeds")
		gv.Assert(r == v, "the same integer is read")
	}
	gv.Assert(rd.Len() == len(tail), "exactly the written bytes are consumed")
	gv.Cover("non-zero")
}

func Verif_C01_int16()  { gvxWriteRead(true, 2, uint64(int64(gv.I16("v")))) }
func Verif_C01_int32()  { gvxWriteRead(true, 4, uint64(int64(gv.I32("v")))) }
func Verif_C01_int64()  { gvxWriteRead(true, 8, uint64(gv.I64("v"))) }
func Verif_C01_uint16() { gvxWriteRead(false, 2, uint64(gv.U16("v"))) }
func Verif_C01_uint32() { gvxWriteRead(false, 4, uint64(gv.U32("v"))) }
func Verif_C01_uint64() { gvxWriteRead(false, 8, gv.U64("v")) }

// the exported encoder and decoder use the same form
func Verif_C01_exported() {
	v := gv.U32("v")
	s := &encodeState{}
	s.pushBuffer()
	var e Encoder = s
	gv.Assert(e.WriteCompressedUInt32(v) == nil, "writing succeeds")
	want := specGroups(false, uint64(v))
	gv.AssertEqBytes(s.buf.Bytes(), want, "the canonical bytes are written")
	if v == 0 {
		return
	}
	tail := gv.Bytes("tail")
	rd := bytes.NewReader(append(append([]byte{}, want...), tail...))
	var d Decoder = &decodeState{rd}
	r, err := d.ReadCompressedUInt32()
	gv.Assert(err == nil && r == v, "the same integer is read")
	gv.Assert(rd.Len() == len(tail), "exactly the written bytes are consumed")
	gv.Cover("non-zero")
}
