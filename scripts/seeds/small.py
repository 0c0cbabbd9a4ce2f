SEEDS=[
dict(id='S01-fast-path', property='C01', pkg='serialization',
 needs='the value 64, the first one whose single group shows a sign bit',
 breaks='64 is written as the single byte of -64',
 edits=[('serialization/bytecompress.go','	size = ((size*8 + 6) / 7)\n	buffer','	// small values are one byte\n	if value > 0 && value <= valueCompressMaskNegative {\n		return s.buf.WriteByte(byte(value))\n	}\n\n	size = ((size*8 + 6) / 7)\n	buffer')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	type v struct{ X int64 }
	for x := int64(-300); x < 300; x++ {
		b, err := Marshal(&v{x})
		if err != nil {
			t.Fatal(err)
		}
		var o v
		if err := Unmarshal(b, &o); err != nil || o.X != x {
			t.Fatal(x, o.X, err)
		}
	}
}
'''),
dict(id='S06-empty', property='C06', pkg='serialization',
 needs='a GUID that is zero except for its last bytes',
 breaks='a non-zero GUID counts as empty and is sent as the empty GUID',
 edits=[('serialization/guid.go','	return g == emptyGUID\n','	return g.Data1 == 0 && g.Data2 == 0 && g.Data3 == 0 && g.Data4[0] == 0\n'),('serialization/guid.go','var emptyGUID = GUID{}\n\n','')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	g := GUID{}
	if !g.IsEmpty() {
		t.Fatal("zero guid not empty")
	}
	g.Data4[7] = 1
	if g.IsEmpty() {
		t.Fatal("non-zero guid empty")
	}
}
'''),
dict(id='S06-dash', property='C06', pkg='serialization',
 needs='a 36-character text whose last dash is another character',
 breaks='text that is no GUID is accepted',
 edits=[('serialization/guid.go'," || s[18] != '-' || s[23] != '-' {"," || s[18] != '-' {")],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	if _, err := GUIDFromString("01234567-89ab-cdef-0123x456789abcdef"); err == nil {
		t.Fatal("accepted")
	}
	if _, err := GUIDFromString("01234567-89ab-cdef-0123-456789abcdef"); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='S60-rounding', property='C60', pkg='common',
 needs='a duration whose remainder below 100 ns is 50 or more',
 breaks='conversion rounds to the nearest tick instead of toward zero',
 edits=[('common/time.go','return TimeSpan(d.Nanoseconds() / 100)','return TimeSpan(d.Round(100*time.Nanosecond).Nanoseconds() / 100)')],
 demo='''package common

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	if TimeSpanFromDuration(199*time.Nanosecond) != 1 || TimeSpanFromDuration(-199*time.Nanosecond) != -1 {
		t.Fatal("not rounded toward zero")
	}
}
'''),
dict(id='S30-borrow', property='C30', pkg='federation',
 needs='node ids whose low halves borrow from the high halves',
 breaks='the distance between ids is off by 2^64',
 edits=[('federation/nodeid.go','	lo, borrow := bits.Sub64(u.Lo, v.Lo, 0)\n	hi, _ := bits.Sub64(u.Hi, v.Hi, borrow)','	lo, _ := bits.Sub64(u.Lo, v.Lo, 0)\n	hi, _ := bits.Sub64(u.Hi, v.Hi, 0)')],
 demo='''package federation

import "testing"

func TestDemo(t *testing.T) {
	if (uint128{1, 0}).sub(uint128{0, 1}) != (uint128{0, 1<<64 - 1}) {
		t.Fatal("borrow lost")
	}
}
'''),
]
