package serialization

import (
	"bytes"
	"io"
	"reflect"

	gv "github.com/tg123/phabrik/zzgv"
)

const (
	gvxEncode = "(*github.com/tg123/phabrik/serialization.encodeState).value"
	gvxDecode = "(*github.com/tg123/phabrik/serialization.decodeState).value"
)

// gvxParts: nested values by contract. Each is some value with some bytes, the same bytes
// when written and read; nothing else is known about them, so that they stand for values
// of any supported type, nested as deep as they like.
type gvxParts struct {
	vals    []interface{}
	encs    [][]byte
	written int
	read    int
}

func (p *gvxParts) add(v interface{}) {
	p.addBytes(v, gv.Bytes("part"))
}

// few: one or two bytes
func (p *gvxParts) few(v interface{}) {
	p.addBytes(v, gv.BytesN("few", 1+gv.Choice("more", 2)))
}

func (p *gvxParts) addBytes(v interface{}, e []byte) {
	gv.Assume(len(e) > 0 && len(e) < 1<<24)
	gv.Assume(e[0] != 0x2f) // no value starts like the end of an object
	p.vals, p.encs = append(p.vals, v), append(p.encs, e)
}

func (p *gvxParts) use() {
	gv.Use(gvxEncode, func(s *encodeState, rv reflect.Value) error {
		gv.Assert(p.written < len(p.vals), "no value is written twice")
		gv.Assert(reflect.DeepEqual(rv.Interface(), p.vals[p.written]), "the nested values are written in order")
		s.buf.Write(p.encs[p.written])
		p.written++
		return nil
	})
	gv.Use(gvxDecode, func(s *decodeState, meta FabricSerializationType, rv reflect.Value, depth int) error {
		gv.Assert(p.read < len(p.vals), "no value is read twice")
		gv.Assert(rv.CanSet(), "the nested value can be set")
		e := p.encs[p.read]
		rest := make([]byte, len(e)-1)
		_, err := io.ReadFull(s.inner, rest)
		gv.Assert(err == nil && byte(meta) == e[0] && gv.EqBytes(rest, e[1:]), "the nested values are read in order, where they are")
		rv.Set(reflect.ValueOf(p.vals[p.read]))
		p.read++
		return nil
	})
}

// gvxWrite encodes what v points to by the body of encodeState.value; something may have been written before
func (p *gvxParts) gvxWrite(v interface{}, want []byte) {
	p.use()
	s := &encodeState{}
	s.pushBuffer()
	buf := s.buf
	before := gv.Bytes("before")
	s.buf.Write(before)
	gv.Body(gvxEncode)
	err := s.value(reflect.ValueOf(v).Elem())
	gv.Assert(err == nil, "serializing succeeds")
	gv.Assert(s.buf == buf && len(s.bufStack) == 1, "the buffer is the same again")
	gv.AssertEqBytes(buf.Bytes(), append(append([]byte{}, before...), want...), "the bytes are those of the Service Fabric format")
	gv.Assert(p.written == len(p.vals), "every nested value is written")
	gv.Cover("done")
}

// gvxRead decodes data into what to points to by the body of decodeState.value; n values are read
func (p *gvxParts) gvxRead(to interface{}, data []byte, n int) {
	p.use()
	before, after := gv.BytesN("before", 3), gv.Bytes("after")
	rd := bytes.NewReader(append(append(append([]byte{}, before...), data...), after...))
	rd.Seek(int64(len(before))+1, io.SeekStart)
	gv.Body(gvxDecode)
	s := &decodeState{rd}
	err := s.value(FabricSerializationType(data[0]), reflect.ValueOf(to).Elem(), 1)
	gv.Assert(err == nil, "deserializing succeeds")
	gv.Assert(rd.Len() == len(after), "exactly the value is consumed")
	gv.Assert(p.read == n, "every nested value is read")
	gv.Cover("done")
}

// gvxContainer: a value with nested values, its bytes
type gvxContainer struct {
	gvxParts
	v, to interface{}
	want  []byte
}

// specHead: type and count of a list, elements follow
func (c *gvxContainer) list(meta byte) {
	c.want = specList(meta, c.encs...)
}

func gvxOfPtr(v interface{}, to interface{}, val interface{}) *gvxContainer {
	c := &gvxContainer{v: v, to: to}
	c.add(val)
	c.want = specPtr(c.encs[0])
	return c
}

func specVals() ([]uint32, []string, []specInner) {
	return []uint32{1, 2, 3}, []string{"a", "b", "c"}, []specInner{{A: 1}, {A: 2}, {A: 3}}
}

// anyContainer: pointers and slices (of up to three elements) of the element types that are told apart
func anyContainer() *gvxContainer {
	us, ss, is := specVals()
	n := 1 + gv.Choice("length", 3)
	c := &gvxContainer{}
	switch gv.Choice("type", 10) {
	case 0:
		p := &us[0]
		return gvxOfPtr(&p, new(*uint32), us[0])
	case 1:
		p := &ss
		return gvxOfPtr(&p, new(*[]string), ss)
	case 2:
		p := &is[1]
		pp := &p
		return gvxOfPtr(&pp, new(**specInner), p)
	case 3:
		v := us[:n]
		for _, x := range v {
			c.add(x)
		}
		c.v, c.to = &v, new([]uint32)
		c.list(specUInt32 | specArrays)
	case 4:
		v := ss[:n]
		for _, x := range v {
			c.add(x)
		}
		c.v, c.to = &v, new([]string)
		c.list(specUInt32)
	case 5:
		v := is[:n]
		for _, x := range v {
			c.add(x)
		}
		c.v, c.to = &v, new([]specInner)
		c.list(specArrays)
	case 6:
		v := []*uint32{&us[0], nil, &us[2]}[:n]
		for _, x := range v {
			c.add(x)
		}
		c.v, c.to = &v, new([]*uint32)
		c.list(specUInt32)
	case 7:
		v := []bool{true, false, true}[:n]
		for _, x := range v {
			c.add(x)
		}
		c.v, c.to = &v, new([]bool)
		c.list(specBool | specArrays)
	case 8:
		v := []float32{1, 2, 3}[:n]
		for _, x := range v {
			c.add(x)
		}
		c.v, c.to = &v, new([]float32)
		c.list(specDouble | specArrays)
	case 9:
		m := map[uint32]string{us[0]: ss[0]}
		// a map is its list of entries
		c.add([]struct {
			Key   uint32
			Value string
		}{{us[0], ss[0]}})
		gv.Assume(c.encs[0][0] == specArrays)
		c.v, c.to = &m, new(map[uint32]string)
		c.want = c.encs[0]
	}
	return c
}

// anyStruct: structs of up to three fields, one within an embedded struct
func anyStruct() *gvxContainer {
	us, ss, is := specVals()
	c := &gvxContainer{}
	switch gv.Choice("fields", 5) {
	case 0:
		c.v, c.to = &struct{}{}, &struct{}{}
	case 1:
		type t struct{ A []string }
		c.add(ss)
		c.v, c.to = &t{ss}, &t{}
	case 2:
		type t struct {
			A uint32
			b int
			C specInner
		}
		c.add(us[0])
		c.few(is[1])
		c.v, c.to = &t{us[0], 0, is[1]}, &t{}
	case 3:
		type t struct {
			A uint32
			SpecBase
		}
		c.few(us[0])
		c.few(uint8(9))
		c.add(ss[2])
		c.v, c.to = &t{us[0], SpecBase{9, ss[2]}}, &t{}
	case 4:
		type t struct {
			SpecMiddle
			D map[uint32]string
		}
		m := map[uint32]string{1: "x"}
		c.few(uint8(9))
		c.add(ss[2])
		c.few(int16(0))
		c.few(m)
		c.v, c.to = &t{SpecMiddle{SpecBase{9, ss[2]}, 0}, m}, &t{}
	}
	c.want = specObj(c.encs...)
	return c
}
