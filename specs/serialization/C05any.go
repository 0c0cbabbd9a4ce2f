//verif:property C05
//verif:optional
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
package serialization

import (
	"bytes"
	"errors"
	"io"
	"reflect"

	gv "github.com/tg123/phabrik/zzgv"
)

const gvxValue = "(*github.com/tg123/phabrik/serialization.decodeState).value"

// gvxTotal verifies decodeState.value for one kind of target, nested values by its contract:
// it returns, having moved the reader forward only, and it is called one level deeper, where
// it ends at the latest at maxDepth. Targets of recursive types are covered so.
func gvxTotal(v interface{}) {
	rv := reflect.ValueOf(v).Elem()
	data := gv.Bytes("data")
	rd := bytes.NewReader(data)
	start := gv.Int("start")
	gv.Assume(0 <= start && start <= len(data))
	rd.Seek(int64(start), io.SeekStart)
	depth := gv.Int("depth")
	gv.Assume(0 < depth && depth <= maxDepth+1)
	read := int64(start)
	gv.Use(gvxValue, func(s *decodeState, meta FabricSerializationType, to reflect.Value, d int) error {
		gv.Assert(d == depth+1 && d <= maxDepth+1, "nested values are one level deeper")
		gv.Assert(to.CanSet(), "nested values can be set")
		at, _ := s.inner.Seek(0, io.SeekCurrent)
		gv.Assert(at >= read, "what was read is not read again")
		left := gv.Int("left")
		gv.Assume(0 <= left && left <= s.inner.Len())
		read, _ = s.inner.Seek(-int64(left), io.SeekEnd)
		if gv.Bool("nested error") {
			return errors.New("nested")
		}
		return nil
	})
	gv.Body(gvxValue)
	gv.Cut()
	s := &decodeState{rd}
	meta := FabricSerializationType(gv.U8("meta"))
	var err error
	gv.Alloc(func() int { return rd.Len() }, func() { err = s.value(meta, rv, depth) })
	pos, _ := rd.Seek(0, io.SeekCurrent)
	if err == nil {
		gv.Assert(pos >= read && pos >= int64(start) && pos <= int64(len(data)), "what was read is not read again")
		gv.Assert(depth <= maxDepth, "nesting is limited")
		gv.Cover("a value")
	} else {
		gv.Cover("an error")
	}
}

type gvxRec struct {
	P *gvxRec
	S []gvxRec
	L []*gvxRec
	M map[uint8]gvxRec
	N struct {
		a int
		A *gvxRec
		B **gvxRec
	}
}

func Verif_C05_any_bool()      { gvxTotal(new(bool)) }
func Verif_C05_any_i8()        { gvxTotal(new(int8)) }
func Verif_C05_any_u8()        { gvxTotal(new(uint8)) }
func Verif_C05_any_i16()       { gvxTotal(new(int16)) }
func Verif_C05_any_u16()       { gvxTotal(new(uint16)) }
func Verif_C05_any_i32()       { gvxTotal(new(int32)) }
func Verif_C05_any_u32()       { gvxTotal(new(uint32)) }
func Verif_C05_any_i64()       { gvxTotal(new(int64)) }
func Verif_C05_any_u64()       { gvxTotal(new(uint64)) }
func Verif_C05_any_f32()       { gvxTotal(new(float32)) }
func Verif_C05_any_f64()       { gvxTotal(new(float64)) }
func Verif_C05_any_string()    { gvxTotal(new(string)) }
func Verif_C05_any_guid()      { gvxTotal(new(GUID)) }
func Verif_C05_any_pointer()   { gvxTotal(&new(gvxRec).P) }
func Verif_C05_any_pointer2()  { gvxTotal(&new(gvxRec).N.B) }
func Verif_C05_any_struct()    { gvxTotal(new(gvxRec)) }
func Verif_C05_any_structs()   { gvxTotal(&new(gvxRec).S) }
func Verif_C05_any_pointers()  { gvxTotal(&new(gvxRec).L) }
func Verif_C05_any_strings()   { gvxTotal(new([]string)) }
func Verif_C05_any_numbers()   { gvxTotal(new([]uint32)) }
func Verif_C05_any_slices()    { gvxTotal(new([][]bool)) }
func Verif_C05_any_maps()      { gvxTotal(&new(gvxRec).M) }
func Verif_C05_any_other()     { gvxTotal(new([]interface{})) }
func Verif_C05_any_interface() { gvxTotal(new(interface{})) }
func Verif_C05_any_array()     { gvxTotal(new([4]byte)) }
func Verif_C05_any_int()       { gvxTotal(new(int)) }
