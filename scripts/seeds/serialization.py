SEEDS=[
dict(id='S02-zero-key', property='C02', pkg='serialization',
 needs='a map with an entry whose key and value are both zero',
 breaks='the entry is lost',
 edits=[('serialization/marshal.go','			entry := reflect.Indirect(reflect.New(sliceTyp))\n			entry.Field(0).Set(iter.Key())','			if iter.Key().IsZero() && iter.Value().IsZero() {\n				continue // nothing set\n			}\n\n			entry := reflect.Indirect(reflect.New(sliceTyp))\n			entry.Field(0).Set(iter.Key())')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	type v struct{ M map[int32]string }
	x := v{map[int32]string{0: "", 1: "a"}}
	b, err := Marshal(&x)
	if err != nil {
		t.Fatal(err)
	}
	var o v
	if err := Unmarshal(b, &o); err != nil || len(o.M) != 2 {
		t.Fatal(o, err)
	}
}
'''),
dict(id='S02-pointer-to-zero', property='C02', pkg='serialization',
 needs='a pointer to a zero value that is not a struct',
 breaks='the pointer is restored as nil',
 edits=[('serialization/marshal.go','	case reflect.Ptr:\n		if err := s.writeTypeMeta(FabricSerializationTypePointer); err != nil {\n			return err\n		}\n\n		if err := s.value(reflect.Indirect(rv)); err != nil {','	case reflect.Ptr:\n		to := reflect.Indirect(rv)\n		if to.Kind() != reflect.Struct && to.Kind() != reflect.Bool && to.IsZero() {\n			return s.writeEmpty(rv)\n		}\n\n		if err := s.writeTypeMeta(FabricSerializationTypePointer); err != nil {\n			return err\n		}\n\n		if err := s.value(to); err != nil {')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	type v struct{ P *uint32 }
	x := v{new(uint32)}
	b, err := Marshal(&x)
	if err != nil {
		t.Fatal(err)
	}
	var o v
	if err := Unmarshal(b, &o); err != nil || o.P == nil {
		t.Fatal(o, err)
	}
}
'''),
dict(id='S02-surrogates', property='C02', pkg='serialization',
 needs='a string with a character beyond the basic plane',
 breaks='the count before the code units is too small, what follows is misread',
 edits=[('serialization/marshal.go','		str := utf16.Encode([]rune(rv.String()))\n		if err := s.writeCompressedUint32(uint32(len(str))); err != nil {','		runes := []rune(rv.String())\n		str := utf16.Encode(runes)\n		if err := s.writeCompressedUint32(uint32(len(runes))); err != nil {')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	type v struct {
		S string
		B uint8
	}
	x := v{"a\\U0001f600", 3}
	b, err := Marshal(&x)
	if err != nil {
		t.Fatal(err)
	}
	var o v
	if err := Unmarshal(b, &o); err != nil || o != x {
		t.Fatal(o, err)
	}
}
'''),
dict(id='S03-empty-pointers', property='C03', pkg='serialization',
 needs='an empty slice of pointers',
 breaks='it is written with the type byte of an empty pointer array; the reader here tolerates it',
 edits=[('serialization/marshal.go','		case reflect.String, reflect.Ptr:\n			return s.writeTypeMeta(FabricSerializationTypeEmptyValueBit | FabricSerializationTypeUInt32)\n','		case reflect.String:\n			return s.writeTypeMeta(FabricSerializationTypeEmptyValueBit | FabricSerializationTypeUInt32)\n')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	type e struct{ A uint8 }
	b, err := Marshal(&struct{ P []*e }{})
	if err != nil || len(b) != 13 || b[10] != 0x48 {
		t.Fatal(b, err)
	}
}
'''),
dict(id='S03-size', property='C03', pkg='serialization',
 needs='a look at the size field of an object within another (written and read consistently)',
 breaks='the size of nested objects does not count their last byte',
 edits=[('serialization/marshal.go','	objectheader.Size = uint32(objbuf.Len()) + 3 + sizeOfobjectHeader','	objectheader.Size = uint32(objbuf.Len()) + 2 + sizeOfobjectHeader'),
        ('serialization/unmarshal.go','	return headerPosition + int64(objectheader.Size) - 2, nil','	return headerPosition + int64(objectheader.Size) - 1, nil')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	b, err := Marshal(&struct{ A struct{ B bool } }{})
	if err != nil || len(b) != 25 || b[1] != 24 || b[11] != 12 {
		t.Fatal(b, err)
	}
}
'''),
dict(id='S04-reset', property='C04', pkg='serialization',
 needs='reading an older object into a value whose newer fields are set',
 breaks='the fields the writer did not know are reset',
 edits=[('serialization/unmarshal.go','''		for _, field := range allFields(rv) {
			meta, err := s.readTypeMeta()''','''		fields := allFields(rv)
		for i, field := range fields {
			meta, err := s.readTypeMeta()'''),
        ('serialization/unmarshal.go','			if meta == FabricSerializationTypeScopeEnd {\n','			if meta == FabricSerializationTypeScopeEnd {\n				for _, missing := range fields[i:] {\n					missing.Set(reflect.Zero(missing.Type()))\n				}\n')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	b, err := Marshal(&struct{ A uint8 }{1})
	if err != nil {
		t.Fatal(err)
	}
	o := struct {
		A uint8
		S string
	}{2, "kept"}
	if err := Unmarshal(b, &o); err != nil || o.A != 1 || o.S != "kept" {
		t.Fatal(o, err)
	}
}
'''),
dict(id='S04-skip', property='C04', pkg='serialization',
 needs='a nested object of a newer version whose unknown field holds the byte 0x2f, followed by another field',
 breaks='the reader looks for the end of the object in its unknown fields instead of using its size',
 edits=[('serialization/unmarshal.go','''		err = s.consumeObjectEnd(meta, endPos)
''','''		// skip what is not known
		for end := false; meta == FabricSerializationTypeObject && !end; {
			b, err := s.readTypeMeta()
			if err != nil {
				return err
			}

			if b == FabricSerializationTypeScopeEnd {
				next, err := s.readTypeMeta()
				if err != nil {
					return err
				}

				if end = next == FabricSerializationTypeObjectEnd; !end {
					s.inner.UnreadByte()
				} else if at, _ := s.inner.Seek(-2, io.SeekCurrent); at < endPos {
					endPos = at
				}
			}
		}

		err = s.consumeObjectEnd(meta, endPos)
''')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	type v1 struct{ A uint8 }
	type v2 struct {
		A uint8
		X []*v1
	}
	b, err := Marshal(&struct {
		N v2
		Z uint8
	}{v2{1, []*v1{{2}}}, 7})
	if err != nil {
		t.Fatal(err)
	}
	var o struct {
		N v1
		Z uint8
	}
	if err := Unmarshal(b, &o); err != nil || o.N.A != 1 || o.Z != 7 {
		t.Fatal(o, err)
	}
}
'''),
dict(id='S05-type-info', property='C05', pkg='serialization',
 needs='an object with type information whose length lies',
 breaks='a few bytes make the reader allocate gigabytes',
 edits=[('serialization/unmarshal.go','		if _, err := io.CopyN(io.Discard, s.inner, int64(len)); err != nil {','		if _, err := io.ReadFull(s.inner, make([]byte, len)); err != nil {')],
 demo='''package serialization

import (
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var o struct{ A bool }
	err := Unmarshal([]byte{0, 20, 0, 0, 0, 1, 0, 0, 0, 0x80 | 4, 0}, &o)
	err = Unmarshal([]byte{0, 20, 0, 0, 0, 1, 0, 0, 0, 0x80 | 1, 0xff, 0xff, 0x7f, 0x1f}, &o)
	runtime.ReadMemStats(&b)
	if err == nil || b.TotalAlloc-a.TotalAlloc > 1<<20 {
		t.Fatal(err, b.TotalAlloc-a.TotalAlloc)
	}
}
'''),
dict(id='S05-duplicate-key', property='C05', pkg='serialization',
 needs='a map whose input has the same key twice',
 breaks='a repeated key in a map panics',
 edits=[('serialization/unmarshal.go','			kv := entries.Index(i)\n			m.SetMapIndex(kv.Field(0), kv.Field(1))','			kv := entries.Index(i)\n			if old := m.MapIndex(kv.Field(0)); old.IsValid() {\n				old.Set(kv.Field(1)) // last one wins\n				continue\n			}\n			m.SetMapIndex(kv.Field(0), kv.Field(1))')],
 demo='''package serialization

import "testing"

func TestDemo(t *testing.T) {
	type kv struct{ K, V uint8 }
	b, err := Marshal(&struct{ M []kv }{[]kv{{1, 2}, {1, 3}}})
	if err != nil {
		t.Fatal(err)
	}
	var o struct{ M map[uint8]uint8 }
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	t.Log(Unmarshal(b, &o), o)
}
'''),
]
