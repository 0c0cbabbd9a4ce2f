//verif:property C03
//verif:level proof
//verif:note as C02: every scalar value, composites by induction over nesting, with slices of up to 3 elements (and 5 longer lengths), maps of up to 2 entries and structs of up to 4 fields
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
package serialization

func Verif_C03_Bool()          { gvxBytes(caseBool()) }
func Verif_C03_I8()            { gvxBytes(caseI8()) }
func Verif_C03_U8()            { gvxBytes(caseU8()) }
func Verif_C03_I16()           { gvxBytes(caseI16()) }
func Verif_C03_U16()           { gvxBytes(caseU16()) }
func Verif_C03_I32()           { gvxBytes(caseI32()) }
func Verif_C03_U32()           { gvxBytes(caseU32()) }
func Verif_C03_I64()           { gvxBytes(caseI64()) }
func Verif_C03_U64()           { gvxBytes(caseU64()) }
func Verif_C03_Named()         { gvxBytes(caseNamed()) }
func Verif_C03_String()        { gvxBytes(caseString()) }
func Verif_C03_NamedString()   { gvxBytes(caseNamedString()) }
func Verif_C03_F64()           { gvxBytes(caseF64()) }
func Verif_C03_F32()           { gvxBytes(caseF32()) }
func Verif_C03_GUID()          { gvxBytes(caseGUID()) }
func Verif_C03_Custom()        { gvxBytes(caseCustom()) }
func Verif_C03_PtrInt()        { gvxBytes(casePtrInt()) }
func Verif_C03_PtrBool()       { gvxBytes(casePtrBool()) }
func Verif_C03_PtrStr()        { gvxBytes(casePtrStr()) }
func Verif_C03_PtrStruct()     { gvxBytes(casePtrStruct()) }
func Verif_C03_PtrCustom()     { gvxBytes(casePtrCustom()) }
func Verif_C03_PtrPtr()        { gvxBytes(casePtrPtr()) }
func Verif_C03_PtrSlice()      { gvxBytes(casePtrSlice()) }
func Verif_C03_Struct()        { gvxBytes(caseStruct()) }
func Verif_C03_EmptyStruct()   { gvxBytes(caseEmptyStruct()) }
func Verif_C03_Unexported()    { gvxBytes(caseUnexported()) }
func Verif_C03_Nested()        { gvxBytes(caseNested()) }
func Verif_C03_Embedded()      { gvxBytes(caseEmbedded()) }
func Verif_C03_EmbeddedOther() { gvxBytes(caseEmbeddedOther()) }
func Verif_C03_Bools()         { gvxBytes(caseBools()) }
func Verif_C03_I8s()           { gvxBytes(caseI8s()) }
func Verif_C03_U8s()           { gvxBytes(caseU8s()) }
func Verif_C03_I16s()          { gvxBytes(caseI16s()) }
func Verif_C03_U16s()          { gvxBytes(caseU16s()) }
func Verif_C03_I32s()          { gvxBytes(caseI32s()) }
func Verif_C03_U32s()          { gvxBytes(caseU32s()) }
func Verif_C03_I64s()          { gvxBytes(caseI64s()) }
func Verif_C03_U64s()          { gvxBytes(caseU64s()) }
func Verif_C03_Strs()          { gvxBytes(caseStrs()) }
func Verif_C03_Inns()          { gvxBytes(caseInns()) }
func Verif_C03_Custs()         { gvxBytes(caseCusts()) }
func Verif_C03_GUIDs()         { gvxBytes(caseGUIDs()) }
func Verif_C03_Ptrs()          { gvxBytes(casePtrs()) }
func Verif_C03_MapI()          { gvxBytes(caseMapI()) }
func Verif_C03_MapS()          { gvxBytes(caseMapS()) }
func Verif_C03_MapG()          { gvxBytes(caseMapG()) }
func Verif_C03_MapC()          { gvxBytes(caseMapC()) }
func Verif_C03_Mixed()         { gvxBytes(caseMixed()) }
func Verif_C03_MapT()          { gvxBytes(caseMapT()) }
func Verif_C03_Long()          { gvxBytes(caseLong()) }
