//verif:property C02
//verif:level proof
//verif:note scalars, strings of any length, GUIDs and custom-marshaled values are covered for every value; composites by induction: a pointer, slice, map or struct is verified with its nested values under contract (C02any.go), so nesting and element types are unbounded while the width is bounded: slices of up to 3 elements (and 5 longer lengths), maps of up to 2 entries (in every order), structs of up to 4 fields
//verif:note conversion between float32 and float64 is an uninterpreted injection
//verif:needs serialization/wire.go
//verif:needs serialization/cases.go
package serialization

func Verif_C02_Bool()          { gvxTrip(caseBool()) }
func Verif_C02_I8()            { gvxTrip(caseI8()) }
func Verif_C02_U8()            { gvxTrip(caseU8()) }
func Verif_C02_I16()           { gvxTrip(caseI16()) }
func Verif_C02_U16()           { gvxTrip(caseU16()) }
func Verif_C02_I32()           { gvxTrip(caseI32()) }
func Verif_C02_U32()           { gvxTrip(caseU32()) }
func Verif_C02_I64()           { gvxTrip(caseI64()) }
func Verif_C02_U64()           { gvxTrip(caseU64()) }
func Verif_C02_Named()         { gvxTrip(caseNamed()) }
func Verif_C02_String()        { gvxTrip(caseString()) }
func Verif_C02_NamedString()   { gvxTrip(caseNamedString()) }
func Verif_C02_F64()           { gvxTrip(caseF64()) }
func Verif_C02_F32()           { gvxTrip(caseF32()) }
func Verif_C02_GUID()          { gvxTrip(caseGUID()) }
func Verif_C02_Custom()        { gvxTrip(caseCustom()) }
func Verif_C02_PtrInt()        { gvxTrip(casePtrInt()) }
func Verif_C02_PtrBool()       { gvxTrip(casePtrBool()) }
func Verif_C02_PtrStr()        { gvxTrip(casePtrStr()) }
func Verif_C02_PtrStruct()     { gvxTrip(casePtrStruct()) }
func Verif_C02_PtrCustom()     { gvxTrip(casePtrCustom()) }
func Verif_C02_PtrPtr()        { gvxTrip(casePtrPtr()) }
func Verif_C02_PtrSlice()      { gvxTrip(casePtrSlice()) }
func Verif_C02_Struct()        { gvxTrip(caseStruct()) }
func Verif_C02_EmptyStruct()   { gvxTrip(caseEmptyStruct()) }
func Verif_C02_Unexported()    { gvxTrip(caseUnexported()) }
func Verif_C02_Nested()        { gvxTrip(caseNested()) }
func Verif_C02_Embedded()      { gvxTrip(caseEmbedded()) }
func Verif_C02_EmbeddedOther() { gvxTrip(caseEmbeddedOther()) }
func Verif_C02_Bools()         { gvxTrip(caseBools()) }
func Verif_C02_I8s()           { gvxTrip(caseI8s()) }
func Verif_C02_U8s()           { gvxTrip(caseU8s()) }
func Verif_C02_I16s()          { gvxTrip(caseI16s()) }
func Verif_C02_U16s()          { gvxTrip(caseU16s()) }
func Verif_C02_I32s()          { gvxTrip(caseI32s()) }
func Verif_C02_U32s()          { gvxTrip(caseU32s()) }
func Verif_C02_I64s()          { gvxTrip(caseI64s()) }
func Verif_C02_U64s()          { gvxTrip(caseU64s()) }
func Verif_C02_Strs()          { gvxTrip(caseStrs()) }
func Verif_C02_Inns()          { gvxTrip(caseInns()) }
func Verif_C02_Custs()         { gvxTrip(caseCusts()) }
func Verif_C02_GUIDs()         { gvxTrip(caseGUIDs()) }
func Verif_C02_Ptrs()          { gvxTrip(casePtrs()) }
func Verif_C02_MapI()          { gvxTrip(caseMapI()) }
func Verif_C02_MapS()          { gvxTrip(caseMapS()) }
func Verif_C02_MapG()          { gvxTrip(caseMapG()) }
func Verif_C02_MapC()          { gvxTrip(caseMapC()) }
func Verif_C02_Mixed()         { gvxTrip(caseMixed()) }
func Verif_C02_MapT()          { gvxTrip(caseMapT()) }
func Verif_C02_Long()          { gvxTrip(caseLong()) }
