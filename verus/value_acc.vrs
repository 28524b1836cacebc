// ---------------------------------------------------------------------------------------------
// C18: accessors (src/value/val.rs)
// ---------------------------------------------------------------------------------------------
/// What a value is once its single-field tuple wrappers are removed.
pub open spec fn skip(v: StrictVal) -> StrictVal
    decreases v
{ match v { StrictVal::Tuple(f) => if f@.len() == 1 { skip(f@[0]) } else { v }, _ => v } }
pub proof fn lemma_skip_end(v: StrictVal)
    ensures skip(v) matches StrictVal::Tuple(f) ==> f@.len() != 1, skip(skip(v)) == skip(v)
    decreases v
{ if let StrictVal::Tuple(f) = v { if f@.len() == 1 { lemma_skip_end(f@[0]); } } }
/// Conversion of an unsigned number by `TryFrom<u64>`.
pub trait UintTarget: Sized {
    spec fn from_uint(v: u64) -> Option<Self>;
    fn conv(v: u64) -> (r: Result<Self, ConfinementError>) ensures r is Ok <==> Self::from_uint(v) is Some, r is Ok ==> Some(r->Ok_0) == Self::from_uint(v);
}
#[verifier::external_body]
pub fn verif_try_into<N: UintTarget>(v: u64) -> (r: Option<N>) ensures r == N::from_uint(v) { unimplemented!() }
pub fn verif_expect<T>(o: Option<T>, Ghost(may_refuse): Ghost<bool>) -> (r: T)
    requires o is None ==> may_refuse ensures o == Some(r)
{ match o { Some(x) => x, None => verif_refuse(Ghost(may_refuse)) } }
#[verifier::external_body]
pub fn verif_from_utf8(b: Vec<u8>) -> (r: Option<String>)
    ensures r is Some <==> utf8(b@) is Some, r is Some ==> (r->Some_0)@ == utf8(b@)->Some_0 { unimplemented!() }
#[verifier::external_body]
pub fn verif_s(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn nothing<T>(o: Option<T>) -> bool { o is None }
impl StrictNum {
//@fn src/value/val.rs StrictNum::unwrap_uint
//@ sig fn unwrap_uint<N: TryFrom<u64>>(self) -> N where N::Error: Debug ==> pub fn unwrap_uint<N: UintTarget>(self) -> (r: N)
//@ subst v.try_into().expect("StrictNum is too large for the selected uint representation") ==> verif_expect(verif_try_into(v), Ghost(nothing(N::from_uint(v))))
//@ refuse !(self is Uint)
//@ spec ensures self is Uint, N::from_uint(self->Uint_0) == Some(r)
//@end
}
impl EnumTag {
    pub open spec fn is_name(&self, s: &str) -> bool { self matches EnumTag::Name(n) && n.bytes() == lit_bytes(s) }
//@fn src/value/val.rs EnumTag::unwrap_ord
//@ ret r
//@ refuse !(*self is Ord)
//@ spec ensures *self == EnumTag::Ord(r)
//@end
}
/// Optional content: a union tagged `some` or 1 holding `c`.
pub open spec fn some_is(v: StrictVal, c: StrictVal) -> bool { match v { StrictVal::Union(t, x) => (t.is_name("some") || t == EnumTag::Ord(1)) && *x == c, _ => false } }
/// No content: a union tagged `none` or 0 holding unit.
pub open spec fn is_none(v: StrictVal) -> bool { match v { StrictVal::Union(t, x) => (t.is_name("none") || t == EnumTag::Ord(0)) && *x is Unit, _ => false } }
pub open spec fn optional(v: StrictVal) -> bool { is_none(v) || match v { StrictVal::Union(t, x) => some_is(v, *x), _ => false } }
/// The codes of a list of enumeration values, if it is one.
pub open spec fn enum_codes(s: Seq<StrictVal>, b: Seq<u8>) -> bool {
    b.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> skip(#[trigger] s[i]) == StrictVal::Enum(EnumTag::Ord(b[i]))
}
pub open spec fn plain_enums(s: Seq<StrictVal>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Enum }
/// The text a value stands for.
pub open spec fn text(v: StrictVal, r: Seq<char>) -> bool {
    match v {
        StrictVal::String(s) => r == s@,
        StrictVal::Bytes(b) => utf8(b@) == Some(r),
        StrictVal::List(l) => (l@.len() == 0 && r == Seq::<char>::empty()) || (l@.len() > 0 && plain_enums(l@) && exists|b: Seq<u8>| #[trigger] enum_codes(l@, b) && utf8(b) == Some(r)),
        _ => false,
    }
}
/// The value is of a kind that can stand for text.
pub open spec fn textual(v: StrictVal) -> bool {
    match v { StrictVal::String(_) | StrictVal::Bytes(_) => true, StrictVal::List(l) => plain_enums(l@), _ => false }
}
pub open spec fn has_pos(v: StrictVal, no: int) -> bool { match v { StrictVal::List(f) | StrictVal::Set(f) => no < f@.len(), _ => false } }
/// strict_encoding: enumerations implemented in Rust
pub trait StrictEnum: Sized {
    spec fn of_name(n: VariantName) -> Option<Self>;
    spec fn of_tag(t: u8) -> Option<Self>;
    fn from_variant_name(name: &VariantName) -> (r: Result<Self, VariantError>) ensures Self::of_name(*name) == (match r { Ok(v) => Some(v), Err(_) => None });
    fn try_from(t: u8) -> (r: Result<Self, VariantError>) ensures Self::of_tag(t) == (match r { Ok(v) => Some(v), Err(_) => None });
    fn strict_name() -> (r: Option<TypeName>);
}
#[derive(Debug)] pub struct VariantError;
/// The variant a tag names.
pub open spec fn as_variant<E: StrictEnum>(t: EnumTag) -> Option<E> { match t { EnumTag::Name(n) => E::of_name(n), EnumTag::Ord(o) => E::of_tag(o) } }
impl StrictVal {
//@fn src/value/val.rs StrictVal::skip_wrapper
//@ ret r
//@ spec ensures *r == skip(*self)
//@ loop 1
 invariant skip(*me) == skip(*self)
 decreases *me
//@end
//@fn src/value/val.rs StrictVal::unwrap_option
//@ ret r
//@ subst ?name.as_str() == "none" ==> verif_name_is(name, "none")
//@ subst ?name.as_str() == "some" ==> verif_name_is(name, "some")
//@ subst ?content.as_ref() ==> verif_box(content)
//@ refuse !optional(skip(*self))
//@ spec ensures r is Some ==> some_is(skip(*self), *(r->Some_0)), r is None ==> is_none(skip(*self))
//@ at start
 broadcast use sv_eq_unit; 
//@end
//@fn src/value/val.rs StrictVal::unwrap_num
//@ ret r
//@ refuse !(skip(*self) is Number)
//@ spec ensures skip(*self) == StrictVal::Number(*r)
//@end
//@fn src/value/val.rs StrictVal::unwrap_uint
//@ sig fn unwrap_uint<N: TryFrom<u64>>(&self) -> N where N::Error: Debug ==> pub fn unwrap_uint<N: UintTarget>(&self) -> (r: N)
//@ spec ensures skip(*self) is Number, skip(*self)->Number_0 is Uint, N::from_uint(skip(*self)->Number_0->Uint_0) == Some(r)
//@end
//@fn src/value/val.rs StrictVal::unwrap_string
//@ ret r
//@ veciter
//@ subst ?String::from_utf8(v.to_inner()).expect("non-Unicode and non-ASCII string") ==> verif_expect(verif_from_utf8(v.to_inner()), Ghost(nothing(utf8(v.view()))))
//@ subst ?String::from_utf8(bytes).expect("non-Unicode and non-ASCII string") ==> verif_expect(verif_from_utf8(bytes), Ghost(nothing(utf8(bytes.view()))))
//@ refuse !textual(skip(*self))
//@ at start
 proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ at after let bytes
 proof { assert(enum_codes(v@, bytes@)); }
//@ spec ensures text(skip(*self), r@)
//@end
//@fn src/value/val.rs StrictVal::unwrap_bytes
//@ ret r
//@ refuse !(skip(*self) is Bytes)
//@ spec ensures skip(*self) is Bytes, r@ == (skip(*self)->Bytes_0)@
//@end
//@fn src/value/val.rs StrictVal::unwrap_tuple
//@ ret r
//@ refuse !(skip(*self) matches StrictVal::Tuple(f) && no < f@.len())
//@ spec ensures skip(*self) is Tuple, no < (skip(*self)->Tuple_0)@.len(), *r == (skip(*self)->Tuple_0)@[no as int]
//@end
//@fn src/value/val.rs StrictVal::unwrap_struct
//@ ret r
//@ subst ?v.get::<FieldName> ==> v.get
//@ refuse !(skip(*self) matches StrictVal::Struct(f) && exists|i: int| 0 <= i < f@.len() && (#[trigger] f@[i]).0.bytes() == lit_bytes(field))
//@ spec ensures skip(*self) is Struct, (skip(*self)->Struct_0)@.len() >= 0, exists|i: int| 0 <= i < (skip(*self)->Struct_0)@.len() && (#[trigger] (skip(*self)->Struct_0)@[i]).0.bytes() == lit_bytes(field) && *r == (skip(*self)->Struct_0)@[i].1
//@ at start
 broadcast use field_name_ext;
//@end
//@fn src/value/val.rs StrictVal::unwrap_enum_tag
//@ ret r
//@ refuse !(skip(*self) is Enum)
//@ spec ensures skip(*self) == StrictVal::Enum(*r)
//@end
//@fn src/value/val.rs StrictVal::unwrap_enum
//@ sigsub where u8: From<E> ==>
//@ ret r
//@ refuse !(skip(*self) is Enum && as_variant::<E>(skip(*self)->Enum_0) is Some)
//@ closure 1 -> (__r: E) requires !(skip(*self) is Enum && as_variant::<E>(skip(*self)->Enum_0) is Some) ensures false
//@ closure 2 -> (__r: E) requires !(skip(*self) is Enum && as_variant::<E>(skip(*self)->Enum_0) is Some) ensures false
//@ spec ensures skip(*self) is Enum && as_variant::<E>(skip(*self)->Enum_0) == Some(r)
//@end
//@fn src/value/val.rs StrictVal::unwrap_union
//@ ret r
//@ subst ?content.as_ref() ==> verif_box(content)
//@ refuse !(skip(*self) is Union)
//@ spec ensures skip(*self) is Union, *r.0 == skip(*self)->Union_0, *r.1 == *(skip(*self)->Union_1)
//@end
//@fn src/value/val.rs StrictVal::unwrap_pos
//@ ret r
//@ refuse !has_pos(skip(*self), no as int)
//@ spec ensures skip(*self) matches StrictVal::List(f) ==> no < f@.len() && *r == f@[no as int], skip(*self) matches StrictVal::Set(f) ==> no < f@.len() && *r == f@[no as int],
//@ spec skip(*self) is List || skip(*self) is Set
//@end
//@fn src/value/val.rs StrictVal::unwrap_key
//@ sig fn unwrap_key(&self, key: impl Into<StrictVal>) -> &StrictVal ==> pub fn unwrap_key(&self, key: StrictVal) -> (r: &StrictVal)
//@ subst let key = key.into(); ==> 
//@ veciter
//@ refuse !(skip(*self) matches StrictVal::Map(f) && exists|i: int| 0 <= i < f@.len() && sv_eq((#[trigger] f@[i]).0, key))
//@ spec ensures skip(*self) is Map, (skip(*self)->Map_0)@.len() >= 0, exists|i: int| 0 <= i < (skip(*self)->Map_0)@.len() && sv_eq((#[trigger] (skip(*self)->Map_0)@[i]).0, key) && *r == (skip(*self)->Map_0)@[i].1
//@ closure 1 -> (__r: bool) ensures __r == sv_eq((*__a0).0, key)
//@ spec && forall|j: int| 0 <= j < i ==> !sv_eq((#[trigger] (skip(*self)->Map_0)@[j]).0, key)
//@end
}
#[verifier::external_body]
pub fn verif_name_is(n: &VariantName, s: &str) -> (r: bool) ensures r == (n.bytes() == lit_bytes(s)) { unimplemented!() }
pub fn verif_box<T>(b: &Box<T>) -> (r: &T) ensures *r == **b { &**b }
