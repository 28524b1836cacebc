// ---------------------------------------------------------------------------------------------
// Construction of values (src/value/val.rs)
// ---------------------------------------------------------------------------------------------
/// `Into<StrictVal>`: a value is converted into itself (std).
pub trait IntoSV: Sized { spec fn sv(self) -> StrictVal; fn into_sv(self) -> (r: StrictVal) ensures r == self.sv(); }
impl IntoSV for StrictVal { open spec fn sv(self) -> StrictVal { self } fn into_sv(self) -> StrictVal { self } }
/// `Into<EnumTag>` (derived)
pub trait IntoTag: Sized { spec fn tg(self) -> EnumTag; fn into_tg(self) -> (r: EnumTag) ensures r == self.tg(); }
impl IntoTag for u8 { open spec fn tg(self) -> EnumTag { EnumTag::Ord(self) } fn into_tg(self) -> EnumTag { EnumTag::Ord(self) } }
impl IntoTag for VariantName { open spec fn tg(self) -> EnumTag { EnumTag::Name(self) } fn into_tg(self) -> EnumTag { EnumTag::Name(self) } }
/// `Into<StrictNum>` (derived)
pub trait IntoNum: Sized { spec fn sn(self) -> StrictNum; fn into_sn(self) -> (r: StrictNum) ensures r == self.sn(); }
macro_rules! into_uint { ($($t:ty),*) => { verus! { $(impl IntoNum for $t { open spec fn sn(self) -> StrictNum { StrictNum::Uint(self as u64) } fn into_sn(self) -> StrictNum { StrictNum::Uint(self as u64) } })* } } }
macro_rules! into_int { ($($t:ty),*) => { verus! { $(impl IntoNum for $t { open spec fn sn(self) -> StrictNum { StrictNum::Int(self as i64) } fn into_sn(self) -> StrictNum { StrictNum::Int(self as i64) } })* } } }
into_uint!(u8, u16, u32, u64);
into_int!(i8, i16, i32, i64);
impl StrictVal {
//@fn src/value/val.rs StrictVal::num
//@ sig fn num(n: impl Into<StrictNum>) -> Self ==> pub fn num<N: IntoNum>(n: N) -> (r: StrictVal)
//@ subst n.into() ==> n.into_sn()
//@ spec ensures r == StrictVal::Number(n.sn())
//@end
//@fn src/value/val.rs StrictVal::enumer
//@ sig fn enumer(tag: impl Into<EnumTag>) -> Self ==> pub fn enumer<N: IntoTag>(tag: N) -> (r: StrictVal)
//@ subst tag.into() ==> tag.into_tg()
//@ spec ensures r == StrictVal::Enum(tag.tg())
//@end
//@fn src/value/val.rs StrictVal::union
//@ sig fn union(tag: impl Into<EnumTag>, val: impl Into<StrictVal>) -> Self ==> pub fn union<N: IntoTag, V: IntoSV>(tag: N, val: V) -> (r: StrictVal)
//@ subst tag.into() ==> tag.into_tg()
//@ subst val.into() ==> val.into_sv()
//@ spec ensures r == StrictVal::Union(tag.tg(), Box::new(val.sv()))
//@end
//@fn src/value/val.rs StrictVal::tuple
//@ sig fn tuple(fields: impl IntoIterator<Item = impl Into<StrictVal>>) -> Self ==> pub fn tuple<V: IntoSV>(fields: Vec<V>) -> (r: StrictVal)
//@ subst ?v.into() ==> v.into_sv()
//@ subst ?fields.into_iter() ==> fields.v_into_iter()
//@ closure 1 -> (__r: StrictVal) ensures __r == v.sv()
//@ spec ensures r is Tuple, (r->Tuple_0)@.len() == fields@.len(), forall|i: int| 0 <= i < fields@.len() ==> #[trigger] (r->Tuple_0)@[i] == fields@[i].sv()
//@end
}
