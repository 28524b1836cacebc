// ---------------------------------------------------------------------------------------------
// C11: serialization of values (src/value/encode.rs)
// ---------------------------------------------------------------------------------------------
// Lengths are compared with `usize` casts: 64-bit targets.
global size_of usize == 8;
pub fn verif_u24_max() -> (r: u64) ensures r == 0xff_ffff { 0xff_ffff }
/// `std::io::Error`
#[derive(Debug)] pub struct IoError;
/// `std::io::Write`: what was written so far.
pub trait VWrite: Sized {
    spec fn out(&self) -> Seq<u8>;
    /// writing to memory doesn't fail
    spec fn in_memory() -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).out() == old(self).out() + b@, Self::in_memory() ==> r is Ok;
}
impl VWrite for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn in_memory() -> bool { true }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
}
/// `to_le_bytes`
pub trait VLe: Sized { spec fn le(self) -> Seq<u8>; fn verif_le(self) -> (r: Vec<u8>) ensures r@ == self.le(); }
impl VLe for u64 { open spec fn le(self) -> Seq<u8> { le8(self) } #[verifier::external_body] fn verif_le(self) -> Vec<u8> { unimplemented!() } }
impl VLe for usize { open spec fn le(self) -> Seq<u8> { le8(self as u64) } #[verifier::external_body] fn verif_le(self) -> Vec<u8> { unimplemented!() } }
impl VLe for i64 { open spec fn le(self) -> Seq<u8> { le8(self as u64) } #[verifier::external_body] fn verif_le(self) -> Vec<u8> { unimplemented!() } }
impl VLe for u1024 { open spec fn le(self) -> Seq<u8> { le128(self) } #[verifier::external_body] fn verif_le(self) -> Vec<u8> { unimplemented!() } }
impl VLe for i1024 { open spec fn le(self) -> Seq<u8> { lei128(self) } #[verifier::external_body] fn verif_le(self) -> Vec<u8> { unimplemented!() } }
impl Sizing {
//@fn src/value/encode.rs <Sizing as SizingExt>::byte_size
//@ ret r
//@ subst ?u24::MAX.into_u64() ==> verif_u24_max()
//@ spec ensures r == len_width(self.max)
//@end
}
/// The tag of a value selects one variant.
pub proof fn lemma_sel_unique(val: StrictVal, ty: Ty<SemId>)
    ensures
        val is Union && ty is Union ==> forall|i: int| #![trigger (ty->Union_0)@[i]] uv_sel((ty->Union_0)@, val->Union_0, i) ==> i == uv_pos((ty->Union_0)@, val->Union_0),
        val is Enum && ty is Enum ==> forall|i: int| #![trigger (ty->Enum_0)@[i]] ev_sel((ty->Enum_0)@, val->Enum_0, i) ==> i == ev_pos((ty->Enum_0)@, val->Enum_0),
{
    if val is Union && ty is Union { assert forall|i: int| #![trigger (ty->Union_0)@[i]] uv_sel((ty->Union_0)@, val->Union_0, i) implies i == uv_pos((ty->Union_0)@, val->Union_0) by { lemma_uv_pos(&(ty->Union_0), val->Union_0, i); } }
    if val is Enum && ty is Enum { assert forall|i: int| #![trigger (ty->Enum_0)@[i]] ev_sel((ty->Enum_0)@, val->Enum_0, i) implies i == ev_pos((ty->Enum_0)@, val->Enum_0) by { lemma_ev_pos(&(ty->Enum_0), val->Enum_0, i); } }
}
/// `strict_encoding::SerializeError`
pub enum SerializeError { Io(IoError), Confinement(ConfinementError) }
impl From<IoError> for SerializeError { #[verifier::external_body] fn from(e: IoError) -> (r: SerializeError) { unimplemented!() } }
impl From<ConfinementError> for SerializeError { #[verifier::external_body] fn from(e: ConfinementError) -> (r: SerializeError) { unimplemented!() } }
/// `amplify::confinement::Confined<Vec<u8>, 0, MAX>`
pub struct ConfinedBlob<const MIN: usize, const MAX: usize> { pub v: Vec<u8> }
pub struct Confined;
impl Confined {
    #[verifier::external_body]
    pub fn try_from<const MIN: usize, const MAX: usize>(v: Vec<u8>) -> (r: Result<ConfinedBlob<MIN, MAX>, ConfinementError>)
        ensures r is Ok ==> (r->Ok_0).v@ == v@, MIN <= v@.len() <= MAX <==> r is Ok { unimplemented!() }
}
pub struct SerializedType<const MAX_LEN: usize>(pub ConfinedBlob<0, MAX_LEN>);
/// `TypeFqn`: only carried along.
pub struct TypeFqn;
//@item src/typesys/translate.rs TypeSymbol
//@item src/value/typify.rs TypedVal
impl TypeSystem {
//@fn src/value/encode.rs TypeSystem::val_bytes
//@ ret r
//@ attr #[verifier::rlimit(30)]
//@ spec requires conf(self@, *val, sem_id)
//@ spec ensures r@ == enc(self@, *val, sem_id)
//@ at start
 broadcast use group_cat;
//@end
//@fn src/value/encode.rs TypeSystem::strict_write_value
//@ sig fn strict_write_value(&self, typed: &TypedVal, writer: &mut impl io::Write) -> Result<(), io::Error> ==> pub fn strict_write_value<W: VWrite>(&self, typed: &TypedVal, writer: &mut W) -> (r: Result<(), IoError>)
//@ spec requires conf(self@, typed.val, typed.orig.id)
//@ spec ensures r is Ok ==> final(writer).out() == old(writer).out() + enc(self@, typed.val, typed.orig.id), W::in_memory() ==> r is Ok
//@end
//@fn src/value/encode.rs TypeSystem::strict_write_type
//@ sig fn strict_write_type(&self, typed: &TypedVal, writer: &mut impl io::Write) -> Result<(), io::Error> ==> pub fn strict_write_type<W: VWrite>(&self, typed: &TypedVal, writer: &mut W) -> (r: Result<(), IoError>)
//@ spec requires conf(self@, typed.val, typed.orig.id)
//@ spec ensures r is Ok ==> final(writer).out() == old(writer).out() + enc(self@, typed.val, typed.orig.id), W::in_memory() ==> r is Ok
//@end
//@fn src/value/encode.rs TypeSystem::strict_serialize_value
//@ ret r
//@ spec requires conf(self@, typed.val, typed.orig.id)
//@ spec ensures r is Ok ==> (r->Ok_0).v@ == enc(self@, typed.val, typed.orig.id),
//@ spec r is Ok <==> enc(self@, typed.val, typed.orig.id).len() <= MAX_LEN
//@ at start
 broadcast use group_cat;
//@end
//@fn src/value/encode.rs TypeSystem::strict_serialize_type
//@ ret r
//@ subst ?.map(SerializedType) ==> .map(|__b: ConfinedBlob<0, MAX_LEN>| SerializedType(__b))
//@ spec requires conf(self@, typed.val, typed.orig.id)
//@ spec ensures r is Ok ==> (r->Ok_0).0.v@ == enc(self@, typed.val, typed.orig.id),
//@ spec r is Ok <==> enc(self@, typed.val, typed.orig.id).len() <= MAX_LEN
//@ at start
 broadcast use group_cat;
//@end
//@fn src/value/encode.rs TypeSystem::strict_write_val
//@ sig fn strict_write_val(&self, val: &StrictVal, sem_id: SemId, writer: &mut impl io::Write) -> Result<(), io::Error> ==> pub fn strict_write_val<W: VWrite>(&self, val: &StrictVal, sem_id: SemId, writer: &mut W) -> (r: Result<(), IoError>)
//@ spec requires conf(self@, *val, sem_id)
//@ spec ensures r is Ok ==> final(writer).out() == old(writer).out() + enc(self@, *val, sem_id), W::in_memory() ==> r is Ok
//@ spec decreases *val, 1int
//@ at start
 proof { lemma_conf_unfold(self@, *val, sem_id); }
//@end
//@fn src/value/encode.rs TypeSystem::strict_write_ty
//@ sig fn strict_write_ty(&self, val: &StrictVal, ty: &Ty<SemId>, writer: &mut impl io::Write) -> Result<(), io::Error> ==> pub fn strict_write_ty<W: VWrite>(&self, val: &StrictVal, ty: &Ty<SemId>, writer: &mut W) -> (r: Result<(), IoError>)
//@ attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@ veciter
//@ subst ?. to_le_bytes ( ) ==> .verif_le()
//@ subst ?Primitive::UNIT ==> Primitive { code: 0 }
//@ subst ?io::Error::new(io::ErrorKind::InvalidData, format!("missing field: {fname}"),) ==> IoError
//@ spec requires conf_ty(self@, *val, *ty)
//@ spec ensures r is Ok ==> final(writer).out() == old(writer).out() + enc_ty(self@, *val, *ty), W::in_memory() ==> r is Ok
//@ spec decreases *val, 0int
//@ at start
 let ghost w0 = writer.out(); let ghost big = *val;
 proof { lemma_sel_unique(*val, *ty); reveal(conf_ty); if val is String && ty is Tuple { lemma_rs_ascii(self@, (ty->Tuple_0)@, val->String_0@); } }
 proof { reveal(conf_ty); reveal(enc_ty); }
 broadcast use ascii_chars, one_byte, le128_len, lei128_len, group_cat;
//@ at before loop 1
 let ghost w1 = writer.out();
//@ loop 1
  big == *val, *val == StrictVal::List(*list), __all1.len() == list@.len(), forall|i: int| #![trigger __all1[i]] 0 <= i < list@.len() ==> *__all1[i] == list@[i],
  forall|j: int| 0 <= j < list@.len() ==> conf(self@, #[trigger] list@[j], *sem_id),
  writer.out() == w1 + enc_seq(self@, *list, *sem_id, __it1.pos()),
//@ at at loop 1 start
 proof { lemma_list_smaller(big, list, __it1.pos() - 1); }
//@ at at loop 1 end
 broadcast use group_cat;
//@ at before loop 2
 let ghost w2 = writer.out();
//@ loop 2
  big == *val, *val == StrictVal::Tuple(*vals), __all2.len() == vals@.len(), fields@.len() == vals@.len(), forall|i: int| #![trigger __all2[i]] 0 <= i < vals@.len() ==> *__all2[i].0 == vals@[i] && *__all2[i].1 == fields@[i],
  forall|j: int| 0 <= j < vals@.len() ==> conf(self@, #[trigger] vals@[j], fields@[j]),
  writer.out() == w2 + enc_tup(self@, *vals, fields@, __it2.pos()),
//@ at at loop 2 start
 proof { lemma_list_smaller(big, vals, __it2.pos() - 1); }
//@ at at loop 2 end
 broadcast use group_cat;
//@ at before loop 3
 let ghost w3 = writer.out();
//@ loop 3
  big == *val, *val == StrictVal::Struct(*vals), __all3.len() == fields@.len(), forall|i: int| #![trigger __all3[i]] 0 <= i < fields@.len() ==> *__all3[i] == fields@[i],
  forall|j: int| 0 <= j < fields@.len() ==> ix_has(vals@, (#[trigger] fields@[j]).name, ix_pos(vals@, fields@[j].name)) && conf(self@, vals@[ix_pos(vals@, fields@[j].name)].1, fields@[j].ty),
  writer.out() == w3 + enc_fields(self@, *vals, fields@, __it3.pos()),
//@ at after let item
 proof { let p = ix_pos(vals@, *fname); lemma_struct_smaller(big, p); assert forall|i: int| ix_has(vals@, *fname, i) implies i == p by { lemma_ix_pos(vals, *fname, i); } }
//@ at at loop 3 end
 broadcast use group_cat;
//@ at before loop 4
 let ghost w4 = writer.out();
//@ loop 4
  big == *val, *val == StrictVal::List(*list) || *val == StrictVal::Set(*list), __all4.len() == list@.len(), forall|i: int| #![trigger __all4[i]] 0 <= i < list@.len() ==> *__all4[i] == list@[i],
  forall|j: int| 0 <= j < list@.len() ==> conf(self@, #[trigger] list@[j], *sem_id),
  writer.out() == w4 + enc_seq(self@, *list, *sem_id, __it4.pos()),
//@ at at loop 4 start
 proof { lemma_list_smaller(big, list, __it4.pos() - 1); }
//@ at at loop 4 end
 broadcast use group_cat;
//@ at before loop 5
 let ghost w5 = writer.out();
//@ loop 5
  big == *val, *val == StrictVal::Map(*list), __all5.len() == list@.len(), forall|i: int| #![trigger __all5[i]] 0 <= i < list@.len() ==> *__all5[i] == list@[i],
  forall|j: int| 0 <= j < list@.len() ==> conf(self@, (#[trigger] list@[j]).0, *key_id) && conf(self@, list@[j].1, *sem_id),
  writer.out() == w5 + enc_pairs(self@, *list, *key_id, *sem_id, __it5.pos()),
//@ at at loop 5 start
 proof { lemma_map_smaller(big, list, __it5.pos() - 1); }
//@ at at loop 5 end
 broadcast use group_cat;
//@end
}
