// ---------------------------------------------------------------------------------------------
// C10: checking values (src/value/typify.rs)
// ---------------------------------------------------------------------------------------------
pub struct AsAsciiStrError;
/// `strict_encoding::InvalidRString`
pub struct InvalidRString;
//@item src/value/typify.rs Error
impl From<InvalidRString> for Error { #[verifier::external_body] fn from(e: InvalidRString) -> (r: Error) { unimplemented!() } }
impl VariantName { #[verifier::external_body] pub fn try_from(s: String) -> (r: Result<VariantName, InvalidRString>) { unimplemented!() } }
impl FieldName { #[verifier::external_body] pub fn try_from(s: String) -> (r: Result<FieldName, InvalidRString>) { unimplemented!() } }
impl StrictVal { #[verifier::external_body] pub fn str(s: FieldName) -> (r: StrictVal) { unimplemented!() } }
/// The variants of a union as those of an enumeration (reported in an error).
#[verifier::external_body]
pub fn verif_variants(v: &UnionVariants<SemId>) -> (r: EnumVariants) { unimplemented!() }
impl Clone for EnumVariants { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// `Into<EnumTag>` of a literal is by way of the name.
pub open spec fn lit_name(s: &str) -> VariantName { choose|n: VariantName| n.bytes() == lit_bytes(s) }
impl IntoTag for &'static str { open spec fn tg(self) -> EnumTag { EnumTag::Name(lit_name(self)) } #[verifier::external_body] fn into_tg(self) -> EnumTag { unimplemented!() } }
pub proof fn lemma_lit(n: VariantName, s: &str)
    requires n.bytes() == lit_bytes(s) ensures n == lit_name(s)
{ broadcast use variant_name_ext; let m = lit_name(s); assert(m.bytes() == lit_bytes(s)); assert(n.bytes() == m.bytes()); }
/// `amplify::num`: large integers are made of small ones; bits of the representation.
pub trait VBig: Sized { type Big; spec fn fits64(b: Self::Big) -> bool; fn v_big(self) -> (r: Self::Big) ensures Self::fits64(r); }
impl VBig for u64 { type Big = u1024; open spec fn fits64(b: u1024) -> bool { ubits(b) <= 64 } #[verifier::external_body] fn v_big(self) -> u1024 { unimplemented!() } }
impl VBig for i64 { type Big = i1024; open spec fn fits64(b: i1024) -> bool { ibits(b) <= 64 } #[verifier::external_body] fn v_big(self) -> i1024 { unimplemented!() } }
impl u1024 { #[verifier::external_body] pub fn bits_required(self) -> (r: usize) ensures r == ubits(self) { unimplemented!() } }
impl i1024 { #[verifier::external_body] pub fn bits_required(self) -> (r: usize) ensures r == ibits(self) { unimplemented!() } }
impl<K, V> VIntoIter for IxMap<K, V> {
    type VItem = (K, V);
    open spec fn vseq(self) -> Seq<(K, V)> { self@ }
    open spec fn vfacts(self, s: Seq<(K, V)>) -> bool { ix_wf(s) && s == self@ }
    #[verifier::external_body]
    fn viter(self) -> VIter<(K, V)> { unimplemented!() }
}
impl<K, V> IxMap<K, V> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r <==> exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == *k { unimplemented!() }
}
impl Primitive {
//@fn src/value/typify.rs <Primitive as PrimitiveValue>::is_small_unsigned
//@ ret r
//@ subst ?Primitive::BYTE ==> Primitive { code: 0x40 }
//@ spec ensures r == (is_unsigned(self.code) && prim_size(self.code) <= 8)
//@end
//@fn src/value/typify.rs <Primitive as PrimitiveValue>::is_large_unsigned
//@ ret r
//@ spec ensures r == (is_unsigned(self.code) && 8 < prim_size(self.code) <= 128)
//@end
//@fn src/value/typify.rs <Primitive as PrimitiveValue>::is_small_signed
//@ ret r
//@ spec ensures r == (is_signed(self.code) && prim_size(self.code) <= 8)
//@end
//@fn src/value/typify.rs <Primitive as PrimitiveValue>::is_large_signed
//@ ret r
//@ spec ensures r == (is_signed(self.code) && 8 < prim_size(self.code) <= 128)
//@end
//@fn src/value/typify.rs <Primitive as PrimitiveValue>::fits_uint
//@ ret r
//@ spec requires 1 <= prim_size(self.code) <= 8
//@ spec ensures r == (val < pow256(prim_size(self.code)))
//@ at start
 proof {
  assert((val >> 8u32 == 0) == (val < 0x100)) by (bit_vector); assert((val >> 16u32 == 0) == (val < 0x1_0000)) by (bit_vector); assert((val >> 24u32 == 0) == (val < 0x100_0000)) by (bit_vector);
  assert((val >> 32u32 == 0) == (val < 0x1_0000_0000)) by (bit_vector); assert((val >> 40u32 == 0) == (val < 0x100_0000_0000)) by (bit_vector); assert((val >> 48u32 == 0) == (val < 0x1_0000_0000_0000)) by (bit_vector);
  assert((val >> 56u32 == 0) == (val < 0x100_0000_0000_0000)) by (bit_vector);
 }
//@end
//@fn src/value/typify.rs <Primitive as PrimitiveValue>::fits_int
//@ ret r
//@ spec requires 1 <= prim_size(self.code) <= 8
//@ spec ensures r == (-(pow256(prim_size(self.code)) / 2) <= val < pow256(prim_size(self.code)) / 2)
//@ at start
 proof {
  assert((val >> 7u32 == 0 || val >> 7u32 == -1) == (-0x80 <= val < 0x80)) by (bit_vector); assert((val >> 15u32 == 0 || val >> 15u32 == -1) == (-0x8000 <= val < 0x8000)) by (bit_vector);
  assert((val >> 23u32 == 0 || val >> 23u32 == -1) == (-0x80_0000 <= val < 0x80_0000)) by (bit_vector); assert((val >> 31u32 == 0 || val >> 31u32 == -1) == (-0x8000_0000 <= val < 0x8000_0000)) by (bit_vector);
  assert((val >> 39u32 == 0 || val >> 39u32 == -1) == (-0x80_0000_0000 <= val < 0x80_0000_0000)) by (bit_vector); assert((val >> 47u32 == 0 || val >> 47u32 == -1) == (-0x8000_0000_0000 <= val < 0x8000_0000_0000)) by (bit_vector);
  assert((val >> 55u32 == 0 || val >> 55u32 == -1) == (-0x80_0000_0000_0000 <= val < 0x80_0000_0000_0000)) by (bit_vector);
 }
//@end
//@fn src/value/typify.rs <Primitive as PrimitiveValue>::fits_bits
//@ ret r
//@ spec ensures r == (bits <= 8 * prim_size(self.code))
//@end
}
/// The union of nothing and something.
pub open spec fn option_ty(ty: Ty<SemId>) -> bool {
    match ty { Ty::Union(vs) => vs@.len() == 2 && vs@[0].0.name.bytes() == lit_bytes("none") && vs@[0].0.tag == 0 && vs@[1].0.name.bytes() == lit_bytes("some") && vs@[1].0.tag == 1, _ => false }
}
impl Ty<SemId> {
    /// Which characters there are doesn't matter: only texts of one byte are accepted.
    #[verifier::external_body]
    pub fn is_unicode_char(&self) -> (r: bool) { unimplemented!() }
//@fn src/ast/ty.rs Ty::as_some
//@ ret r
//@ sigsub Option<&Ref> ==> Option<&SemId>
//@ spec ensures r is Some <==> option_ty(*self)
//@ at start
 broadcast use variant_name_ext;
//@end
//@fn src/ast/ty.rs Ty::is_option
//@ ret r
//@ spec ensures r == option_ty(*self)
//@end
}
/// The value is of the type (`conf_ty`, seen from one step above).
pub open spec fn typed(m: Tys, v: StrictVal, ty: Ty<SemId>) -> bool {
    match (v, ty) {
        (StrictVal::Unit, Ty::Primitive(p)) => p.code == 0,
        (StrictVal::Number(n), Ty::Primitive(p)) => num_conf(n, p),
        (StrictVal::String(s), Ty::UnicodeChar) => char_count(s@) == 1,
        (StrictVal::Bytes(b), Ty::Array(i, n)) => is_byte_id(i) && b@.len() == n,
        (StrictVal::Bytes(b), Ty::List(i, z)) => is_byte_id(i) && within(b@.len(), z),
        (StrictVal::String(s), Ty::Array(i, n)) => s@.len() == n && ((i == unicode_id() && ascii(s@)) || chars_of(m, i, s@)),
        (StrictVal::String(s), Ty::List(i, z)) => within(s@.len(), z) && (i == unicode_id() || chars_of(m, i, s@)),
        (StrictVal::String(s), Ty::Tuple(f)) => rs_conf(m, f@, s@),
        (StrictVal::List(l), Ty::Array(i, n)) => l@.len() == n && forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i),
        (StrictVal::List(l), Ty::List(i, z)) => within(l@.len(), z) && forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i),
        (StrictVal::Set(l), Ty::Set(i, z)) => within(l@.len(), z) && (forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i)) && distinct(m, l@, i),
        (StrictVal::Map(l), Ty::Map(k, i, z)) => within(l@.len(), z) && (forall|j: int| 0 <= j < l@.len() ==> conf(m, (#[trigger] l@[j]).0, k) && conf(m, l@[j].1, i)) && distinct_keys(m, l@, k),
        (StrictVal::Tuple(l), Ty::Tuple(f)) => !rstring(m, f@) && l@.len() == f@.len() && forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], f@[j]),
        (StrictVal::Struct(x), Ty::Struct(f)) => x@.len() == f@.len() && named(m, x@, f@),
        (StrictVal::Enum(t), Ty::Enum(vs)) => exists|i: int| ev_sel(vs@, t, i),
        (StrictVal::Union(t, x), Ty::Union(vs)) => exists|i: int| uv_sel(vs@, t, i) && conf(m, *x, (#[trigger] vs@[i]).1),
        _ => false,
    }
}
/// Each entry is named as a field, of the type of that field.
#[verifier::opaque]
pub open spec fn named(m: Tys, x: Seq<(FieldName, StrictVal)>, f: Seq<Field<SemId>>) -> bool {
    ix_wf(x) && forall|j: int| 0 <= j < x.len() ==> exists|i: int| nf_at_name(f, (#[trigger] x[j]).0, i) && conf(m, x[j].1, (#[trigger] f[i]).ty)
}
/// As many entries as fields, each entry named as a field: each field has an entry.
pub proof fn lemma_fields(m: Tys, x: Seq<(FieldName, StrictVal)>, f: Seq<Field<SemId>>)
    requires named(m, x, f), x.len() == f.len()
    ensures forall|j: int| 0 <= j < f.len() ==> ix_has(x, (#[trigger] f[j]).name, ix_pos(x, f[j].name)) && conf(m, x[ix_pos(x, f[j].name)].1, f[j].ty)
{
    reveal(named);
    let xs = Seq::new(x.len(), |i: int| x[i].0); let fs = Seq::new(f.len(), |i: int| f[i].name);
    assert(xs.no_duplicates());
    xs.unique_seq_to_set(); fs.lemma_cardinality_of_set();
    assert(xs.to_set().subset_of(fs.to_set())) by {
        assert forall|n: FieldName| xs.to_set().contains(n) implies fs.to_set().contains(n) by {
            let j = choose|j: int| 0 <= j < xs.len() && xs[j] == n; assert(x[j].0 == n);
            let i = choose|i: int| nf_at_name(f, x[j].0, i) && conf(m, x[j].1, (#[trigger] f[i]).ty); assert(fs[i] == n);
        }
    }
    vstd::set_lib::lemma_len_subset(xs.to_set(), fs.to_set());
    vstd::set_lib::lemma_subset_equality(xs.to_set(), fs.to_set());
    fs.lemma_no_dup_set_cardinality();
    assert forall|j: int| 0 <= j < f.len() implies ix_has(x, (#[trigger] f[j]).name, ix_pos(x, f[j].name)) && conf(m, x[ix_pos(x, f[j].name)].1, f[j].ty) by {
        assert(fs[j] == f[j].name); assert(fs.to_set().contains(f[j].name)); assert(xs.to_set().contains(f[j].name));
        let p = choose|p: int| 0 <= p < xs.len() && xs[p] == f[j].name; assert(ix_has(x, f[j].name, p));
        let q = ix_pos(x, f[j].name); assert(ix_has(x, f[j].name, q));
        let i = choose|i: int| nf_at_name(f, x[q].0, i) && conf(m, x[q].1, (#[trigger] f[i]).ty);
        assert(fs[i] == fs[j]);
    }
}
pub proof fn lemma_typed(m: Tys, v: StrictVal, ty: Ty<SemId>, id: SemId)
    requires find_ty(m, id) == Some(ty), typed(m, v, ty) ensures conf(m, v, id)
{
    reveal(conf_ty); lemma_conf_unfold(m, v, id);
    if let (StrictVal::Struct(x), Ty::Struct(f)) = (v, ty) { lemma_fields(m, x@, f@); }
}
/// The names of an option select its variants.
pub proof fn lemma_options(ty: Ty<SemId>)
    ensures option_ty(ty) ==> ({ let vs = ty->Union_0@; uv_sel(vs, EnumTag::Name(lit_name("none")), 0) && uv_sel(vs, EnumTag::Name(lit_name("some")), 1) })
{
    if option_ty(ty) {
        let vs = ty->Union_0@;
        lemma_lit(vs[0].0.name, "none"); lemma_lit(vs[1].0.name, "some");
        assert(lit_bytes("none")[0] != lit_bytes("some")[0]) by { reveal(lit_bytes); reveal_strlit("none"); reveal_strlit("some"); }
    }
}
/// The name of a variant selects it (or an earlier one of the same name).
pub open spec fn ev_has(s: Seq<Variant>, n: VariantName) -> bool { exists|j: int| ev_sel(s, EnumTag::Name(n), j) }
pub proof fn lemma_names_at(ty: Ty<SemId>)
    ensures match ty { Ty::Enum(vs) => forall|i: int| 0 <= i < vs@.len() ==> ev_has(vs@, (#[trigger] vs@[i]).name), _ => true }
{
    if let Ty::Enum(vs) = ty { assert forall|i: int| 0 <= i < vs@.len() implies ev_has(vs@, (#[trigger] vs@[i]).name) by { lemma_first(vs@, i); } }
}
pub proof fn lemma_first(s: Seq<Variant>, i: int)
    requires 0 <= i < s.len() ensures ev_has(s, s[i].name)
    decreases i
{
    if ev_at_name(s, s[i].name, i) { assert(ev_sel(s, EnumTag::Name(s[i].name), i)); } else { let k = choose|k: int| 0 <= k < i && (#[trigger] s[k]).name == s[i].name; lemma_first(s, k); }
}
impl TypeSystem {
//@fn src/value/typify.rs TypeSystem::typify
//@ ret r
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(80)] #[verifier::spinoff_prover]
//@ veciter
//@ subst ?Primitive::UNIT ==> Primitive { code: 0 }
//@ subst ?IndexMap::with_capacity ==> IxMap::with_capacity
//@ subst ?BTreeSet::new() ==> ByteSet::new()
//@ subst ?num.into() ==> num.v_big()
//@ subst ?(num as i64).into() ==> (num as i64).v_big()
//@ subst ?vname.into() ==> vname.into_tg()
//@ subst ?tag.into() ==> tag.into_tg()
//@ subst ?NonEmptyOrdSet::from_iter_checked(vars_req.keys().cloned()).into() ==> verif_variants(vars_req)
//@ subst ?fields[0] ==> *fields.at(0)
//@ subst ?s.into_iter() ==> s.viter()
//@ spec ensures r is Ok ==> (r->Ok_0).orig.id == sem_id && conf(self@, (r->Ok_0).val, sem_id)
//@ at start
 let ghost id0 = sem_id; let ghost ty0 = find_ty(self@, id0)->Some_0;
 broadcast use ascii_chars, one_byte;
 proof { reveal(distinct); reveal(distinct_keys); reveal(named); lemma_names_at(ty0); assert(forall|n: u64| (n & 0x8000_0000_0000_0000u64) == 0 ==> n < 0x8000_0000_0000_0000u64) by (bit_vector); }
//@ loop 1
  new@.len() == __it1.pos(), forall|j: int| 0 <= j < new@.len() ==> conf(self@, #[trigger] new@[j], *id),
//@ loop 2
  new@.len() == __it2.pos(), forall|j: int| 0 <= j < new@.len() ==> conf(self@, #[trigger] new@[j], *id),
//@ loop 3
  new@.len() == __it3.pos(), forall|j: int| 0 <= j < new@.len() ==> conf(self@, #[trigger] new@[j], *id), distinct(self@, new@, *id),
  forall|b: Seq<u8>| #[trigger] seen@.contains(b) <==> exists|j: int| 0 <= j < new@.len() && enc(self@, #[trigger] new@[j], *id) == b,
//@ at at loop 3 start
 let ghost w0 = new@;
 proof { reveal(distinct); }
//@ at at loop 3 end
 proof { assert(new@.len() == w0.len() + 1); assert forall|j: int| 0 <= j < w0.len() implies new@[j] == #[trigger] w0[j] by {} assert(new@[w0.len() as int] == new@.last()); }
//@ loop 4
  new@.len() == __it4.pos(), forall|j: int| 0 <= j < new@.len() ==> conf(self@, (#[trigger] new@[j]).0, *key_id) && conf(self@, new@[j].1, *id), distinct_keys(self@, new@, *key_id),
  forall|b: Seq<u8>| #[trigger] seen@.contains(b) <==> exists|j: int| 0 <= j < new@.len() && enc(self@, (#[trigger] new@[j]).0, *key_id) == b,
//@ at at loop 4 start
 let ghost w0 = new@;
 proof { reveal(distinct_keys); }
//@ at at loop 4 end
 proof { assert(new@.len() == w0.len() + 1); assert forall|j: int| 0 <= j < w0.len() implies new@[j] == #[trigger] w0[j] by {} assert(new@[w0.len() as int] == new@.last()); }
//@ loop 5
  new@.len() == __it5.pos(), __all5.len() == fields_req@.len(), forall|j: int| #![trigger __all5[j]] 0 <= j < fields_req@.len() ==> *__all5[j].1 == fields_req@[j],
  forall|j: int| 0 <= j < new@.len() ==> conf(self@, #[trigger] new@[j], fields_req@[j]),
//@ loop 6
  new@.len() == __it6.pos(), __all6.len() == fields_req@.len(), forall|j: int| #![trigger __all6[j]] 0 <= j < fields_req@.len() ==> *__all6[j].1 == fields_req@[j],
  forall|j: int| 0 <= j < new@.len() ==> conf(self@, #[trigger] new@[j], fields_req@[j]),
//@ loop 7
  ix_wf(__all7), new@.len() == __it7.pos(), forall|j: int| 0 <= j < new@.len() ==> (#[trigger] new@[j]).0 == __all7[j].0, named(self@, new@, fields_req@),
//@ at at loop 7 start
 proof { reveal(named); }
//@ loop 8
  new@.len() == __it8.pos(), named(self@, new@, fields_req@),
//@ at at loop 8 start
 proof { reveal(named); }
//@ at tails of val
 proof { lemma_options(ty0); lemma_typed(self@, __v, ty0, id0); }
//@end
}
//@include sys_wrap.vrs
impl SymbolicSys {
//@fn src/value/typify.rs SymbolicSys::typify
//@ ret r
//@ sigsub impl Into<TypeSpec> ==> TypeSpec
//@ subst ?spec.into() ==> spec
//@ spec ensures r is Ok ==> denotes(*self, spec) == Some((r->Ok_0).orig.id) && conf(self.types@, (r->Ok_0).val, (r->Ok_0).orig.id)
//@end
}
