// ---------------------------------------------------------------------------------------------
// C10-C13: which values are values of a type (`conf`), and their strict encoding (`enc`).
// ---------------------------------------------------------------------------------------------
/// The id of an anonymous type: a hash of its definition (the contract of `sem_id_unnamed`, discharged in C01, here a name).
pub uninterp spec fn sem_unnamed(t: Ty<SemId>) -> SemId;
impl Ty<SemId> { #[verifier::external_body] pub fn sem_id_unnamed(&self) -> (r: SemId) ensures r == sem_unnamed(*self) { unimplemented!() } }
/// Ids of the byte types, of the Unicode character and of the unit.
pub open spec fn byte_id() -> SemId { sem_unnamed(Ty::Primitive(Primitive { code: 0x40 })) }
pub open spec fn u8_id() -> SemId { sem_unnamed(Ty::Primitive(Primitive { code: 1 })) }
pub open spec fn unicode_id() -> SemId { sem_unnamed(Ty::UnicodeChar) }
pub open spec fn unit_id() -> SemId { sem_unnamed(Ty::Primitive(Primitive { code: 0 })) }
pub open spec fn is_byte_id(id: SemId) -> bool { id == byte_id() || id == u8_id() }
impl SemId {
//@fn src/ast/id.rs <SemId as Default>::default
//@ ret r
//@ subst ?Ty::<SemId>::UNIT ==> Ty::<SemId>::Primitive(Primitive { code: 0 })
//@ spec ensures r == unit_id()
//@end
//@fn src/ast/id.rs SemId::unit
//@ ret r
//@ spec ensures r == unit_id()
//@end
//@fn src/ast/id.rs <SemId as PrimitiveRef>::byte
//@ ret r
//@ subst ?Ty::<Self>::BYTE ==> Ty::<SemId>::Primitive(Primitive { code: 0x40 })
//@ spec ensures r == byte_id()
//@end
//@fn src/ast/id.rs <SemId as PrimitiveRef>::unicode_char
//@ ret r
//@ subst ?Ty::<Self>::UNICODE ==> Ty::<SemId>::UnicodeChar
//@ spec ensures r == unicode_id()
//@end
//@fn src/ast/id.rs <SemId as TypeRef>::is_byte
//@ ret r
//@ subst ?Ty::<Self>::U8 ==> Ty::<SemId>::Primitive(Primitive { code: 1 })
//@ subst ?Ty::<Self>::BYTE ==> Ty::<SemId>::Primitive(Primitive { code: 0x40 })
//@ spec ensures r == is_byte_id(*self)
//@end
//@fn src/ast/id.rs <SemId as TypeRef>::is_unicode_char
//@ ret r
//@ spec ensures r == (*self == unicode_id())
//@end
}
/// The type behind an id; the unit type need not be listed.
pub open spec fn find_ty(m: Tys, id: SemId) -> Option<Ty<SemId>> {
    if id == unit_id() { Some(Ty::Primitive(Primitive { code: 0 })) } else if m.contains_key(id) { Some(m[id]) } else { None }
}
/// Width in bytes of the integer a primitive code stands for.
pub open spec fn prim_size(code: u8) -> int {
    let c = code as int % 0x40;
    if code == 0x40 { 1 } else if code == 0xC0 { 2 } else if c < 0x20 { c } else { 16 * (c - 0x20 + 2) }
}
impl Primitive {
    #[verifier::external_body]
    pub fn byte_size(self) -> (r: u16) ensures r == prim_size(self.code) { unimplemented!() }
}
impl PartialEq for Primitive { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq for Primitive {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Primitive {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.code == o.code }
}
pub open spec fn is_unsigned(code: u8) -> bool { code == 0x40 || 1 <= code <= 0x3f }
pub open spec fn is_signed(code: u8) -> bool { 0x41 <= code <= 0x7f }
/// 256 to the power of the width, for widths up to 8.
pub open spec fn pow256(size: int) -> int {
    if size == 1 { 0x100 } else if size == 2 { 0x1_0000 } else if size == 3 { 0x100_0000 } else if size == 4 { 0x1_0000_0000 } else if size == 5 { 0x100_0000_0000 } else if size == 6 { 0x1_0000_0000_0000 } else if size == 7 { 0x100_0000_0000_0000 } else { 0x1_0000_0000_0000_0000 }
}
/// Least number of bits of (two's complement) representation of large numbers.
pub uninterp spec fn ubits(n: u1024) -> nat;
pub uninterp spec fn ibits(n: i1024) -> nat;
pub open spec fn num_conf(n: StrictNum, p: Primitive) -> bool {
    let size = prim_size(p.code);
    match n {
        StrictNum::Uint(v) => is_unsigned(p.code) && size <= 8 && v < pow256(size),
        StrictNum::Int(v) => is_signed(p.code) && size <= 8 && -(pow256(size) / 2) <= v < pow256(size) / 2,
        StrictNum::BigUint(v) => is_unsigned(p.code) && 8 < size <= 128 && ubits(v) <= 8 * size,
        StrictNum::BigInt(v) => is_signed(p.code) && 8 < size <= 128 && ibits(v) <= 8 * size,
    }
}
pub open spec fn within(n: nat, z: Sizing) -> bool { z.min <= n <= z.max }
pub open spec fn is_tag(vs: EnumVariants, c: u8) -> bool { !ev_no_tag(vs@, c) }
/// `b` is a sequence of tags of the enumeration.
pub open spec fn chars_of(m: Tys, id: SemId, b: Seq<u8>) -> bool {
    match find_ty(m, id) { Some(Ty::Enum(vs)) => forall|i: int| 0 <= i < b.len() ==> is_tag(vs, #[trigger] b[i]), _ => false }
}
/// An enumeration of printable ASCII characters.
pub open spec fn char_enum(t: Ty<SemId>) -> bool {
    match t { Ty::Enum(vs) => forall|i: int| 0 <= i < vs@.len() ==> 32 <= (#[trigger] vs@[i]).tag <= 127, _ => false }
}
pub open spec fn char_enum_id(m: Tys, id: SemId) -> bool { match find_ty(m, id) { Some(t) => char_enum(t), _ => false } }
/// Restricted strings: a first character and a list of characters.
pub open spec fn rstring(m: Tys, f: Seq<SemId>) -> bool {
    f.len() == 2 && char_enum_id(m, f[0]) && match find_ty(m, f[1]) { Some(Ty::List(rest, _)) => char_enum_id(m, rest), _ => false }
}
pub open spec fn sat1(n: u64) -> u64 { if n == u64::MAX { n } else { (n + 1) as u64 } }
pub open spec fn plus1(z: Sizing) -> Sizing { Sizing { min: sat1(z.min), max: sat1(z.max) } }
pub open spec fn rs_rest(m: Tys, f: Seq<SemId>) -> SemId { match find_ty(m, f[1]) { Some(Ty::List(rest, _)) => rest, _ => arbitrary() } }
pub open spec fn rs_sizing(m: Tys, f: Seq<SemId>) -> Sizing { match find_ty(m, f[1]) { Some(Ty::List(_, z)) => plus1(z), _ => arbitrary() } }
pub open spec fn rs_conf(m: Tys, f: Seq<SemId>, b: Seq<u8>) -> bool {
    rstring(m, f) && b.len() > 0 && within(b.len(), rs_sizing(m, f)) && chars_of(m, f[0], seq![b[0]]) && chars_of(m, rs_rest(m, f), b.skip(1))
}
pub open spec fn ix_has(s: Seq<(FieldName, StrictVal)>, n: FieldName, i: int) -> bool { 0 <= i < s.len() && s[i].0 == n }
pub open spec fn ix_pos(s: Seq<(FieldName, StrictVal)>, n: FieldName) -> int { choose|i: int| ix_has(s, n, i) }
/// The variant a tag selects.
pub open spec fn ev_sel(s: Seq<Variant>, t: EnumTag, i: int) -> bool { match t { EnumTag::Ord(o) => ev_at_tag(s, o, i), EnumTag::Name(n) => ev_at_name(s, n, i) } }
pub open spec fn uv_sel(s: Seq<(Variant, SemId)>, t: EnumTag, i: int) -> bool { match t { EnumTag::Ord(o) => uv_at_tag(s, o, i), EnumTag::Name(n) => uv_at_name(s, n, i) } }
pub open spec fn ev_pos(s: Seq<Variant>, t: EnumTag) -> int { choose|i: int| ev_sel(s, t, i) }
pub open spec fn uv_pos(s: Seq<(Variant, SemId)>, t: EnumTag) -> int { choose|i: int| uv_sel(s, t, i) }
/// `v` is a value of the type `id`.
pub open spec fn conf(m: Tys, v: StrictVal, id: SemId) -> bool
    decreases v, 1int
{ match find_ty(m, id) { Some(ty) => conf_ty(m, v, ty), None => false } }
#[verifier::opaque]
pub open spec fn conf_ty(m: Tys, v: StrictVal, ty: Ty<SemId>) -> bool
    decreases v, 0int via conf_ty_decreases
{
    match (v, ty) {
        (StrictVal::Unit, Ty::Primitive(p)) => p.code == 0,
        (StrictVal::Number(n), Ty::Primitive(p)) => num_conf(n, p),
        (StrictVal::String(s), Ty::UnicodeChar) => char_count(s@) == 1,
        (StrictVal::Bytes(b), Ty::Array(i, n)) => is_byte_id(i) && b@.len() == n,
        (StrictVal::Bytes(b), Ty::List(i, z)) => is_byte_id(i) && within(b@.len(), z),
        (StrictVal::String(s), Ty::Array(i, n)) => s@.len() == n && ((i == unicode_id() && ascii(s@)) || chars_of(m, i, s@)),
        (StrictVal::String(s), Ty::List(i, z)) => within(s@.len(), z) && (i == unicode_id() || chars_of(m, i, s@)),
        (StrictVal::String(s), Ty::Tuple(f)) => rs_conf(m, f@, s@),
        (StrictVal::List(l), Ty::Array(i, n)) => l@.len() == n && forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i),
        (StrictVal::List(l), Ty::List(i, z)) => within(l@.len(), z) && forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i),
        (StrictVal::Set(l), Ty::Set(i, z)) => within(l@.len(), z) && (forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i)) && distinct(m, l@, i),
        (StrictVal::Map(l), Ty::Map(k, i, z)) => within(l@.len(), z) && (forall|j: int| 0 <= j < l@.len() ==> conf(m, (#[trigger] l@[j]).0, k) && conf(m, l@[j].1, i)) && distinct_keys(m, l@, k),
        (StrictVal::Tuple(l), Ty::Tuple(f)) => !rstring(m, f@) && l@.len() == f@.len() && forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], f@[j]),
        (StrictVal::Struct(x), Ty::Struct(f)) => x@.len() == f@.len()
            && forall|j: int| 0 <= j < f@.len() ==> ix_has(x@, (#[trigger] f@[j]).name, ix_pos(x@, f@[j].name)) && conf(m, x@[ix_pos(x@, f@[j].name)].1, f@[j].ty),
        (StrictVal::Enum(t), Ty::Enum(vs)) => exists|i: int| ev_sel(vs@, t, i),
        (StrictVal::Union(t, x), Ty::Union(vs)) => exists|i: int| uv_sel(vs@, t, i) && conf(m, *x, (#[trigger] vs@[i]).1),
        _ => false,
    }
}
#[via_fn]
proof fn conf_ty_decreases(m: Tys, v: StrictVal, ty: Ty<SemId>) {
    if let StrictVal::Struct(x) = v {
        assert forall|n: FieldName| #[trigger] ix_has(x@, n, ix_pos(x@, n)) implies decreases_to!(v => x@[ix_pos(x@, n)].1) by { ix_map_smaller(&x, ix_pos(x@, n)); }
    }
}
/// Different members have different encodings.
#[verifier::opaque]
pub open spec fn distinct(m: Tys, l: Seq<StrictVal>, id: SemId) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> enc(m, #[trigger] l[i], id) != enc(m, #[trigger] l[j], id) }
#[verifier::opaque]
pub open spec fn distinct_keys(m: Tys, l: Seq<(StrictVal, StrictVal)>, id: SemId) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> enc(m, (#[trigger] l[i]).0, id) != enc(m, (#[trigger] l[j]).0, id) }
/// Little-endian bytes (two's complement).
pub open spec fn le8(n: u64) -> Seq<u8> { Seq::new(8, |i: int| ((n as int / (if i == 0 { 1 } else { pow256(i) })) % 256) as u8) }
pub uninterp spec fn le128(n: u1024) -> Seq<u8>;
pub uninterp spec fn lei128(n: i1024) -> Seq<u8>;
pub broadcast axiom fn le128_len(n: u1024) ensures (#[trigger] le128(n)).len() == 128;
pub broadcast axiom fn lei128_len(n: i1024) ensures (#[trigger] lei128(n)).len() == 128;
pub open spec fn num_le(n: StrictNum) -> Seq<u8> {
    match n { StrictNum::Uint(v) => le8(v), StrictNum::Int(v) => le8(v as u64), StrictNum::BigUint(v) => le128(v), StrictNum::BigInt(v) => lei128(v) }
}
/// Width of a length, fixed by the upper bound of the type alone.
pub open spec fn len_width(max: u64) -> int {
    if max < 0x100 { 1 } else if max < 0x1_0000 { 2 } else if max < 0x100_0000 { 3 } else if max < 0x1_0000_0000 { 4 } else { 8 }
}
pub open spec fn prefix(len: nat, max: u64) -> Seq<u8> { le8(len as u64).take(len_width(max)) }
/// The strict encoding of a value of the type.
pub open spec fn enc(m: Tys, v: StrictVal, id: SemId) -> Seq<u8>
    decreases v, 2int, 0int
{ match find_ty(m, id) { Some(ty) => enc_ty(m, v, ty), None => seq![] } }
#[verifier::opaque]
pub open spec fn enc_ty(m: Tys, v: StrictVal, ty: Ty<SemId>) -> Seq<u8>
    decreases v, 1int, 0int
{
    match (v, ty) {
        (StrictVal::Number(n), Ty::Primitive(p)) => num_le(n).take(prim_size(p.code)),
        (StrictVal::String(s), Ty::UnicodeChar) => s@,
        (StrictVal::String(s), Ty::Array(_, _)) => s@,
        (StrictVal::Bytes(b), Ty::Array(_, _)) => b@,
        (StrictVal::Bytes(b), Ty::List(_, z)) => prefix(b@.len(), z.max) + b@,
        (StrictVal::String(s), Ty::List(_, z)) => prefix(s@.len(), z.max) + s@,
        (StrictVal::String(s), Ty::Tuple(f)) => prefix(s@.len(), rs_sizing(m, f@).max) + s@,
        (StrictVal::List(l), Ty::Array(i, _)) => enc_seq(m, l, i, l@.len() as int),
        (StrictVal::List(l), Ty::List(i, z)) => prefix(l@.len(), z.max) + enc_seq(m, l, i, l@.len() as int),
        (StrictVal::Set(l), Ty::Set(i, z)) => prefix(l@.len(), z.max) + enc_seq(m, l, i, l@.len() as int),
        (StrictVal::Map(l), Ty::Map(k, i, z)) => prefix(l@.len(), z.max) + enc_pairs(m, l, k, i, l@.len() as int),
        (StrictVal::Tuple(l), Ty::Tuple(f)) => enc_tup(m, l, f@, l@.len() as int),
        (StrictVal::Struct(x), Ty::Struct(f)) => enc_fields(m, x, f@, f@.len() as int),
        (StrictVal::Enum(t), Ty::Enum(vs)) => seq![vs@[ev_pos(vs@, t)].tag],
        (StrictVal::Union(t, x), Ty::Union(vs)) => seq![vs@[uv_pos(vs@, t)].0.tag] + enc(m, *x, vs@[uv_pos(vs@, t)].1),
        _ => seq![],
    }
}
/// The first `n` items, pairs, fields.
pub open spec fn enc_seq(m: Tys, l: Vec<StrictVal>, id: SemId, n: int) -> Seq<u8>
    decreases l, 0int, n
{ if 0 < n <= l@.len() { enc_seq(m, l, id, n - 1) + enc(m, l@[n - 1], id) } else { seq![] } }
pub open spec fn enc_pairs(m: Tys, l: Vec<(StrictVal, StrictVal)>, k: SemId, id: SemId, n: int) -> Seq<u8>
    decreases l, 0int, n
{ if 0 < n <= l@.len() { enc_pairs(m, l, k, id, n - 1) + enc(m, l@[n - 1].0, k) + enc(m, l@[n - 1].1, id) } else { seq![] } }
pub open spec fn enc_tup(m: Tys, l: Vec<StrictVal>, f: Seq<SemId>, n: int) -> Seq<u8>
    decreases l, 0int, n
{ if 0 < n <= l@.len() { enc_tup(m, l, f, n - 1) + enc(m, l@[n - 1], f[n - 1]) } else { seq![] } }
pub open spec fn enc_fields(m: Tys, x: IxMap<FieldName, StrictVal>, f: Seq<Field<SemId>>, n: int) -> Seq<u8>
    decreases x, 0int, n via enc_fields_decreases
{
    if 0 < n <= f.len() && 0 <= ix_pos(x@, f[n - 1].name) < x@.len() { enc_fields(m, x, f, n - 1) + enc(m, x@[ix_pos(x@, f[n - 1].name)].1, f[n - 1].ty) } else { seq![] }
}
#[via_fn]
proof fn enc_fields_decreases(m: Tys, x: IxMap<FieldName, StrictVal>, f: Seq<Field<SemId>>, n: int) {
    if 0 < n <= f.len() && 0 <= ix_pos(x@, f[n - 1].name) < x@.len() { ix_map_smaller(&x, ix_pos(x@, f[n - 1].name)); }
}
pub broadcast proof fn cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn cat_empty(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast group group_cat { cat_assoc, cat_empty }
/// A key has one position in a map.
pub proof fn lemma_ix_pos(x: &IxMap<FieldName, StrictVal>, n: FieldName, i: int)
    requires ix_has(x@, n, i) ensures ix_pos(x@, n) == i
{ ix_map_wf(x); let j = ix_pos(x@, n); assert(ix_has(x@, n, j)); if i < j { assert(x@[i].0 != x@[j].0); } else if j < i { assert(x@[j].0 != x@[i].0); } }
/// A tag selects one variant.
pub proof fn lemma_ev_pos(vs: &EnumVariants, t: EnumTag, i: int)
    requires ev_sel(vs@, t, i) ensures ev_pos(vs@, t) == i
{ variant_set_wf(&vs.0); let s = vs@; let j = ev_pos(s, t); assert(ev_sel(s, t, j)); if i < j { assert(s[i].tag < s[j].tag); } else if j < i { assert(s[j].tag < s[i].tag); } }
pub proof fn lemma_uv_pos(vs: &UnionVariants<SemId>, t: EnumTag, i: int)
    requires uv_sel(vs@, t, i) ensures uv_pos(vs@, t) == i
{ variant_map_wf(&vs.0); let s = vs@; let j = uv_pos(s, t); assert(uv_sel(s, t, j)); if i < j { assert(s[i].0.tag < s[j].0.tag); } else if j < i { assert(s[j].0.tag < s[i].0.tag); } }
pub proof fn lemma_conf_unfold(m: Tys, v: StrictVal, id: SemId)
    ensures conf(m, v, id) == (match find_ty(m, id) { Some(ty) => conf_ty(m, v, ty), None => false }), enc(m, v, id) == (match find_ty(m, id) { Some(ty) => enc_ty(m, v, ty), None => seq![] })
{ reveal(conf_ty); reveal(enc_ty); }
pub proof fn lemma_list_smaller(v: StrictVal, l: &Vec<StrictVal>, i: int)
    requires v == StrictVal::List(*l) || v == StrictVal::Set(*l) || v == StrictVal::Tuple(*l), 0 <= i < l@.len() ensures decreases_to!(v => l@[i])
{
    match v {
        StrictVal::List(x) => { assert(x[i] == x@[i]); assert(decreases_to!(v => x)); assert(decreases_to!(v => x[i])); }
        StrictVal::Set(x) => { assert(x[i] == x@[i]); assert(decreases_to!(v => x)); assert(decreases_to!(v => x[i])); }
        StrictVal::Tuple(x) => { assert(x[i] == x@[i]); assert(decreases_to!(v => x)); assert(decreases_to!(v => x[i])); }
        _ => {}
    }
}
pub proof fn lemma_map_smaller(v: StrictVal, l: &Vec<(StrictVal, StrictVal)>, i: int)
    requires v == StrictVal::Map(*l), 0 <= i < l@.len() ensures decreases_to!(v => l@[i].0), decreases_to!(v => l@[i].1)
{ if let StrictVal::Map(x) = v { assert(x[i] == x@[i]); assert(decreases_to!(v => x)); assert(decreases_to!(v => x[i])); } }
pub proof fn lemma_struct_smaller(v: StrictVal, i: int)
    requires v is Struct, 0 <= i < v->Struct_0@.len() ensures decreases_to!(v => v->Struct_0@[i].1)
{ if let StrictVal::Struct(x) = v { ix_map_smaller(&x, i); } }
pub broadcast proof fn lemma_byte(v: u8) ensures #[trigger] le8(v as u64).take(1) == seq![v]
{
    assert(le8(v as u64).take(1) =~= seq![v]);
}
