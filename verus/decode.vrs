// ---------------------------------------------------------------------------------------------
// C12, C13: deserialization of values (src/value/decode.rs)
// ---------------------------------------------------------------------------------------------
pub const MAX16: usize = 0xffff;
pub const MAX32: usize = 0xffff_ffff;
pub struct AsciiError;
pub struct FromAsciiError;
impl FromAsciiError { pub fn ascii_error(self) -> AsciiError { AsciiError } }
/// `strict_encoding::DecodeError`
pub enum DecodeError { EnumTagNotKnown(String, u8), DataIntegrityError(String), RepeatedSetValue, RepeatedMapValue, Other }
impl From<IoError> for DecodeError { #[verifier::external_body] fn from(e: IoError) -> (r: DecodeError) { unimplemented!() } }
impl From<AsciiError> for DecodeError { #[verifier::external_body] fn from(e: AsciiError) -> (r: DecodeError) { unimplemented!() } }
impl From<ConfinementError> for DecodeError { #[verifier::external_body] fn from(e: ConfinementError) -> (r: DecodeError) { unimplemented!() } }
pub enum Error { TypeAbsent(TypeSpec), UnknownType(UnknownType), NotImplemented(String), Decode(DecodeError), NotEntirelyConsumed }
impl From<DecodeError> for Error { #[verifier::external_body] fn from(e: DecodeError) -> (r: Error) { unimplemented!() } }
impl From<UnknownType> for Error { #[verifier::external_body] fn from(e: UnknownType) -> (r: Error) { unimplemented!() } }
/// The bytes read are known (shown in this unit or in another).
pub open spec fn told() -> bool { track() || takes() }
/// A number of `w` little-endian bytes.
#[verifier::opaque]
pub open spec fn le_at(b: Seq<u8>, w: int) -> nat {
    if w == 1 { b[0] as nat } else if w == 2 { b[0] as nat + 0x100 * b[1] as nat } else if w == 3 { b[0] as nat + 0x100 * b[1] as nat + 0x1_0000 * b[2] as nat }
    else if w == 4 { b[0] as nat + 0x100 * b[1] as nat + 0x1_0000 * b[2] as nat + 0x100_0000 * b[3] as nat }
    else { b[0] as nat + 0x100 * b[1] as nat + 0x1_0000 * b[2] as nat + 0x100_0000 * b[3] as nat + 0x1_0000_0000 * b[4] as nat + 0x100_0000_0000 * b[5] as nat + 0x1_0000_0000_0000 * b[6] as nat + 0x100_0000_0000_0000 * b[7] as nat }
}
/// UTF-8
pub uninterp spec fn text8(b: Seq<u8>) -> bool;
pub open spec fn rep(id: SemId, k: int) -> Seq<SemId> { Seq::new(k as nat, |i: int| id) }
pub open spec fn alt(k: SemId, id: SemId, n: int) -> Seq<SemId> { Seq::new((2 * n) as nat, |i: int| if i % 2 == 0 { k } else { id }) }
pub open spec fn field_tys(f: Seq<Field<SemId>>) -> Seq<SemId> { Seq::new(f.len(), |i: int| f[i].ty) }
/// A length of `w` bytes, followed by that many bytes at least.
#[verifier::opaque]
pub open spec fn text_w(b: Seq<u8>, w: int) -> Seq<u8> { b.skip(w).take(le_at(b, w) as int) }
#[verifier::opaque]
pub open spec fn has_w(b: Seq<u8>, w: int) -> bool { b.len() >= w && b.len() >= w + le_at(b, w) }
#[verifier::opaque]
pub open spec fn after_w(b: Seq<u8>, w: int) -> Seq<u8> { b.skip(w).skip(le_at(b, w) as int) }
pub open spec fn text_at(b: Seq<u8>, max: u64) -> Seq<u8> { text_w(b, len_width(max)) }
pub open spec fn has_text(b: Seq<u8>, max: u64) -> bool { has_w(b, len_width(max)) }
pub open spec fn after_text(b: Seq<u8>, max: u64) -> Seq<u8> { after_w(b, len_width(max)) }
pub broadcast proof fn lemma_has_w(b: Seq<u8>, w: int) requires 1 <= w <= 8 ensures #[trigger] has_w(b, w) ==> b.len() >= w + le_at(b, w) && text_w(b, w).len() == le_at(b, w) && after_w(b, w).len() <= b.len()
{ reveal(has_w); reveal(text_w); reveal(after_w); }
pub proof fn lemma_text8() ensures forall|b: Seq<u8>| #[trigger] has_w(b, 8) ==> b.len() >= 8 + le_at(b, 8), forall|b: Seq<u8>| #[trigger] le_at(b, 1) == b[0], forall|b: Seq<u8>| #[trigger] text_w(b, 8) == b.skip(8).take(le_at(b, 8) as int), forall|b: Seq<u8>| #[trigger] after_w(b, 8) == b.skip(8).skip(le_at(b, 8) as int)
{ reveal(has_w); reveal(text_w); reveal(after_w); reveal(le_at); }
pub open spec fn u32max() -> u64 { 0xffff_ffff }
/// Reading from memory, within the bounds of the reader.
pub open spec fn ok<D: VRead>(d: D) -> bool { takes() && d.mem() && d.rest().len() <= u32max() }
pub open spec fn flat(l: Seq<(StrictVal, StrictVal)>) -> Seq<StrictVal> { Seq::new(2 * l.len(), |i: int| if i % 2 == 0 { l[i / 2].0 } else { l[i / 2].1 }) }
/// What precedes and follows the `j`-th value read.
pub open spec fn item(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, j: int, b: Seq<u8>) -> bool { ends(m, f, j, b) == enc(m, vs[j], f[j]) + ends(m, f, j + 1, b) }
#[verifier::opaque]
pub open spec fn items(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, b: Seq<u8>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] item(m, vs, f, j, b) }
pub proof fn lemma_items(m: Tys, a: Seq<StrictVal>, vs: Seq<StrictVal>, f: Seq<SemId>, b: Seq<u8>, n: int)
    requires items(m, a, f, b, n), forall|j: int| 0 <= j < n ==> a[j] == #[trigger] vs[j], item(m, vs, f, n, b) ensures items(m, vs, f, b, n + 1)
{ reveal(items); assert forall|j: int| 0 <= j < n + 1 implies #[trigger] item(m, vs, f, j, b) by { if j < n { assert(item(m, a, f, j, b)); assert(a[j] == vs[j]); } } }
pub proof fn lemma_items2(m: Tys, a: Seq<(StrictVal, StrictVal)>, l: Seq<(StrictVal, StrictVal)>, f: Seq<SemId>, b: Seq<u8>, n: int)
    requires 0 <= n, a.len() == n, l.len() == n + 1, items(m, flat(a), f, b, 2 * n), forall|j: int| 0 <= j < n ==> a[j] == #[trigger] l[j], item(m, flat(l), f, 2 * n, b), item(m, flat(l), f, 2 * n + 1, b) ensures items(m, flat(l), f, b, 2 * n + 2)
{
    assert forall|j: int| 0 <= j < 2 * n implies flat(a)[j] == #[trigger] flat(l)[j] by { assert(a[j / 2] == l[j / 2]); }
    lemma_items(m, flat(a), flat(l), f, b, 2 * n); lemma_items(m, flat(l), flat(l), f, b, 2 * n + 1);
}
/// What was read at the start of `b`, `d` being left.
pub open spec fn read_at(m: Tys, v: StrictVal, ty: Ty<SemId>, b: Seq<u8>, d: Seq<u8>) -> bool {
    match ty {
        Ty::Primitive(p) => !(v is String || v is Bytes || v is List || v is Set || v is Map) && d == (if p.code == 0 { b } else { b.skip(prim_size(p.code)) }),
        Ty::UnicodeChar => false,
        Ty::Enum(vs) => v is Enum && d == b.skip(1),
        Ty::Union(vs) => v is Union && d == end_of(m, vs@[uv_pos(vs@, EnumTag::Ord(b[0]))].1, b.skip(1)),
        Ty::Tuple(f) => match v {
            StrictVal::String(s) => rstring(m, f@) && s@ == text_at(b, rs_sizing(m, f@).max) && d == after_text(b, rs_sizing(m, f@).max),
            StrictVal::Tuple(_) => !rstring(m, f@) && d == ends(m, f@, f@.len() as int, b),
            _ => false,
        },
        Ty::Struct(f) => v is Struct && d == ends(m, field_tys(f@), f@.len() as int, b),
        Ty::Array(i, k) => match v { StrictVal::Bytes(_) => is_byte_id(i) && d == b.skip(k as int), StrictVal::List(_) => !is_byte_id(i) && d == ends(m, rep(i, k as int), k as int, b), _ => false },
        Ty::List(i, z) => match v {
            StrictVal::String(s) => has_text(b, z.max) && s@ == text_at(b, z.max) && d == after_text(b, z.max) && (char_enum_id(m, i) || (!is_byte_id(i) && i == unicode_id() && z.max <= u32max())),
            StrictVal::Bytes(s) => has_text(b, z.max) && s@ == text_at(b, z.max) && d == after_text(b, z.max) && !char_enum_id(m, i) && is_byte_id(i) && z.max <= u32max(),
            StrictVal::List(l) => l@.len() == le_at(b, len_width(z.max)) && d == ends(m, rep(i, l@.len() as int), l@.len() as int, b.skip(len_width(z.max))) && !char_enum_id(m, i) && (z.max <= u32max() ==> !is_byte_id(i) && i != unicode_id()),
            _ => false,
        },
        Ty::Set(i, z) => match v { StrictVal::Set(l) => l@.len() == le_at(b, len_width(z.max)) && d == ends(m, rep(i, l@.len() as int), l@.len() as int, b.skip(len_width(z.max))) && items(m, l@, rep(i, l@.len() as int), b.skip(len_width(z.max)), l@.len() as int), _ => false },
        Ty::Map(k, i, z) => match v { StrictVal::Map(l) => l@.len() == le_at(b, len_width(z.max)) && d == ends(m, alt(k, i, l@.len() as int), 2 * l@.len() as int, b.skip(len_width(z.max))) && items(m, flat(l@), alt(k, i, l@.len() as int), b.skip(len_width(z.max)), 2 * l@.len() as int), _ => false },
    }
}
/// `strict_encoding::ReadRaw`: the bytes which are still to be read.
pub trait VRead: Sized {
    spec fn rest(&self) -> Seq<u8>;
    /// number of bytes of the whole source
    spec fn total(&self) -> nat;
    /// reads from memory, not more than the reader is confined to
    spec fn mem(&self) -> bool;
    fn read_raw<const MAX: usize>(&mut self, len: usize) -> (r: Result<Vec<u8>, IoError>)
        ensures r is Ok ==> (r->Ok_0)@.len() == len && (track() ==> old(self).rest() == (r->Ok_0)@ + final(self).rest() && final(self).total() == old(self).total()),
            takes() && old(self).mem() && old(self).rest().len() <= u32max() && old(self).rest().len() >= len && len <= MAX ==> r is Ok,
            takes() && old(self).mem() && old(self).rest().len() <= u32max() && r is Ok ==> final(self).mem() && final(self).rest() == old(self).rest().skip(len as int) && (r->Ok_0)@ == old(self).rest().take(len as int);
}
/// `strict_encoding::StrictDecode` of the types the reader uses: the bytes of a value, and which values there are.
pub trait VDecode: Sized {
    spec fn wire(self) -> Seq<u8>;
    spec fn legal(self) -> bool;
    /// there is one at the start of `b`; it is this; what follows
    spec fn has(b: Seq<u8>) -> bool;
    spec fn is_at(self, b: Seq<u8>) -> bool;
    spec fn after(b: Seq<u8>) -> Seq<u8>;
    fn strict_decode<D: VRead>(d: &mut D) -> (r: Result<Self, DecodeError>)
        ensures r is Ok ==> (r->Ok_0).legal() && (track() ==> old(d).rest() == (r->Ok_0).wire() + final(d).rest() && final(d).total() == old(d).total()),
            ok(*old(d)) && Self::has(old(d).rest()) ==> r is Ok,
            ok(*old(d)) && Self::has(old(d).rest()) && r is Ok ==> final(d).mem() && (r->Ok_0).is_at(old(d).rest()) && final(d).rest() == Self::after(old(d).rest());
}
macro_rules! decode_num { ($($t:ty, $w:expr);*) => { verus! { $(
    impl VDecode for $t {
        open spec fn wire(self) -> Seq<u8> { num_le(self.sn()).take($w) }
        open spec fn legal(self) -> bool { true }
        open spec fn has(b: Seq<u8>) -> bool { b.len() >= $w }
        open spec fn is_at(self, b: Seq<u8>) -> bool { match self.sn() { StrictNum::Uint(n) => n == le_at(b, $w), _ => true } }
        open spec fn after(b: Seq<u8>) -> Seq<u8> { b.skip($w) }
        #[verifier::external_body]
        fn strict_decode<D: VRead>(d: &mut D) -> Result<Self, DecodeError> { unimplemented!() }
    })* } } }
decode_num!(u8, 1; u16, 2; u32, 4; u64, 8; i8, 1; i16, 2; i32, 4; i64, 8);
/// amplify's integers of 24, 40, 48 and 56 bits
macro_rules! small_num { ($($t:ident, $w:expr, $max:expr);*) => { verus! { $(
    #[derive(Copy, Clone)] pub struct $t { pub v: u64 }
    impl IntoNum for $t { open spec fn sn(self) -> StrictNum { StrictNum::Uint(self.v) } fn into_sn(self) -> StrictNum { StrictNum::Uint(self.v) } }
    impl VDecode for $t {
        open spec fn wire(self) -> Seq<u8> { num_le(self.sn()).take($w) }
        open spec fn legal(self) -> bool { self.v < $max }
        open spec fn has(b: Seq<u8>) -> bool { b.len() >= $w }
        open spec fn is_at(self, b: Seq<u8>) -> bool { $w == 3 ==> self.v == le_at(b, 3) }
        open spec fn after(b: Seq<u8>) -> Seq<u8> { b.skip($w) }
        #[verifier::external_body]
        fn strict_decode<D: VRead>(d: &mut D) -> Result<Self, DecodeError> { unimplemented!() }
    })* } } }
small_num!(u24, 3, 0x100_0000u64; u40, 5, 0x100_0000_0000u64; u48, 6, 0x1_0000_0000_0000u64; u56, 7, 0x100_0000_0000_0000u64);
impl u24 {
    pub fn into_u32(self) -> (r: u32) requires self.legal() ensures r == self.v { self.v as u32 }
    pub fn into_usize(self) -> (r: usize) requires self.legal() ensures r == self.v { self.v as usize }
}
/// amplify's confined byte strings, strings and ASCII strings
macro_rules! decode_str { ($($t:ident, $inner:ty, $max:expr, $ascii:expr, $utf8:expr);*) => { verus! { $(
    pub struct $t { pub v: $inner }
    impl $t { pub fn release(self) -> (r: $inner) ensures r == self.v { self.v } }
    impl VDecode for $t {
        open spec fn wire(self) -> Seq<u8> { prefix(self.v@.len(), $max) + self.v@ }
        open spec fn legal(self) -> bool { self.v@.len() <= $max && ($ascii ==> ascii(self.v@)) }
        open spec fn has(b: Seq<u8>) -> bool { has_text(b, $max) && ($ascii ==> ascii(text_at(b, $max))) && ($utf8 ==> text8(text_at(b, $max))) }
        open spec fn is_at(self, b: Seq<u8>) -> bool { self.v@ == text_at(b, $max) }
        open spec fn after(b: Seq<u8>) -> Seq<u8> { after_text(b, $max) }
        #[verifier::external_body]
        fn strict_decode<D: VRead>(d: &mut D) -> Result<Self, DecodeError> { unimplemented!() }
    })* } } }
decode_str!(TinyBlob, Vec<u8>, 0xffu64, false, false; SmallBlob, Vec<u8>, 0xffffu64, false, false; MediumBlob, Vec<u8>, 0xff_ffffu64, false, false; LargeBlob, Vec<u8>, 0xffff_ffffu64, false, false;
    TinyString, String, 0xffu64, false, true; SmallString, String, 0xffffu64, false, true; MediumString, String, 0xff_ffffu64, false, true; LargeString, String, 0xffff_ffffu64, false, true;
    TinyAscii, String, 0xffu64, true, false; SmallAscii, String, 0xffffu64, true, false; MediumAscii, String, 0xff_ffffu64, true, false; LargeAscii, String, 0xffff_ffffu64, true, false);
macro_rules! ascii_string { ($($t:ident),*) => { verus! { $( impl $t { pub fn to_string(self) -> (r: String) ensures r == self.v { self.v } } )* } } }
ascii_string!(TinyAscii, SmallAscii, MediumAscii, LargeAscii, AsciiString);
pub struct AsciiString { pub v: String }
impl AsciiString {
    #[verifier::external_body]
    pub fn from_ascii(b: Vec<u8>) -> (r: Result<AsciiString, FromAsciiError>) ensures r is Ok <==> ascii(b@), r is Ok ==> (r->Ok_0).v@ == b@ { unimplemented!() }
}
/// `strict_encoding::StreamReader` over a `std::io::Cursor`
pub struct StreamReader { pub data: Vec<u8>, pub at: u64 }
impl StreamReader {
    #[verifier::external_body]
    pub fn cursor<const MAX: usize>(data: &[u8]) -> (r: StreamReader) ensures r.rest() == data@, r.total() == data@.len(), data@.len() <= MAX ==> r.mem() { unimplemented!() }
    pub fn unconfine(self) -> (r: StreamReader) ensures r == self { self }
    #[verifier::external_body]
    pub fn position(&self) -> (r: u64) ensures r + self.rest().len() == self.total() { unimplemented!() }
}
impl VRead for StreamReader {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn total(&self) -> nat;
    uninterp spec fn mem(&self) -> bool;
    #[verifier::external_body]
    fn read_raw<const MAX: usize>(&mut self, len: usize) -> (r: Result<Vec<u8>, IoError>) { unimplemented!() }
}
impl VIntoIter for std::ops::Range<usize> {
    type VItem = usize;
    open spec fn vseq(self) -> Seq<usize> { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as usize) }
    open spec fn vfacts(self, s: Seq<usize>) -> bool { self.start <= self.end ==> s.len() == self.end - self.start }
    #[verifier::external_body]
    fn viter(self) -> VIter<usize> { unimplemented!() }
}
impl VIntoIter for std::ops::Range<u16> {
    type VItem = u16;
    open spec fn vseq(self) -> Seq<u16> { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as u16) }
    open spec fn vfacts(self, s: Seq<u16>) -> bool { self.start <= self.end ==> s.len() == self.end - self.start }
    #[verifier::external_body]
    fn viter(self) -> VIter<u16> { unimplemented!() }
}
/// Within each enumeration, union and structure the names differ.
pub open spec fn names_differ(ty: Ty<SemId>) -> bool {
    match ty {
        Ty::Enum(vs) => forall|i: int, j: int| 0 <= i < j < vs@.len() ==> (#[trigger] vs@[i]).name != (#[trigger] vs@[j]).name,
        Ty::Union(vs) => forall|i: int, j: int| 0 <= i < j < vs@.len() ==> (#[trigger] vs@[i]).0.name != (#[trigger] vs@[j]).0.name,
        Ty::Struct(f) => forall|i: int, j: int| 0 <= i < j < f@.len() ==> (#[trigger] f@[i]).name != (#[trigger] f@[j]).name,
        _ => true,
    }
}
pub open spec fn wf_sys(m: Tys) -> bool { forall|id: SemId| #[trigger] m.contains_key(id) ==> names_differ(m[id]) }
/// The bounds, members and characters `check_read` is there for.
pub open spec fn checked(m: Tys, v: StrictVal, ty: Ty<SemId>) -> bool {
    match (v, ty) {
        (StrictVal::String(s), Ty::List(i, z)) => within(s@.len(), z) && (i == unicode_id() || (chars_of(m, i, s@) && ascii(s@))),
        (StrictVal::String(s), Ty::Tuple(f)) => rs_conf(m, f@, s@),
        (StrictVal::Bytes(b), Ty::List(_, z)) => within(b@.len(), z),
        (StrictVal::List(l), Ty::List(_, z)) => within(l@.len(), z),
        (StrictVal::Set(l), Ty::Set(i, z)) => within(l@.len(), z) && distinct(m, l@, i),
        (StrictVal::Map(l), Ty::Map(k, _, z)) => within(l@.len(), z) && distinct_keys(m, l@, k),
        _ => true,
    }
}
/// The bytes of the first items don't depend on the others.
pub proof fn lemma_enc_seq(m: Tys, a: Vec<StrictVal>, b: Vec<StrictVal>, id: SemId, n: int)
    requires 0 <= n <= a@.len(), n <= b@.len(), forall|i: int| 0 <= i < n ==> a@[i] == b@[i] ensures enc_seq(m, a, id, n) == enc_seq(m, b, id, n)
    decreases n
{ if n > 0 { lemma_enc_seq(m, a, b, id, n - 1); assert(a@[n - 1] == b@[n - 1]); } }
pub proof fn lemma_enc_pairs(m: Tys, a: Vec<(StrictVal, StrictVal)>, b: Vec<(StrictVal, StrictVal)>, k: SemId, id: SemId, n: int)
    requires 0 <= n <= a@.len(), n <= b@.len(), forall|i: int| 0 <= i < n ==> a@[i] == b@[i] ensures enc_pairs(m, a, k, id, n) == enc_pairs(m, b, k, id, n)
    decreases n
{ if n > 0 { lemma_enc_pairs(m, a, b, k, id, n - 1); assert(a@[n - 1] == b@[n - 1]); } }
pub proof fn lemma_enc_tup(m: Tys, a: Vec<StrictVal>, b: Vec<StrictVal>, f: Seq<SemId>, n: int)
    requires 0 <= n <= a@.len(), n <= b@.len(), forall|i: int| 0 <= i < n ==> a@[i] == b@[i] ensures enc_tup(m, a, f, n) == enc_tup(m, b, f, n)
    decreases n
{ if n > 0 { lemma_enc_tup(m, a, b, f, n - 1); assert(a@[n - 1] == b@[n - 1]); } }
pub open spec fn in_order(x: Seq<(FieldName, StrictVal)>, f: Seq<Field<SemId>>, n: int) -> bool {
    0 <= n <= x.len() && n <= f.len() && forall|j: int| 0 <= j < n ==> (#[trigger] x[j]).0 == f[j].name
}
pub proof fn lemma_enc_fields(m: Tys, a: IxMap<FieldName, StrictVal>, b: IxMap<FieldName, StrictVal>, f: Seq<Field<SemId>>, n: int)
    requires in_order(a@, f, n), in_order(b@, f, n), forall|i: int| 0 <= i < n ==> a@[i] == b@[i] ensures enc_fields(m, a, f, n) == enc_fields(m, b, f, n)
    decreases n
{
    if n > 0 {
        lemma_enc_fields(m, a, b, f, n - 1); assert(a@[n - 1] == b@[n - 1]);
        assert(ix_has(a@, f[n - 1].name, n - 1)); lemma_ix_pos(&a, f[n - 1].name, n - 1);
        assert(ix_has(b@, f[n - 1].name, n - 1)); lemma_ix_pos(&b, f[n - 1].name, n - 1);
    }
}
/// The name of a variant selects it.
pub proof fn lemma_names(m: Tys, id: SemId)
    requires wf_sys(m) ensures match find_ty(m, id) {
        Some(Ty::Enum(vs)) => forall|i: int| 0 <= i < vs@.len() ==> ev_at_name(vs@, (#[trigger] vs@[i]).name, i),
        Some(Ty::Union(vs)) => forall|i: int| 0 <= i < vs@.len() ==> uv_at_name(vs@, (#[trigger] vs@[i]).0.name, i),
        Some(Ty::Struct(f)) => forall|i: int, j: int| 0 <= i < j < f@.len() ==> (#[trigger] f@[i]).name != (#[trigger] f@[j]).name,
        _ => true }
{}
pub proof fn lemma_conf_unfold_any(m: Tys, id: SemId)
    ensures find_ty(m, id) is Some ==> forall|v: StrictVal| #![trigger conf(m, v, id)] #![trigger enc(m, v, id)] conf(m, v, id) == conf_ty(m, v, find_ty(m, id)->Some_0) && enc(m, v, id) == enc_ty(m, v, find_ty(m, id)->Some_0)
{ if find_ty(m, id) is Some { assert forall|v: StrictVal| #![trigger conf(m, v, id)] #![trigger enc(m, v, id)] conf(m, v, id) == conf_ty(m, v, find_ty(m, id)->Some_0) && enc(m, v, id) == enc_ty(m, v, find_ty(m, id)->Some_0) by { lemma_conf_unfold(m, v, id); } } }
/// What was read.
pub open spec fn shape(m: Tys, v: StrictVal, ty: Ty<SemId>, d0: Seq<u8>, d1: Seq<u8>) -> bool {
    match (v, ty) {
        (StrictVal::Unit, Ty::Primitive(p)) => p.code == 0 && (track() ==> d0 == d1),
        (StrictVal::Number(n), Ty::Primitive(p)) => num_conf(n, p) && (track() ==> d0 == num_le(n).take(prim_size(p.code)) + d1),
        (StrictVal::Bytes(b), Ty::Array(i, n)) => is_byte_id(i) && b@.len() == n && (track() ==> d0 == b@ + d1),
        (StrictVal::Bytes(b), Ty::List(i, z)) => is_byte_id(i) && (track() ==> d0 == prefix(b@.len(), z.max) + (b@ + d1)),
        (StrictVal::String(s), Ty::List(i, z)) => (track() ==> d0 == prefix(s@.len(), z.max) + (s@ + d1)),
        (StrictVal::String(s), Ty::Tuple(f)) => (track() ==> d0 == prefix(s@.len(), rs_sizing(m, f@).max) + (s@ + d1)),
        (StrictVal::List(l), Ty::Array(i, n)) => l@.len() == n && (forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i)) && (track() ==> d0 == enc_seq(m, l, i, l@.len() as int) + d1),
        (StrictVal::List(l), Ty::List(i, z)) => (forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i)) && (track() ==> d0 == prefix(l@.len(), z.max) + (enc_seq(m, l, i, l@.len() as int) + d1)),
        (StrictVal::Set(l), Ty::Set(i, z)) => (forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i)) && (track() ==> d0 == prefix(l@.len(), z.max) + (enc_seq(m, l, i, l@.len() as int) + d1)),
        (StrictVal::Map(l), Ty::Map(k, i, z)) => (forall|j: int| 0 <= j < l@.len() ==> conf(m, (#[trigger] l@[j]).0, k) && conf(m, l@[j].1, i)) && (track() ==> d0 == prefix(l@.len(), z.max) + (enc_pairs(m, l, k, i, l@.len() as int) + d1)),
        (StrictVal::Tuple(l), Ty::Tuple(f)) => !rstring(m, f@) && l@.len() == f@.len() && (forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], f@[j]))
            && (track() ==> exists|g: Vec<StrictVal>| g@ == l@ && d0 == #[trigger] enc_tup(m, g, f@, f@.len() as int) + d1),
        (StrictVal::Struct(x), Ty::Struct(f)) => x@.len() == f@.len() && in_order(x@, f@, f@.len() as int) && (forall|j: int| 0 <= j < f@.len() ==> conf(m, (#[trigger] x@[j]).1, f@[j].ty)) && (track() ==> d0 == enc_fields(m, x, f@, f@.len() as int) + d1),
        (StrictVal::Enum(t), Ty::Enum(vs)) => exists|i: int| ev_sel(vs@, t, i) && (track() ==> d0 == seq![(#[trigger] vs@[i]).tag] + d1),
        (StrictVal::Union(t, x), Ty::Union(vs)) => exists|i: int| uv_sel(vs@, t, i) && conf(m, *x, (#[trigger] vs@[i]).1) && (track() ==> d0 == seq![vs@[i].0.tag] + (enc(m, *x, vs@[i].1) + d1)),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn was_read(m: Tys, v: StrictVal, ty: Ty<SemId>, id: SemId, d0: Seq<u8>, d1: Seq<u8>) -> bool {
    (checked(m, v, ty) ==> conf(m, v, id) && (track() ==> d0 == enc(m, v, id) + d1)) && members_conf(m, v, ty)
}
pub open spec fn members_conf(m: Tys, v: StrictVal, ty: Ty<SemId>) -> bool {
    match (v, ty) {
        (StrictVal::Set(l), Ty::Set(i, _)) => forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i),
        (StrictVal::Map(l), Ty::Map(k, _, _)) => forall|j: int| 0 <= j < l@.len() ==> conf(m, (#[trigger] l@[j]).0, k),
        _ => true
    }
}
pub proof fn lemma_shape(m: Tys, v: StrictVal, ty: Ty<SemId>, id: SemId, d0: Seq<u8>, d1: Seq<u8>)
    requires find_ty(m, id) == Some(ty), shape(m, v, ty, d0, d1) ensures was_read(m, v, ty, id, d0, d1)
{
    broadcast use group_cat;
    reveal(conf_ty); reveal(enc_ty); reveal(was_read); lemma_conf_unfold(m, v, id); lemma_sel_unique(v, ty);
    match (v, ty) {
        (StrictVal::Tuple(l), Ty::Tuple(f)) => {
            if track() {
                let g = choose|g: Vec<StrictVal>| g@ == l@ && d0 == #[trigger] enc_tup(m, g, f@, f@.len() as int) + d1;
                lemma_enc_tup(m, g, l, f@, f@.len() as int);
            }
        }
        (StrictVal::Struct(x), Ty::Struct(f)) => {
            assert forall|j: int| 0 <= j < f@.len() implies ix_pos(x@, (#[trigger] f@[j]).name) == j && ix_has(x@, f@[j].name, j) by { assert(x@[j].0 == f@[j].name); assert(ix_has(x@, f@[j].name, j)); lemma_ix_pos(&x, f@[j].name, j); }
        }
        (StrictVal::Unit, _) => { assert(Seq::<u8>::empty() + d1 =~= d1); }
        _ => {}
    }
}
//@fn src/value/decode.rs check_len
//@ ret r
//@ subst ?confinement::Error::Undersize { len, min_len } ==> ConfinementError
//@ subst ?confinement::Error::Oversize { len, max_len } ==> ConfinementError
//@ sigsub confinement::Error ==> ConfinementError
//@ spec ensures r is Ok <==> within(len as nat, *sizing)
//@end
impl TypeSystem {
//@fn src/value/decode.rs TypeSystem::check_read
//@ ret r
//@ attr #[verifier::rlimit(30)]
//@ veciter
//@ subst ?BTreeSet::new() ==> ByteSet::new()
//@ spec requires members_conf(self@, *val, *ty)
//@ spec ensures r is Ok <==> checked(self@, *val, *ty)
//@ at start
 proof { reveal(distinct); reveal(distinct_keys); }
//@ loop 1
  *val == StrictVal::Set(*items), *ty == (Ty::Set(*id, *sizing)), __all1.len() == items@.len(), forall|i: int| #![trigger __all1[i]] 0 <= i < items@.len() ==> *__all1[i] == items@[i],
  forall|j: int| 0 <= j < items@.len() ==> conf(self@, #[trigger] items@[j], *id),
  forall|b: Seq<u8>| #[trigger] seen@.contains(b) <==> exists|j: int| 0 <= j < __it1.pos() && enc(self@, #[trigger] items@[j], *id) == b,
  forall|i: int, j: int| 0 <= i < j < __it1.pos() ==> enc(self@, #[trigger] items@[i], *id) != enc(self@, #[trigger] items@[j], *id),
//@ at at loop 1 start
 proof { reveal(distinct); }
//@ at at loop 2 start
 proof { reveal(distinct_keys); }
//@ loop 2
  ty is Map && ty->Map_0 == *key_id && ty->Map_2 == *sizing, *val == StrictVal::Map(*items), __all2.len() == items@.len(), forall|i: int| #![trigger __all2[i]] 0 <= i < items@.len() ==> *__all2[i] == items@[i],
  forall|j: int| 0 <= j < items@.len() ==> conf(self@, (#[trigger] items@[j]).0, *key_id),
  forall|b: Seq<u8>| #[trigger] seen@.contains(b) <==> exists|j: int| 0 <= j < __it2.pos() && enc(self@, (#[trigger] items@[j]).0, *key_id) == b,
  forall|i: int, j: int| 0 <= i < j < __it2.pos() ==> enc(self@, (#[trigger] items@[i]).0, *key_id) != enc(self@, (#[trigger] items@[j]).0, *key_id),
//@end
//@fn src/value/decode.rs TypeSystem::strict_read_list
//@ sig fn strict_read_list(&self, len: usize, ty: SemId, d: &mut impl ReadRaw) -> Result<Vec<StrictVal>, Error> ==> pub fn strict_read_list<D: VRead>(&self, len: usize, ty: SemId, d: &mut D) -> (r: Result<Vec<StrictVal>, Error>)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ subst ?let mut list = Vec::new(); ==> let mut list = Vec::<StrictVal>::new();
//@ spec requires wf_sys(self@)
//@ spec ensures r is Ok ==> (r->Ok_0)@.len() == len && (forall|j: int| 0 <= j < len ==> conf(self@, #[trigger] (r->Ok_0)@[j], ty)) && (track() ==> old(d).rest() == enc_seq(self@, r->Ok_0, ty, len as int) + final(d).rest() && final(d).total() == old(d).total())
//@ spec , ok(*old(d)) && goods(self@, rep(ty, len as int), old(d).rest()) ==> r is Ok
//@ spec , ok(*old(d)) && goods(self@, rep(ty, len as int), old(d).rest()) && r is Ok ==> final(d).mem() && final(d).rest() == ends(self@, rep(ty, len as int), len as int, old(d).rest()) && items(self@, (r->Ok_0)@, rep(ty, len as int), old(d).rest(), len as int)
//@ at start
 let ghost d0 = d.rest(); let ghost n0 = d.total(); let ghost f0 = rep(ty, len as int); let ghost acc = ok(*d) && goods(self@, f0, d0);
 proof { if acc { lemma_items0(self@, f0, d0); } }
//@ loop 1
  acc == (ok(*old(d)) && goods(self@, rep(ty, len as int), old(d).rest())),
  acc ==> takes() && f0 == rep(ty, len as int) && goods(self@, f0, d0) && ok(*d) && d.rest() == ends(self@, f0, list@.len() as int, d0) && items(self@, list@, f0, d0, list@.len() as int),
  wf_sys(self@), __all1.len() == len, list@.len() == __it1.pos(), forall|j: int| 0 <= j < list@.len() ==> conf(self@, #[trigger] list@[j], ty),
  track() ==> d0 == enc_seq(self@, list, ty, list@.len() as int) + d.rest() && d.total() == n0,
//@ at at loop 1 start
 let ghost l0 = list; broadcast use group_read;
 proof { if acc { lemma_item(self@, f0, l0@.len() as int, d0); } }
//@ at at loop 1 end
 proof { lemma_enc_seq(self@, l0, list, ty, l0@.len() as int); if acc { lemma_items(self@, l0@, list@, f0, d0, l0@.len() as int); } }
//@end
//@fn src/value/decode.rs TypeSystem::strict_read_map
//@ sig fn strict_read_map(&self, len: usize, key_ty: SemId, ty: SemId, d: &mut impl ReadRaw) -> Result<Vec<(StrictVal, StrictVal)>, Error> ==> pub fn strict_read_map<D: VRead>(&self, len: usize, key_ty: SemId, ty: SemId, d: &mut D) -> (r: Result<Vec<(StrictVal, StrictVal)>, Error>)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ subst ?let mut list = Vec::new(); ==> let mut list = Vec::<(StrictVal, StrictVal)>::new();
//@ spec requires wf_sys(self@)
//@ spec ensures r is Ok ==> (r->Ok_0)@.len() == len && (forall|j: int| 0 <= j < len ==> conf(self@, (#[trigger] (r->Ok_0)@[j]).0, key_ty) && conf(self@, (r->Ok_0)@[j].1, ty)) && (track() ==> old(d).rest() == enc_pairs(self@, r->Ok_0, key_ty, ty, len as int) + final(d).rest() && final(d).total() == old(d).total())
//@ spec , ok(*old(d)) && goods(self@, alt(key_ty, ty, len as int), old(d).rest()) ==> r is Ok
//@ spec , ok(*old(d)) && goods(self@, alt(key_ty, ty, len as int), old(d).rest()) && r is Ok ==> final(d).mem() && final(d).rest() == ends(self@, alt(key_ty, ty, len as int), 2 * len as int, old(d).rest()) && items(self@, flat((r->Ok_0)@), alt(key_ty, ty, len as int), old(d).rest(), 2 * len as int)
//@ at start
 let ghost d0 = d.rest(); let ghost n0 = d.total(); let ghost f0 = alt(key_ty, ty, len as int); let ghost acc = ok(*d) && goods(self@, f0, d0);
 proof { if acc { lemma_items0(self@, f0, d0); } }
//@ loop 1
  acc == (ok(*old(d)) && goods(self@, alt(key_ty, ty, len as int), old(d).rest())),
  acc ==> takes() && f0 == alt(key_ty, ty, len as int) && goods(self@, f0, d0) && ok(*d) && d.rest() == ends(self@, f0, 2 * list@.len() as int, d0) && items(self@, flat(list@), f0, d0, 2 * list@.len() as int),
  wf_sys(self@), __all1.len() == len, list@.len() == __it1.pos(), forall|j: int| 0 <= j < list@.len() ==> conf(self@, (#[trigger] list@[j]).0, key_ty) && conf(self@, list@[j].1, ty),
  track() ==> d0 == enc_pairs(self@, list, key_ty, ty, list@.len() as int) + d.rest() && d.total() == n0,
//@ at at loop 1 start
 let ghost l0 = list; broadcast use group_read;
 proof { if acc { lemma_item(self@, f0, 2 * l0@.len() as int, d0); lemma_item(self@, f0, 2 * l0@.len() as int + 1, d0); } }
//@ at at loop 1 end
 proof { lemma_enc_pairs(self@, l0, list, key_ty, ty, l0@.len() as int); if acc { let n = l0@.len() as int; assert(flat(list@)[2 * n] == list@[n].0 && flat(list@)[2 * n + 1] == list@[n].1); lemma_items2(self@, l0@, list@, f0, d0, n); } }
//@end
//@fn src/value/decode.rs TypeSystem::strict_read_ascii
//@ sig fn strict_read_ascii(&self, len: u64, d: &mut impl ReadRaw) -> Result<String, Error> ==> pub fn strict_read_ascii<D: VRead>(&self, len: u64, d: &mut D) -> (r: Result<String, Error>)
//@ subst ?confinement::Error::Oversize { len, max_len } ==> ConfinementError
//@ spec ensures r is Ok ==> ascii((r->Ok_0)@) && (r->Ok_0)@.len() == len && (track() ==> old(d).rest() == (r->Ok_0)@ + final(d).rest() && final(d).total() == old(d).total())
//@ spec , ok(*old(d)) && old(d).rest().len() >= len && ascii(old(d).rest().take(len as int)) ==> r is Ok
//@ spec , ok(*old(d)) && r is Ok ==> final(d).mem() && final(d).rest() == old(d).rest().skip(len as int) && (r->Ok_0)@ == old(d).rest().take(len as int)
//@end
//@fn src/value/decode.rs TypeSystem::strict_read_type
//@ sig fn strict_read_type(&self, sem_id: SemId, mut d: &mut impl ReadRaw) -> Result<TypedVal, Error> ==> pub fn strict_read_type<D: VRead>(&self, sem_id: SemId, d: &mut D) -> (r: Result<TypedVal, Error>)
//@ attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@ veciter
//@ subst ?let mut reader = StrictReader::with(d); ==>
//@ subst ?let d = reader.unbox(); ==>
//@ subst ?d = reader.unbox(); ==>
//@ subst ?& mut reader ==> d
//@ subst ?reader.unbox() ==> d
//@ subst ?Primitive::UNIT ==> Primitive { code: 0 }
//@ subst ?Primitive::BYTE ==> Primitive { code: 0x40 }
//@ subst ?Primitive::U8 ==> Primitive { code: 1 }
//@ subst ?Primitive::U16 ==> Primitive { code: 2 }
//@ subst ?Primitive::U24 ==> Primitive { code: 3 }
//@ subst ?Primitive::U32 ==> Primitive { code: 4 }
//@ subst ?Primitive::U40 ==> Primitive { code: 5 }
//@ subst ?Primitive::U48 ==> Primitive { code: 6 }
//@ subst ?Primitive::U56 ==> Primitive { code: 7 }
//@ subst ?Primitive::U64 ==> Primitive { code: 8 }
//@ subst ?Primitive::I8 ==> Primitive { code: 0x41 }
//@ subst ?Primitive::I16 ==> Primitive { code: 0x42 }
//@ subst ?Primitive::I32 ==> Primitive { code: 0x44 }
//@ subst ?Primitive::I64 ==> Primitive { code: 0x48 }
//@ subst ?u24::MAX.into_u64() ==> verif_u24_max()
//@ subst ?IndexMap::with_capacity ==> IxMap::with_capacity
//@ spec requires wf_sys(self@)
//@ spec ensures r is Ok ==> (r->Ok_0).orig.id == sem_id && conf(self@, (r->Ok_0).val, sem_id) && (told() ==> old(d).rest() == enc(self@, (r->Ok_0).val, sem_id) + final(d).rest() && final(d).total() == old(d).total())
//@ spec , ok(*old(d)) && good(self@, sem_id, old(d).rest()) ==> r is Ok
//@ spec , ok(*old(d)) && good(self@, sem_id, old(d).rest()) && r is Ok ==> final(d).mem() && final(d).rest() == end_of(self@, sem_id, old(d).rest())
//@ at start
 let ghost d0 = d.rest(); let ghost n0 = d.total(); let ghost id0 = sem_id; let ghost ty0 = find_ty(self@, id0)->Some_0;
 broadcast use group_read;
 proof { lemma_text8(); lemma_names(self@, sem_id); }
 let ghost acc = ok(*d) && good(self@, sem_id, d.rest()); let ghost e0 = end_of(self@, sem_id, d.rest());
 proof { if acc { lemma_good(self@, sem_id, d.rest()); } }
//@ at before loop 1
 let ghost d1 = d.rest(); proof { if acc { lemma_start(self@, reqs@, d1); } }
//@ loop 1
  acc == (ok(*old(d)) && good(self@, sem_id, old(d).rest())),
  acc ==> takes() && goods(self@, reqs@, d1) && ok(*d) && d.rest() == ends(self@, reqs@, fields@.len() as int, d1),
  wf_sys(self@), __all1.len() == reqs@.len(), forall|i: int| #![trigger __all1[i]] 0 <= i < reqs@.len() ==> *__all1[i] == reqs@[i],
  fields@.len() == __it1.pos(), forall|j: int| 0 <= j < fields@.len() ==> conf(self@, #[trigger] fields@[j], reqs@[j]),
  track() ==> d1 == enc_tup(self@, fields, reqs@, fields@.len() as int) + d.rest() && d.total() == n0,
//@ at at loop 1 start
 let ghost l0 = fields; broadcast use group_read;
 proof { if acc { lemma_item(self@, reqs@, l0@.len() as int, d1); } }
//@ at at loop 1 end
 proof { lemma_enc_tup(self@, l0, fields, reqs@, l0@.len() as int); }
//@ at after loop 1
 proof { assert(track() ==> d0 == d1); assert(!rstring(self@, reqs@)); if track() { assert(exists|g: Vec<StrictVal>| g@ == fields@ && d0 == #[trigger] enc_tup(self@, g, reqs@, reqs@.len() as int) + d.rest()) by { assert(fields@ == fields@ && d0 == enc_tup(self@, fields, reqs@, reqs@.len() as int) + d.rest()); } } }
//@ at before loop 2
 let ghost d2 = d.rest(); proof { if acc { lemma_start(self@, field_tys(reqs@), d2); } }
//@ loop 2
  acc == (ok(*old(d)) && good(self@, sem_id, old(d).rest())),
  acc ==> takes() && goods(self@, field_tys(reqs@), d2) && ok(*d) && d.rest() == ends(self@, field_tys(reqs@), fields@.len() as int, d2),
  wf_sys(self@), __all2.len() == reqs@.len(), forall|i: int| #![trigger __all2[i]] 0 <= i < reqs@.len() ==> *__all2[i] == reqs@[i],
  forall|i: int, j: int| 0 <= i < j < reqs@.len() ==> (#[trigger] reqs@[i]).name != (#[trigger] reqs@[j]).name,
  fields@.len() == __it2.pos(), in_order(fields@, reqs@, fields@.len() as int), forall|j: int| 0 <= j < fields@.len() ==> conf(self@, (#[trigger] fields@[j]).1, reqs@[j].ty),
  track() ==> d2 == enc_fields(self@, fields, reqs@, fields@.len() as int) + d.rest() && d.total() == n0,
//@ at at loop 2 start
 let ghost l0 = fields; broadcast use group_read;
 proof { if acc { lemma_item(self@, field_tys(reqs@), l0@.len() as int, d2); } }
//@ at at loop 2 end
 proof {
  lemma_enc_fields(self@, l0, fields, reqs@, l0@.len() as int);
  let n = l0@.len() as int; assert(ix_has(fields@, reqs@[n].name, n)); lemma_ix_pos(&fields, reqs@[n].name, n);
 }
//@ at before loop 3
 let ghost d3 = d.rest(); proof { if acc { lemma_start(self@, rep(*ty, *len as int), d3); } }
//@ loop 3
  acc == (ok(*old(d)) && good(self@, sem_id, old(d).rest())),
  acc ==> takes() && goods(self@, rep(*ty, *len as int), d3) && ok(*d) && d.rest() == ends(self@, rep(*ty, *len as int), list@.len() as int, d3),
  wf_sys(self@), __all3.len() == *len, list@.len() == __it3.pos(), forall|j: int| 0 <= j < list@.len() ==> conf(self@, #[trigger] list@[j], *ty),
  track() ==> d3 == enc_seq(self@, list, *ty, list@.len() as int) + d.rest() && d.total() == n0,
//@ at at loop 3 start
 let ghost l0 = list; broadcast use group_read;
 proof { if acc { lemma_item(self@, rep(*ty, *len as int), l0@.len() as int, d3); } }
//@ at at loop 3 end
 proof { lemma_enc_seq(self@, l0, list, *ty, l0@.len() as int); }
//@ at tails of val
 proof { if !takes() && __v is Tuple { assert(ty0 is Tuple); assert(!rstring(self@, ty0->Tuple_0@)); assert((__v->Tuple_0)@.len() == ty0->Tuple_0@.len()); assert forall|j: int| 0 <= j < (__v->Tuple_0)@.len() implies conf(self@, #[trigger] (__v->Tuple_0)@[j], ty0->Tuple_0@[j]) by {} if track() { assert(exists|g: Vec<StrictVal>| g@ == (__v->Tuple_0)@ && d0 == #[trigger] enc_tup(self@, g, ty0->Tuple_0@, ty0->Tuple_0@.len() as int) + d.rest()); } } if !takes() { lemma_sel_unique(__v, ty0); lemma_shape(self@, __v, ty0, id0, d0, d.rest()); } if acc { assert(d.mem()); lemma_checked(self@, __v, ty0, d0, d.rest(), e0); } }
//@ at after let val
 proof { reveal(was_read); assert(acc ==> checked(self@, val, ty0)); assert(acc ==> d.rest() == e0 && d.mem()); if takes() { was_read_elsewhere(self@, val, ty0, sem_id, d0, d.rest(), n0, d.total()); } }
//@end
//@fn src/value/decode.rs TypeSystem::strict_deserialize_type
//@ ret r
//@ spec requires wf_sys(self@)
//@ spec ensures r is Ok ==> (r->Ok_0).orig.id == sem_id && conf(self@, (r->Ok_0).val, sem_id) && (told() ==> data@ == enc(self@, (r->Ok_0).val, sem_id))
//@ spec , takes() && data@.len() <= u32max() && good(self@, sem_id, data@) && end_of(self@, sem_id, data@).len() == 0 ==> r is Ok
//@ at start
 broadcast use group_read;
//@ at after let ty
 proof { if cursor.rest().len() == 0 { assert(cursor.rest() =~= Seq::<u8>::empty()); } }
//@end
}
//@include sys_wrap.vrs
impl SymbolicSys {
//@fn src/value/decode.rs SymbolicSys::strict_deserialize_type
//@ ret r
//@ sigsub impl Into<TypeSpec> ==> TypeSpec
//@ subst ?spec.into() ==> spec
//@ spec requires wf_sys(self.types@)
//@ spec ensures r is Ok ==> denotes(*self, spec) == Some((r->Ok_0).orig.id) && conf(self.types@, (r->Ok_0).val, (r->Ok_0).orig.id) && (told() ==> data@ == enc(self.types@, (r->Ok_0).val, (r->Ok_0).orig.id))
//@end
//@fn src/value/decode.rs SymbolicSys::strict_read_type
//@ sig fn strict_read_type(&self, spec: impl Into<TypeSpec>, d: &mut impl ReadRaw) -> Result<TypedVal, Error> ==> pub fn strict_read_type<D: VRead>(&self, spec: TypeSpec, d: &mut D) -> (r: Result<TypedVal, Error>)
//@ subst ?spec.into() ==> spec
//@ spec requires wf_sys(self.types@)
//@ spec ensures r is Ok ==> denotes(*self, spec) == Some((r->Ok_0).orig.id) && conf(self.types@, (r->Ok_0).val, (r->Ok_0).orig.id) && (told() ==> old(d).rest() == enc(self.types@, (r->Ok_0).val, (r->Ok_0).orig.id) + final(d).rest() && final(d).total() == old(d).total())
//@end
}
