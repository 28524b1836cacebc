// ---------------------------------------------------------------------------------------------
// C01/C02: commitments (src/ast/id.rs): what is fed to the hash, and that it determines the content.
// ---------------------------------------------------------------------------------------------
/// What can be handed to a hasher: `impl AsRef<[u8]>`.
pub trait VBytes: Sized { spec fn vbytes(self) -> Seq<u8>; }
impl<const N: usize> VBytes for [u8; N] { open spec fn vbytes(self) -> Seq<u8> { self@ } }
impl<'a> VBytes for &'a [u8] { open spec fn vbytes(self) -> Seq<u8> { self@ } }
impl<'a> VBytes for &'a Vec<u8> { open spec fn vbytes(self) -> Seq<u8> { self@ } }
/// Brings the definitions of `vbytes` into the scope of its callers.
pub proof fn link_bytes() ensures forall|a: [u8; 1]| #[trigger] a.vbytes() == a@, forall|a: [u8; 2]| #[trigger] a.vbytes() == a@, forall|a: [u8; 8]| #[trigger] a.vbytes() == a@, forall|a: [u8; 3]| #[trigger] a.vbytes() == a@, forall|a: &[u8]| #[trigger] a.vbytes() == a@, forall|a: &Vec<u8>| #[trigger] a.vbytes() == a@, forall|a: Digest32| #[trigger] a.vbytes() == a.b@ { }
pub trait CommitConsume: Sized {
    spec fn consumed(&self) -> Seq<u8>;
    fn commit_consume<B: VBytes>(&mut self, data: B) ensures final(self).consumed() == old(self).consumed() + data.vbytes();
}
/// SHA-256 of a byte string: some function of the bytes.
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
/// What the `sha2` crate returns from `finalize`.
#[derive(Copy, Clone)]
pub struct Digest32 { pub b: [u8; 32] }
impl VBytes for Digest32 { open spec fn vbytes(self) -> Seq<u8> { self.b@ } }
pub mod sha2 {
    pub trait Digest {}
    use super::*;
    #[verifier::external_body]
    pub struct Sha256 { v: Vec<u8> }
    impl Sha256 {
        pub uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn new_with_prefix<B: VBytes>(b: B) -> (r: Self) ensures r.fed() == b.vbytes() { unimplemented!() }
        #[verifier::external_body]
        pub fn update<B: VBytes>(&mut self, b: B) ensures final(self).fed() == old(self).fed() + b.vbytes() { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(self) -> (r: Digest32) ensures r.b@ == sha256(self.fed()) { unimplemented!() }
    }
}
pub use self::sha2::Sha256;
impl CommitConsume for Sha256 {
    open spec fn consumed(&self) -> Seq<u8> { self.fed() }
//@fn src/lib.rs <sha2::Sha256 as CommitConsume>::commit_consume
//@ sig fn commit_consume(&mut self, data: impl AsRef<[u8]>) ==> fn commit_consume<B: VBytes>(&mut self, data: B)
//@ at start
 let ghost __c = self.consumed();
//@end
}
pub assume_specification<T: Clone> [<[T]>::to_vec] (x: &[T]) -> (r: Vec<T>) ensures r@.len() == x@.len(), forall|i: int| 0 <= i < r@.len() ==> cloned(x@[i], #[trigger] r@[i]);
/// `Extend` of a vector by bytes.
pub trait VExtend: Sized { spec fn vec_bytes(&self) -> Seq<u8>; fn verif_extend<B: VBytes>(&mut self, b: B) ensures final(self).vec_bytes() == old(self).vec_bytes() + b.vbytes(); }
impl VExtend for Vec<u8> { open spec fn vec_bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn verif_extend<B: VBytes>(&mut self, b: B) { unimplemented!() } }
pub open spec fn le16(x: u16) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8] }
/// `to_le_bytes` of the integers.
pub trait VLe: Sized { type Out; spec fn le(self) -> Seq<u8>; spec fn out(o: Self::Out) -> Seq<u8>; fn verif_le(self) -> (r: Self::Out) ensures Self::out(r) == self.le(); }
impl VLe for u16 { type Out = [u8; 2]; open spec fn le(self) -> Seq<u8> { le16(self) } open spec fn out(o: [u8; 2]) -> Seq<u8> { o@ } #[verifier::external_body] fn verif_le(self) -> [u8; 2] { self.to_le_bytes() } }
impl VLe for u64 { type Out = [u8; 8]; open spec fn le(self) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(self) } open spec fn out(o: [u8; 8]) -> Seq<u8> { o@ } #[verifier::external_body] fn verif_le(self) -> [u8; 8] { self.to_le_bytes() } }
/// Codes none of which is the beginning of another.
pub open spec fn apart(a: Seq<u8>, b: Seq<u8>) -> bool { (a.is_prefix_of(b) || b.is_prefix_of(a)) ==> a == b }
pub proof fn lemma_cancel(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires apart(a, b), a + x == b + y ensures a == b, x == y
{
    let s = a + x;
    assert(s.subrange(0, a.len() as int) =~= a); assert(s.subrange(0, b.len() as int) =~= b);
    if a.len() <= b.len() { assert(b.subrange(0, a.len() as int) =~= a); assert(a.is_prefix_of(b)); } else { assert(a.subrange(0, b.len() as int) =~= b); assert(b.is_prefix_of(a)); }
    assert(s.skip(a.len() as int) =~= x); assert(s.skip(b.len() as int) =~= y);
}
pub proof fn lemma_apart_len(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len() ensures apart(a, b)
{ if a.is_prefix_of(b) { assert(a =~= b.subrange(0, a.len() as int)); assert(a =~= b); } if b.is_prefix_of(a) { assert(b =~= a); } }
pub proof fn lemma_apart_cat(a1: Seq<u8>, a2: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>)
    requires apart(a1, b1), a2.len() == b2.len() ensures apart(a1 + a2, b1 + b2)
{
    let a = a1 + a2; let b = b1 + b2;
    if a.is_prefix_of(b) { let t = b.skip(a.len() as int); assert(b =~= a + t); assert(a1 + (a2 + t) =~= a + t); assert(a1 + (a2 + t) =~= b1 + b2); lemma_cancel(a1, b1, a2 + t, b2); assert(t.len() == 0); assert(a =~= b); }
    if b.is_prefix_of(a) { let t = a.skip(b.len() as int); assert(a =~= b + t); assert(b1 + (b2 + t) =~= b + t); assert(b1 + (b2 + t) =~= a1 + a2); lemma_cancel(b1, a1, b2 + t, a2); assert(t.len() == 0); assert(a =~= b); }
}
/// One code after the other.
pub open spec fn flat(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
pub proof fn lemma_flat_first(s: Seq<Seq<u8>>)
    requires s.len() > 0 ensures flat(s) == s[0] + flat(s.skip(1)) decreases s.len()
{
    if s.len() == 1 { assert(s.skip(1).len() == 0); assert(s.drop_last().len() == 0); assert(flat(s.drop_last()) =~= Seq::empty()); assert(flat(s) =~= s[0] + flat(s.skip(1))); }
    else { lemma_flat_first(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(flat(s) =~= s[0] + (flat(s.drop_last().skip(1)) + s.last())); }
}
/// Lists of codes which are not empty and apart from each other are told apart by their bytes.
pub proof fn lemma_flat_inj(s: Seq<Seq<u8>>, t: Seq<Seq<u8>>)
    requires flat(s) == flat(t),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() > 0,
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < t.len() ==> apart(#[trigger] s[i], #[trigger] t[j]),
    ensures s == t decreases s.len()
{
    if s.len() > 0 { lemma_flat_first(s); }
    if t.len() > 0 { lemma_flat_first(t); }
    if s.len() == 0 || t.len() == 0 { if s.len() > 0 { assert(s[0].len() > 0); assert(flat(s).len() > 0); } if t.len() > 0 { assert(t[0].len() > 0); assert(flat(t).len() > 0); } assert(s =~= t); }
    else {
        assert(apart(s[0], t[0]));
        lemma_cancel(s[0], t[0], flat(s.skip(1)), flat(t.skip(1)));
        assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i]).len() > 0 by { assert(s[i + 1].len() > 0); }
        assert forall|i: int| 0 <= i < t.skip(1).len() implies (#[trigger] t.skip(1)[i]).len() > 0 by { assert(t[i + 1].len() > 0); }
        assert forall|i: int, j: int| 0 <= i < s.skip(1).len() && 0 <= j < t.skip(1).len() implies apart(#[trigger] s.skip(1)[i], #[trigger] t.skip(1)[j]) by { assert(apart(s[i + 1], t[j + 1])); }
        lemma_flat_inj(s.skip(1), t.skip(1));
        assert(s =~= seq![s[0]] + s.skip(1)); assert(t =~= seq![t[0]] + t.skip(1));
    }
}
pub trait SemCommit: Sized {
    /// the bytes the value commits to
    spec fn commits(&self) -> Seq<u8>;
    fn sem_commit<H: CommitConsume>(&self, hasher: &mut H) ensures final(hasher).consumed() == old(hasher).consumed() + self.commits();
}
pub open spec fn codes<T: SemCommit>(s: Seq<T>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].commits()) }
pub proof fn lemma_codes_next<T: SemCommit>(s: Seq<T>, i: int, o: Seq<u8>)
    requires 0 <= i < s.len() ensures o + flat(codes(s.take(i + 1))) == o + flat(codes(s.take(i))) + s[i].commits()
{ assert(codes(s.take(i + 1)).drop_last() =~= codes(s.take(i))); assert(codes(s.take(i + 1)).last() == s[i].commits()); assert(o + flat(codes(s.take(i + 1))) =~= o + flat(codes(s.take(i))) + s[i].commits()); }
pub proof fn lemma_codes_ends<T: SemCommit>(s: Seq<T>, o: Seq<u8>)
    ensures o + flat(codes(s.take(0))) == o, s.take(s.len() as int) == s
{ assert(codes(s.take(0)).len() == 0); assert(o + flat(codes(s.take(0))) =~= o); assert(s.take(s.len() as int) =~= s); }
pub open spec fn name_code(b: Seq<u8>) -> Seq<u8> { seq![b.len() as u8] + b }
pub proof fn lemma_name_apart(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= 255, b.len() <= 255 ensures apart(name_code(a), name_code(b)), name_code(a) == name_code(b) ==> a == b
{
    let (x, y) = (name_code(a), name_code(b));
    assert(x[0] == a.len() as u8 && y[0] == b.len() as u8);
    if x.is_prefix_of(y) || y.is_prefix_of(x) {
        if x.is_prefix_of(y) { assert(y.subrange(0, x.len() as int)[0] == y[0]); } else { assert(x.subrange(0, y.len() as int)[0] == x[0]); }
        assert(a.len() == b.len()); lemma_apart_len(x, y);
    }
    if x == y { assert(a =~= x.skip(1)); assert(b =~= y.skip(1)); }
}
impl SemCommit for LibName {
    open spec fn commits(&self) -> Seq<u8> { name_code(self.bytes()) }
//@fn src/ast/id.rs <LibName as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { assert(__h0 + seq![self.bytes().len() as u8] + self.bytes() =~= __h0 + name_code(self.bytes())); assert([self.bytes().len() as u8]@ =~= seq![self.bytes().len() as u8]); }
//@end
}
impl SemCommit for TypeName {
    open spec fn commits(&self) -> Seq<u8> { name_code(self.bytes()) }
//@fn src/ast/id.rs <TypeName as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { assert(__h0 + seq![self.bytes().len() as u8] + self.bytes() =~= __h0 + name_code(self.bytes())); assert([self.bytes().len() as u8]@ =~= seq![self.bytes().len() as u8]); }
//@end
}
impl SemCommit for FieldName {
    open spec fn commits(&self) -> Seq<u8> { name_code(self.bytes()) }
//@fn src/ast/id.rs <FieldName as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { assert(__h0 + seq![self.bytes().len() as u8] + self.bytes() =~= __h0 + name_code(self.bytes())); assert([self.bytes().len() as u8]@ =~= seq![self.bytes().len() as u8]); }
//@end
}
impl SemCommit for VariantName {
    open spec fn commits(&self) -> Seq<u8> { name_code(self.bytes()) }
//@fn src/ast/id.rs <VariantName as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { assert(__h0 + seq![self.bytes().len() as u8] + self.bytes() =~= __h0 + name_code(self.bytes())); assert([self.bytes().len() as u8]@ =~= seq![self.bytes().len() as u8]); }
//@end
}
impl SemCommit for SemId {
    open spec fn commits(&self) -> Seq<u8> { self.bytes() }
//@fn src/ast/id.rs <SemId as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
impl SemId {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_byte_array(d: Digest32) -> (r: Self) ensures r.bytes() == d.b@ { unimplemented!() }
}
pub broadcast axiom fn sem_id_len(a: SemId) ensures #[trigger] a.bytes().len() == 32;
pub broadcast axiom fn sem_id_ext(a: SemId, b: SemId) ensures #[trigger] a.bytes() == #[trigger] b.bytes() ==> a == b;
