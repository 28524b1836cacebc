// Shared by the checker and the reader of values
#[verifier::external_body] pub fn verif_s(s: &str) -> (r: String) { unimplemented!() }
//@item src/value/typify.rs TypeSpec
impl Clone for TypeSpec { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SClone for TypeSpec { open spec fn sclone(&self) -> Self { *self } }
impl From<SemId> for TypeSpec { #[verifier::external_body] fn from(id: SemId) -> (r: TypeSpec) { unimplemented!() } }
impl TypeSpec { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
/// `BTreeSet<Vec<u8>>`
pub struct ByteSet { pub v: Ghost<Set<Seq<u8>>> }
impl ByteSet {
    pub open spec fn view(&self) -> Set<Seq<u8>> { self.v@ }
    pub fn new() -> (r: ByteSet) ensures r@ == Set::<Seq<u8>>::empty() { ByteSet { v: Ghost(Set::empty()) } }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
}
impl TypeSymbol {
//@fn src/typesys/translate.rs TypeSymbol::unnamed
//@ ret r
//@ spec ensures r.id == id
//@end
}
