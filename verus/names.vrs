// ---------------------------------------------------------------------------------------------
// Dependency types (strict_encoding / amplify): assumed contracts.
// ---------------------------------------------------------------------------------------------
/// The bytes of an identifier determine it; identifiers have 1..=100 bytes (strict_encoding RString bound).
#[verifier::external_body] #[derive(Debug)] pub struct VariantName { s: String }
#[verifier::external_body] #[derive(Debug)] pub struct FieldName { s: String }
#[verifier::external_body] #[derive(Debug)] pub struct TypeName { s: String }
#[verifier::external_body] #[derive(Debug)] pub struct LibName { s: String }
macro_rules! name_standin { ($t:ident, $ax:ident, $lax:ident) => { verus! {
    impl $t {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: &str) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self.bytes().len(), 1 <= r <= 255 { unimplemented!() }
        #[verifier::external_body]
        pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes(), 1 <= r@.len() <= 255 { unimplemented!() }
    }
    pub broadcast axiom fn $ax(a: $t, b: $t) ensures #[trigger] a.bytes() == #[trigger] b.bytes() ==> a == b;
    pub broadcast axiom fn $lax(a: $t) ensures 1 <= #[trigger] a.bytes().len() <= 255;
    impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl SClone for $t { open spec fn sclone(&self) -> Self { *self } }
    impl PartialEq for $t { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
    impl Eq for $t {}
    impl vstd::std_specs::cmp::PartialEqSpecImpl for $t {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Self) -> bool { self == o }
    }
} } }
name_standin!(VariantName, variant_name_ext, variant_name_len);
name_standin!(FieldName, field_name_ext, field_name_len);
name_standin!(TypeName, type_name_ext, type_name_len);
name_standin!(LibName, lib_name_ext, lib_name_len);
#[verifier::opaque]
pub open spec fn lit_bytes(s: &str) -> Seq<u8> { Seq::new(s@.len(), |i: int| s@[i] as u8) }
#[verifier::external_body]
pub fn verif_vname(s: &'static str) -> (r: VariantName) ensures r.bytes() == lit_bytes(s) { unimplemented!() }
#[verifier::external_body]
pub fn verif_fname(s: &'static str) -> (r: FieldName) ensures r.bytes() == lit_bytes(s) { unimplemented!() }
#[verifier::external_body]
pub fn verif_tn(s: &'static str) -> (r: TypeName) ensures r.bytes() == lit_bytes(s) { unimplemented!() }

/// strict_encoding::Variant.  Its `==` (same tag or same name) is not used by the code under contract.
pub struct Variant { pub name: VariantName, pub tag: u8 }
impl SClone for Variant { open spec fn sclone(&self) -> Self { *self } }
impl Clone for Variant { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct Sizing { pub min: u64, pub max: u64 }
impl Sizing {
    pub fn fixed(len: u64) -> (r: Sizing) ensures r.min == len, r.max == len { Sizing { min: len, max: len } }
    pub fn check(&self, len: usize) -> (r: bool) ensures r == (self.min <= len <= self.max) { len as u64 >= self.min && len as u64 <= self.max }
}
#[derive(Copy, Clone)]
pub struct Primitive { pub code: u8 }
impl Primitive {
    pub fn into_code(self) -> (r: u8) ensures r == self.code { self.code }
}

/// `NonEmptyOrdMap<Variant, Ref, 255>`: at most one entry per tag, in ascending tag order (Variant's Ord).
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct VariantMap<R> { v: Vec<(Variant, R)> }
pub open spec fn tags_ascend<R>(s: Seq<(Variant, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.tag < (#[trigger] s[j]).0.tag }
pub open spec fn vm_wf<R>(s: Seq<(Variant, R)>) -> bool { 1 <= s.len() <= 255 && tags_ascend(s) }
pub broadcast axiom fn variant_map_wf<R>(m: &VariantMap<R>) ensures vm_wf(#[trigger] m@);
pub open spec fn ref_pairs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
pub open spec fn ref_keys<'a, K, V>(s: Seq<(K, V)>) -> Seq<&'a K> { Seq::new(s.len(), |i: int| &s[i].0) }
pub open spec fn ref_vals<'a, K, V>(s: Seq<(K, V)>) -> Seq<&'a V> { Seq::new(s.len(), |i: int| &s[i].1) }
impl<R> VariantMap<R> {
    pub uninterp spec fn view(&self) -> Seq<(Variant, R)>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), vm_wf(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len_u8(&self) -> (r: u8) ensures r == self@.len(), vm_wf(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures !r, vm_wf(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VIter<(&Variant, &R)>) ensures r.fresh(ref_pairs(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> r.rem()[i] == (&self@[i].0, &self@[i].1) && r.all()[i] == (&self@[i].0, &self@[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIter<(&Variant, &R)>) ensures r.fresh(ref_pairs(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> r.rem()[i] == (&self@[i].0, &self@[i].1) && r.all()[i] == (&self@[i].0, &self@[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VIter<&Variant>) ensures r.fresh(ref_keys(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i].0 && *r.all()[i] == self@[i].0 { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: VIter<&R>) ensures r.fresh(ref_vals(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i].1 && *r.all()[i] == self@[i].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (r: Option<(&Variant, &R)>) ensures r == Some((&self@[0].0, &self@[0].1)), vm_wf(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value(&self) -> (r: Option<(&Variant, &R)>) ensures r == Some((&self@[self@.len() - 1].0, &self@[self@.len() - 1].1)), vm_wf(self@) { unimplemented!() }
}
impl<'a, R> VIntoIter for &'a VariantMap<R> {
    type VItem = (&'a Variant, &'a R);
    open spec fn vseq(self) -> Seq<(&'a Variant, &'a R)> { ref_pairs(self@) }
    open spec fn vfacts(self, s: Seq<(&'a Variant, &'a R)>) -> bool { vm_wf(self@) && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> s[i] == (&self@[i].0, &self@[i].1) }
    #[verifier::external_body]
    fn viter(self) -> VIter<(&'a Variant, &'a R)> { unimplemented!() }
}
/// `NonEmptyOrdSet<Variant, 255>`.
#[verifier::external_body]
pub struct VariantSet { v: Vec<Variant> }
pub open spec fn vs_wf(s: Seq<Variant>) -> bool { 1 <= s.len() <= 255 && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).tag < (#[trigger] s[j]).tag }
pub broadcast axiom fn variant_set_wf(m: &VariantSet) ensures vs_wf(#[trigger] m@);
impl VariantSet {
    pub uninterp spec fn view(&self) -> Seq<Variant>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), vs_wf(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len_u8(&self) -> (r: u8) ensures r == self@.len(), vs_wf(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VIter<&Variant>) ensures r.fresh(refs(self@)), vs_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIter<&Variant>) ensures r.fresh(refs(self@)), vs_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { unimplemented!() }
}
impl<'a> VIntoIter for &'a VariantSet {
    type VItem = &'a Variant;
    open spec fn vseq(self) -> Seq<&'a Variant> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a Variant>) -> bool { vs_wf(self@) && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    #[verifier::external_body]
    fn viter(self) -> VIter<&'a Variant> { unimplemented!() }
}
