// ---------------------------------------------------------------------------------------------
// Strict values (src/value/val.rs); definitions extracted, containers replaced by stand-ins.
// ---------------------------------------------------------------------------------------------
#[verifier::external_body] #[derive(Copy, Clone, Debug)] pub struct u1024 { v: [u64; 16] }
#[verifier::external_body] #[derive(Copy, Clone, Debug)] pub struct i1024 { v: [u64; 16] }
/// indexmap `IndexMap<K, V>`: entries in insertion order, keys distinct.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IxMap<K, V> { v: Vec<(K, V)> }
pub open spec fn ix_wf<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub broadcast axiom fn ix_map_wf<K, V>(m: &IxMap<K, V>) ensures ix_wf(#[trigger] m@);
impl<K, V> IxMap<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures ix_wf(final(self)@), r is None ==> final(self)@ == old(self)@.push((k, v)),
            r is Some ==> exists|i: int| 0 <= i < old(self)@.len() && (#[trigger] old(self)@[i]).0 == k && r->Some_0 == old(self)@[i].1 && final(self)@ == old(self)@.update(i, (k, v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures ix_wf(self@),
            r is Some ==> exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == *k && self@[i].1 == *(r->Some_0),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).0 != *k { unimplemented!() }
}
pub broadcast axiom fn ix_map_smaller<K, V>(m: &IxMap<K, V>, i: int) requires 0 <= i < m@.len() ensures #[trigger] (decreases_to!(*m => m@[i]));
//@item src/value/val.rs StrictNum ;; #[derive(Copy, Clone)]
//@item src/value/val.rs EnumTag
//@item src/value/val.rs Blob
//@item src/value/val.rs StrictVal ;; ;; IndexMap<FieldName, StrictVal> ==> IxMap<FieldName, StrictVal>
impl Clone for StrictVal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for EnumTag { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// The derived `==` of values (structural, field order of structures apart).
pub uninterp spec fn sv_eq(a: StrictVal, b: StrictVal) -> bool;
/// The derived `==` holds with the unit value for the unit value alone.
pub broadcast axiom fn sv_eq_unit(a: StrictVal) ensures #[trigger] sv_eq(a, StrictVal::Unit) <==> a is Unit;
impl PartialEq for StrictVal { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for StrictVal {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { sv_eq(*self, *o) }
}
impl Blob {
    pub open spec fn view(&self) -> Seq<u8> { self.0@ }
    // derived wrapper operations
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { self.0.as_slice() }
    #[verifier::external_body]
    pub fn to_inner(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
impl std::ops::Deref for Blob {
    type Target = [u8];
    // derived wrapper operation
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { self.0.as_slice() }
}
/// What `String::from_utf8` decodes, if the bytes are UTF-8.
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
