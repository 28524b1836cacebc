// ---------------------------------------------------------------------------------------------
// Libraries and sets of dependencies (src/typelib/type_lib.rs): `Dependency` is ordered by its id
// alone, so a set of dependencies is a set of ids.
// ---------------------------------------------------------------------------------------------
/// 32 bytes
#[verifier::external_body] #[derive(Debug, Copy)] pub struct TypeLibId { b: [u8; 32] }
impl Clone for TypeLibId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for TypeLibId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq for TypeLibId {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeLibId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self == o }
}
//@item src/typelib/type_lib.rs Dependency
impl Clone for Dependency { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// `s` has one dependency for each of the ids.
pub open spec fn lists_deps(m: Set<TypeLibId>, s: Seq<Dependency>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains((#[trigger] s[i]).id)
    &&& forall|k: TypeLibId| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id
}
pub open spec fn has_dep(s: Seq<Dependency>, id: TypeLibId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == id }
macro_rules! dep_set { ($t:ident) => { verus! {
    #[verifier::external_body]
    pub struct $t { v: Vec<Dependency> }
    impl $t {
        pub uninterp spec fn view(&self) -> Set<TypeLibId>;
        pub uninterp spec fn seq(&self) -> Seq<Dependency>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<TypeLibId>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, k: &Dependency) -> (r: bool) ensures r == self@.contains(k.id) { unimplemented!() }
        pub open spec fn spec_contains(&self, k: &Dependency) -> bool { self@.contains(k.id) }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ == Set::<TypeLibId>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn into_iter(self) -> (r: VIter<Dependency>) ensures r.fresh(self.seq()), lists_deps(self@, self.seq()) { unimplemented!() }
        #[verifier::external_body]
        pub fn iter<'a>(&'a self) -> (r: VIter<&'a Dependency>) ensures r.fresh(refs(self.seq())), lists_deps(self@, self.seq()),
            forall|i: int| #![trigger self.seq()[i]] #![trigger r.rem()[i]] 0 <= i < self.seq().len() ==> *r.rem()[i] == self.seq()[i] && *r.all()[i] == self.seq()[i] { unimplemented!() }
    }
    impl VIntoIter for $t {
        type VItem = Dependency;
        open spec fn vseq(self) -> Seq<Dependency> { self.seq() }
        open spec fn vfacts(self, s: Seq<Dependency>) -> bool { lists_deps(self@, s) }
        #[verifier::external_body]
        fn viter(self) -> VIter<Dependency> { unimplemented!() }
    }
    impl<'a> VIntoIter for &'a $t {
        type VItem = &'a Dependency;
        open spec fn vseq(self) -> Seq<&'a Dependency> { refs(self.seq()) }
        open spec fn vfacts(self, s: Seq<&'a Dependency>) -> bool { lists_deps(self@, self.seq()) && forall|i: int| #![trigger self.seq()[i]] #![trigger s[i]] 0 <= i < self.seq().len() ==> *s[i] == self.seq()[i] }
        #[verifier::external_body]
        fn viter(self) -> VIter<&'a Dependency> { unimplemented!() }
    }
} } }
dep_set!(DepTree);
dep_set!(SmallDepSet);
dep_set!(TinyDepSet);
impl DepTree {
    #[verifier::external_body]
    pub fn insert(&mut self, k: Dependency) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.id), r == !old(self)@.contains(k.id) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Dependency) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.id), r == old(self)@.contains(k.id) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, it: VIter<Dependency>)
        ensures forall|k: TypeLibId| #![trigger old(self)@.contains(k)] #![trigger final(self)@.contains(k)] final(self)@.contains(k) <==> old(self)@.contains(k) || has_dep(it.rem(), k) { unimplemented!() }
}
impl SmallDepSet {
    #[verifier::external_body]
    pub fn try_from_iter(it: DepTree) -> (r: Result<Self, ConfinementError>)
        ensures r is Ok ==> (r->Ok_0)@ == it@, r is Err <==> it@.len() > 65535 { unimplemented!() }
}
impl Clone for TinyDepSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl TinyDepSet {
    #[verifier::external_body]
    pub fn from_checked(m: DepTree) -> (r: Self) requires m@.len() <= 255 ensures r@ == m@ { unimplemented!() }
    #[verifier::external_body]
    pub proof fn bounds(&self) ensures self@.len() <= 255 { }
    #[verifier::external_body]
    pub proof fn listed(&self) ensures lists_deps(self@, self.seq()) { }
}
