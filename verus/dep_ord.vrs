// ---------------------------------------------------------------------------------------------
// The order of dependencies (src/typelib/type_lib.rs), on which sets of them rest
// ---------------------------------------------------------------------------------------------
/// The order of ids: equal only for the same id (a derived one, of their bytes).
pub uninterp spec fn lib_id_order(a: TypeLibId, b: TypeLibId) -> core::cmp::Ordering;
#[verifier::external_body]
pub broadcast proof fn axiom_lib_id_order(a: TypeLibId, b: TypeLibId) ensures #[trigger] lib_id_order(a, b) == core::cmp::Ordering::Equal <==> a == b { }
impl TypeLibId {
    #[verifier::external_body]
    pub fn cmp(&self, o: &Self) -> (r: core::cmp::Ordering) ensures r == lib_id_order(*self, *o) { unimplemented!() }
}
/// Which dependencies a set holds for the same one.
impl Dependency {
//@fn src/typelib/type_lib.rs <Dependency as Ord>::cmp
//@ ret r
//@ sigsub Ordering ==> core::cmp::Ordering
//@ spec ensures r == lib_id_order(self.id, other.id)
//@end
//@fn src/typelib/type_lib.rs <Dependency as PartialOrd>::partial_cmp
//@ ret r
//@ sigsub Ordering ==> core::cmp::Ordering
//@ spec ensures r == Some(lib_id_order(self.id, other.id))
//@end
}
/// The sets below are right about dependencies: two of them are the same one exactly when their ids are equal.
pub fn client_same_dependency(a: &Dependency, b: &Dependency) -> (r: bool) ensures r == (a.id == b.id)
{
    broadcast use axiom_lib_id_order;
    match a.cmp(b) { core::cmp::Ordering::Equal => true, _ => false }
}
