impl Dependency {
//@fn src/typelib/type_lib.rs <Dependency as From<&TypeLib>>::from
//@ ret r
//@ spec ensures r.id == lib_id(*lib), r.name == lib.name
//@end
}
impl TypeFqn {
    #[verifier::external_body] pub fn with(lib: LibName, name: TypeName) -> (r: Self) { unimplemented!() }
}
impl SymTy {
    #[verifier::external_body] pub fn named(lib_name: LibName, ty_name: TypeName, ty: Ty<SemId>) -> (r: Self) { unimplemented!() }
}
impl Ty<LibRef> {
    /// flattening touches the types of the builder only (discharged in the C17 unit)
    #[verifier::external_body]
    pub fn translate(self, b: &mut SystemBuilder, ctx: &()) -> (r: Result<Ty<SemId>, Error>)
        ensures r is Ok, final(b).pending_deps == old(b).pending_deps, final(b).imported_deps == old(b).imported_deps { unimplemented!() }
}
/// The libraries known and missing after the import of `l`.
pub open spec fn imported(b0: SystemBuilder, l: TypeLib, b1: SystemBuilder) -> bool {
    &&& b1.imported_deps@ == b0.imported_deps@.insert(lib_id(l))
    &&& forall|k: TypeLibId| #[trigger] b1.pending_deps@.contains(k) <==> (b0.pending_deps@.contains(k) && k != lib_id(l)) || (l.dependencies@.contains(k) && !b1.imported_deps@.contains(k))
}
impl SystemBuilder {
//@fn src/typesys/translate.rs SystemBuilder::import
//@ ret r
//@ spec ensures r is Ok, imported(self, lib, r->Ok_0)
//@ closure 1 -> (__r: bool) ensures __r == !__self.imported_deps@.contains(dep.id)
//@ at before loop 1
 let ghost __i0 = __self.imported_deps; let ghost __p0 = __self.pending_deps;
//@ loop 1
 __self.imported_deps == __i0, __self.pending_deps == __p0,
//@end
}
