// ---------------------------------------------------------------------------------------------
// C03, C17: importing libraries into a system (src/typesys/translate.rs)
// ---------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct ExternTypes { b: u8 }
//@item src/typelib/type_lib.rs TypeLib ;; TinyOrdSet<Dependency> ==> TinyDepSet ;; TypeMap ==> TypeMap<TypeName, Ty<LibRef>>
/// The ids of definitions and of libraries (their computation is the subject of C01 and C02).
pub uninterp spec fn sem_unnamed<R>(t: Ty<R>) -> SemId;
pub uninterp spec fn sem_named<R>(t: Ty<R>, n: TypeName) -> SemId;
pub uninterp spec fn lib_id(l: TypeLib) -> TypeLibId;
impl<R> Ty<R> {
    #[verifier::external_body] pub fn sem_id_unnamed(&self) -> (r: SemId) ensures r == sem_unnamed(*self) { unimplemented!() }
    #[verifier::external_body] pub fn sem_id_named(&self, n: &TypeName) -> (r: SemId) ensures r == sem_named(*self, *n) { unimplemented!() }
}
impl TypeLib {
    #[verifier::external_body] pub fn id(&self) -> (r: TypeLibId) ensures r == lib_id(*self) { unimplemented!() }
}
//@item src/typesys/translate.rs SystemBuilder ;; BTreeSet<Dependency> ==> DepTree
pub type Syms = Map<SemId, SymTy>;
impl SystemBuilder {
    /// derived Default
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.pending_deps@ == Set::<TypeLibId>::empty(), r.imported_deps@ == Set::<TypeLibId>::empty(), r.types@ == Map::<SemId, SymTy>::empty() { unimplemented!() }
//@fn src/typesys/translate.rs SystemBuilder::new
//@ ret r
//@ spec ensures r.pending_deps@ == Set::<TypeLibId>::empty(), r.imported_deps@ == Set::<TypeLibId>::empty(), r.types@ == Map::<SemId, SymTy>::empty()
//@end
}
impl SymbolicSys {
    // discharged in the C05 unit
    #[verifier::external_body]
    pub fn with(libs: DepTree, types: BTreeMap<SemId, SymTy>) -> (r: Result<Self, Error>)
        ensures r is Ok ==> assembled(r->Ok_0, types@) && (r->Ok_0).symbols.libs@ == libs@, r is Err ==> types@.dom().len() > 16777215 || libs@.len() > 65535 { unimplemented!() }
}
