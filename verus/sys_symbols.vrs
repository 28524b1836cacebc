// ---------------------------------------------------------------------------------------------
// C05: symbols and symbolic systems (src/typesys/symbols.rs, type_sys.rs)
// ---------------------------------------------------------------------------------------------
//@item src/typesys/type_sys.rs TypeFqn
/// derived
impl Clone for TypeFqn { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for TypeFqn { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq for TypeFqn {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeFqn {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self == o }
}
//@item src/typesys/type_sys.rs SymTy
//@item src/typesys/translate.rs TypeSymbol
impl Clone for TypeSymbol { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item src/value/typify.rs TypeSpec
pub enum Error { AbsentImport(Dependency), RepeatedType { new: TypeSymbol, present: TypeSymbol }, UnknownType(SemId), InnerTypeAbsent { unknown: SemId, known: SemId }, Confinement(ConfinementError), TooDeep }
impl From<ConfinementError> for Error { #[verifier::external_body] fn from(e: ConfinementError) -> (r: Error) { unimplemented!() } }
//@item src/typesys/symbols.rs Symbols ;; SmallOrdSet<Dependency> ==> SmallDepSet
//@item src/typesys/symbols.rs SymbolicSys
pub open spec fn sym_of(id: SemId, t: SymTy) -> TypeSymbol { TypeSymbol { id: id, fqn: t.orig } }
/// What the types passed to an assembly amount to: their definitions and their symbols.
pub open spec fn assembled(s: SymbolicSys, types: Map<SemId, SymTy>) -> bool {
    &&& forall|id: SemId| #![trigger s.types@.contains_key(id)] #![trigger types.contains_key(id)] s.types@.contains_key(id) <==> types.contains_key(id)
    &&& forall|id: SemId| #[trigger] types.contains_key(id) ==> s.types@[id] == types[id].ty && s.symbols.symbols@.contains(sym_of(id, types[id]))
    &&& forall|x: TypeSymbol| #[trigger] s.symbols.symbols@.contains(x) ==> types.contains_key(x.id) && x.fqn == types[x.id].orig
}
pub open spec fn named_as(s: Set<TypeSymbol>, id: SemId, fqn: TypeFqn) -> bool { s.contains(TypeSymbol { id: id, fqn: Some(fqn) }) }
