/// The registry of names: which type a specification denotes is the contract of `to_sem_id` (discharged in C05).
pub struct Symbols;
//@item src/typesys/symbols.rs SymbolicSys
pub uninterp spec fn denotes(s: SymbolicSys, spec: TypeSpec) -> Option<SemId>;
impl SymbolicSys {
    #[verifier::external_body]
    pub fn to_sem_id(&self, spec: TypeSpec) -> (r: Option<SemId>) ensures r == denotes(*self, spec), spec is SemId ==> r == Some(spec->SemId_0) { unimplemented!() }
    /// derived (`Getters`)
    pub fn as_types(&self) -> (r: &TypeSystem) ensures *r == self.types { &self.types }
}
