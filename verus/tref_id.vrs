// ---------------------------------------------------------------------------------------------
// C01: commitments and ids of the references of symbolic libraries (src/typelib/id.rs, src/typelib/symbolic.rs)
// ---------------------------------------------------------------------------------------------
//@item src/typelib/symbolic.rs SymbolRef
//@item src/typelib/symbolic.rs TranspileRef
/// The commitment of an embedded definition: the one of the definition (the recursion along the nesting is cut here).
pub uninterp spec fn embedded_commits(t: Ty<TranspileRef>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_embedded(t: Ty<TranspileRef>) ensures embedded_commits(t) == t.commits() { }
#[verifier::external_body]
pub fn verif_embedded_commit<H: CommitConsume>(t: &Ty<TranspileRef>, hasher: &mut H) ensures final(hasher).consumed() == old(hasher).consumed() + embedded_commits(*t) { unimplemented!() }
impl TypeRef for TranspileRef {
    open spec fn spec_as_ty(&self) -> Option<&Ty<Self>> { match self { TranspileRef::Embedded(t) => Some(&**t), _ => None } }
//@fn src/typelib/symbolic.rs <TranspileRef as TypeRef>::as_ty
//@end
}
impl SemCommit for SymbolRef {
    open spec fn commits(&self) -> Seq<u8> { self.sem_id.bytes() }
//@fn src/typelib/id.rs <SymbolRef as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
impl SemCommit for TranspileRef {
    open spec fn commits(&self) -> Seq<u8> { match self { TranspileRef::Embedded(t) => embedded_commits(**t), TranspileRef::Named(n) => name_code(n.bytes()), TranspileRef::Extern(e) => e.sem_id.bytes() } }
//@fn src/typelib/id.rs <TranspileRef as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ subst ty . sem_commit (hasher) ==> verif_embedded_commit(ty, hasher)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
impl TranspileRef {
//@fn src/typelib/symbolic.rs TranspileRef::id
//@ ret r
//@ subst ?hasher.update ==> hasher.commit_consume
//@ spec ensures self matches TranspileRef::Extern(e) ==> r == e.sem_id,
//@ spec   !(self is Extern) ==> r.bytes() == sha256(sha256(SEM_ID_TAG@) + sha256(SEM_ID_TAG@) + self.commits())
//@ at start
 proof { let t = sha256(SEM_ID_TAG@); assert(Seq::<u8>::empty() + t + t =~= t + t); }
//@end
}
impl Ty<TranspileRef> {
//@fn src/ast/id.rs Ty<TranspileRef>::sem_id_named
//@ name sem_id_named_symbolic
//@ ret r
//@ spec ensures r.bytes() == sha256(preimage(*self, Some(*name)))
//@end
}
/// A named definition, the components of which are types of other libraries, has in the symbolic library the id it has in the compiled one.
pub fn client_symbolic_ids<B: LibSubref>(a: &Ty<TranspileRef>, n: &TypeName, b: &Ty<B>) -> (r: (SemId, SemId))
    requires a.commits() == b.commits() ensures r.0 == r.1
{
    broadcast use sem_id_ext;
    let (x, y) = (a.sem_id_named_symbolic(n), b.sem_id_named(n));
    (x, y)
}
