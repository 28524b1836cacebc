// ---------------------------------------------------------------------------------------------
// Commitments of references (src/typelib/id.rs): the id they stand for, or the inlined definition.
// ---------------------------------------------------------------------------------------------
macro_rules! no_ty { ($t:ident) => { verus! {
    impl TypeRef for $t { open spec fn spec_as_ty(&self) -> Option<&Ty<Self>> { None } #[verifier::external_body] fn as_ty(&self) -> Option<&Ty<Self>> { None } }
    impl LibSubref for $t { proof fn no_ty(&self) { } }
} } }
no_ty!(InlineRef2); no_ty!(InlineRef1); no_ty!(InlineRef); no_ty!(LibRef);
impl SemCommit for ExternRef {
    open spec fn commits(&self) -> Seq<u8> { self.sem_id.bytes() }
//@fn src/typelib/id.rs <ExternRef as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
impl SemCommit for InlineRef2 {
    open spec fn commits(&self) -> Seq<u8> { match self { InlineRef2::Named(id) => id.bytes(), InlineRef2::Extern(ext) => ext.sem_id.bytes() } }
//@fn src/typelib/id.rs <InlineRef2 as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
impl SemCommit for InlineRef1 {
    open spec fn commits(&self) -> Seq<u8> { match self { InlineRef1::Inline(ty) => ty.commits(), InlineRef1::Named(id) => id.bytes(), InlineRef1::Extern(ext) => ext.sem_id.bytes() } }
//@fn src/typelib/id.rs <InlineRef1 as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
impl SemCommit for InlineRef {
    open spec fn commits(&self) -> Seq<u8> { match self { InlineRef::Inline(ty) => ty.commits(), InlineRef::Named(id) => id.bytes(), InlineRef::Extern(ext) => ext.sem_id.bytes() } }
//@fn src/typelib/id.rs <InlineRef as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
impl SemCommit for LibRef {
    open spec fn commits(&self) -> Seq<u8> { match self { LibRef::Inline(ty) => ty.commits(), LibRef::Named(id) => id.bytes(), LibRef::Extern(ext) => ext.sem_id.bytes() } }
//@fn src/typelib/id.rs <LibRef as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
