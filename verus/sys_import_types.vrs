impl Dependency {
    // discharged in the C03 unit
    #[verifier::external_body]
    pub fn from(lib: &TypeLib) -> (r: Dependency) { unimplemented!() }
}
/// The builder after the import of `l`.
pub open spec fn imported(b0: SystemBuilder, l: TypeLib, b1: SystemBuilder) -> bool {
    merged(b0.types@, b1.types@, lib_set(l))
}
impl SystemBuilder {
//@fn src/typesys/translate.rs SystemBuilder::import
//@ ret r
//@ spec requires lib_sound(lib)
//@ spec ensures r is Ok, imported(self, lib, r->Ok_0)
//@ at start
 let ghost __s0 = self; let ghost __l = lib;
//@ at before loop 1
 proof { lemma_merge_none(__s0.types@, list_set(__l.name, __l.types.seq(), 0)); }
//@ loop 1
 __all1 == __l.types.seq(), lists_map(__l.types@, __all1), __l.name == lib.name, lib_sound(__l),
 merged(__s0.types@, __self.types@, list_set(__l.name, __all1, __it1.pos())),
//@ at at loop 1 start
 proof {
 assert forall|t: Ty<LibRef>, b0: SystemBuilder, b1: SystemBuilder, e: Error| #[trigger] <Ty<LibRef> as Translate<Ty<SemId>>>::failed(t, b0, (), b1, e) implies false by { lemma_ty_never(t, b0, b1, e); }
 assert forall|s: Seq<(TypeName, Ty<LibRef>)>, n: int, b0: SystemBuilder, b1: SystemBuilder, x: Ty<SemId>| 0 <= n < s.len() && merged(__s0.types@, b0.types@, list_set(__l.name, s, n)) && #[trigger] <Ty<LibRef> as Translate<Ty<SemId>>>::translated((#[trigger] s[n]).1, b0, (), b1, x) implies 
   b1.pending_deps == b0.pending_deps && b1.imported_deps == b0.imported_deps && forall|y: SymTy| y.ty == x && y.orig == Some(TypeFqn { lib: __l.name, name: s[n].0 }) ==> merged(__s0.types@, #[trigger] b1.types@.insert(sem_named(s[n].1, s[n].0), y), list_set(__l.name, s, n + 1)) by {
   lemma_list_step(__l.name, s, n, __s0.types@, b0, b1, x, SymTy { orig: Some(TypeFqn { lib: __l.name, name: s[n].0 }), ty: x });
 }
 }
//@ at after loop 1
 proof { lemma_list_adds(__l, __l.types.seq(), __s0.types@, __self.types@); }
//@end
}
impl SystemBuilder {
    // discharged in the C03 unit
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Result<SymbolicSys, Vec<Error>>) ensures r is Ok ==> assembled(r->Ok_0, self.types@) { unimplemented!() }
}
