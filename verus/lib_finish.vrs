// ---------------------------------------------------------------------------------------------
// C15: finishing the build of a library (LibBuilder::compile), from the contracts of compile_symbols (c15) and SymbolicLib::compile (c14)
// ---------------------------------------------------------------------------------------------
pub open spec fn as_compile_error(e: TranspileError) -> CompileError {
    match e {
        TranspileError::UnknownType { unknown, within } => CompileError::UnknownType { unknown, within },
        TranspileError::UnknownLib(l) => CompileError::UnknownLib(l),
        TranspileError::TooManyDependencies => CompileError::TooManyDependencies,
        TranspileError::TooManyTypes => CompileError::TooManyTypes,
        TranspileError::LibTooLarge(l) => CompileError::LibTooLarge(l),
        TranspileError::DependencyMissesType(l, id, n) => CompileError::DependencyMissesType(l, id, n),
    }
}
impl vstd::std_specs::convert::FromSpecImpl<TranspileError> for CompileError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: TranspileError) -> Self { as_compile_error(e) }
}
impl From<TranspileError> for CompileError {
//@fn src/typelib/compile.rs <CompileError as From<TranspileError>>::from
//@ ret r
//@end
}
/// `?` converts the error with `From`
#[verifier::external_body]
pub broadcast proof fn axiom_question_mark(e: TranspileError, r: CompileError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<CompileError, TranspileError>(e, r) ==> r == as_compile_error(e) { }
/// The library has exactly the definitions added, its dependencies are exactly the known libraries used, and it is complete.
pub open spec fn finished(b: LibBuilder, t: TypeLib) -> bool {
    &&& t.name == b.lib_name && compiled(b.types@, t.types@) && same_ext(b.extern_types@, t.extern_types)
    &&& all_defined(b.types@) && all_provided(b.known_libs.seq(), b.extern_types@)
    &&& forall|l: LibName| uses(b.extern_types@, l) ==> declared(b.known_libs.seq(), l)
    &&& final_deps(b.known_libs.seq(), b.extern_types@, t.dependencies@)
}
/// The dependencies of the library are exactly the known ones used.
pub open spec fn final_deps(k: Known, x: Ext, d: Set<TypeLibId>) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> (d.contains((#[trigger] k[i]).0.id) <==> uses(x, k[i].0.name))
    &&& forall|id: TypeLibId| #[trigger] d.contains(id) ==> exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0.id == id
}
/// Why a library can't be finished: it isn't complete, or its definitions can't be compiled.
pub open spec fn unfinished(b: LibBuilder, e: CompileError) -> bool {
    ||| exists|t: TranspileError| #[trigger] missing(b, t) && e == as_compile_error(t)
    ||| exists|s: SymbolicLib| #[trigger] built(b, s) && refusal(s, e)
}
pub proof fn lemma_final(k: Known, x: Ext, s: SymbolicLib, d: Set<TypeLibId>)
    requires apart(k), ids_differ(k), deps_used(k, x, s.dependencies.seq()), same_ext(x, s.extern_types), used_deps(s.dependencies.seq(), s.extern_types@.dom(), d)
    ensures final_deps(k, x, d)
{
    let q = s.dependencies.seq();
    assert forall|i: int| 0 <= i < k.len() implies (d.contains((#[trigger] k[i]).0.id) <==> uses(x, k[i].0.name)) by {
        let dep = k[i].0;
        if uses(x, dep.name) {
            assert(q.contains(dep));
            let j = choose|j: int| 0 <= j < q.len() && q[j] == dep;
            assert(x.contains_key(dep.name));
            assert(s.extern_types@.contains_key(dep.name));
            s.dependencies.listed();
            assert forall|h: int| 0 <= h < j implies (#[trigger] q[h]).name != dep.name by {
                assert(is_known(k, q[h]));
                let w = choose|w: int| 0 <= w < k.len() && (#[trigger] k[w]).0 == q[h];
                assert(q[h].id != q[j].id);
                assert(w != i);
            }
            assert(is_used(q, s.extern_types@.dom(), j));
            assert(d.contains(q[j].id));
        }
        if d.contains(dep.id) {
            assert(has_dep(q, dep.id));
            let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).id == dep.id;
            assert(is_known(k, q[j]));
            let w = choose|w: int| 0 <= w < k.len() && (#[trigger] k[w]).0 == q[j];
            assert(w == i);
            assert(d.contains(q[j].id));
            assert(is_used(q, s.extern_types@.dom(), j));
            assert(s.extern_types@.contains_key(dep.name));
        }
    }
    assert forall|id: TypeLibId| #[trigger] d.contains(id) implies exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0.id == id by {
        assert(has_dep(q, id));
        let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).id == id;
        assert(is_known(k, q[j]));
        let w = choose|w: int| 0 <= w < k.len() && (#[trigger] k[w]).0 == q[j];
        assert(k[w].0.id == id);
    }
}
impl LibBuilder {
//@fn src/typelib/symbolic.rs LibBuilder::compile
//@ ret r
//@ spec requires apart(self.known_libs.seq()), self.types@ != Map::<TypeName, Ty<TranspileRef>>::empty(), sound_syms(self.types@)
//@ spec ensures r is Ok ==> finished(self, r->Ok_0), r is Err ==> unfinished(self, r->Err_0)
//@ at start
 broadcast use axiom_question_mark;
 proof {
  self.known_libs.ids_apart();
  assert forall|s: SymbolicLib, t: TypeLib| #[trigger] built(self, s) && #[trigger] used_deps(s.dependencies.seq(), s.extern_types@.dom(), t.dependencies@) implies final_deps(self.known_libs.seq(), self.extern_types@, t.dependencies@) by {
   lemma_final(self.known_libs.seq(), self.extern_types@, s, t.dependencies@);
  }
 }
//@end
}
