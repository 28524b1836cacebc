// ---------------------------------------------------------------------------------------------
// C14: compilation of symbolic libraries (src/typelib/symbolic.rs)
// ---------------------------------------------------------------------------------------------
/// The ids of the definitions of a compiled library.
pub open spec fn ids_of(tys: LibTys) -> Idx { tys.map_entries(|n: TypeName, t: Ty<LibRef>| sem_named(t, n)) }
/// Every name the definitions of `done` mention, at any depth, is in `done` and ranks lower: nothing is undefined or circular.
#[verifier::opaque]
pub open spec fn ranked(t0: SymTys, rank: Map<TypeName, nat>, done: Set<TypeName>) -> bool {
    forall|n: TypeName, m: TypeName, k: nat| done.contains(n) && #[trigger] ty_mentions(t0[n], m, k) ==> done.contains(m) && rank[m] < rank[n]
}
/// Each of the definitions of `s` mentions a name which is undefined or is in `s`.
#[verifier::opaque]
pub open spec fn stuck(t0: SymTys, s: Set<TypeName>) -> bool {
    forall|n: TypeName| #[trigger] s.contains(n) ==> t0.contains_key(n) && exists|m: TypeName, k: nat| #[trigger] ty_mentions(t0[n], m, k) && (!t0.contains_key(m) || s.contains(m))
}
/// The two exclude each other.
pub proof fn lemma_not_stuck(t0: SymTys, rank: Map<TypeName, nat>, s: Set<TypeName>, n: TypeName)
    requires ranked(t0, rank, t0.dom()), stuck(t0, s), s.contains(n) ensures false decreases rank[n]
{
    reveal(stuck); reveal(ranked);
    let (m, k) = choose|m: TypeName, k: nat| #[trigger] ty_mentions(t0[n], m, k) && (!t0.contains_key(m) || s.contains(m));
    assert(t0.dom().contains(n));
    assert(t0.dom().contains(m));
    lemma_not_stuck(t0, rank, s, m);
}
/// A library compiled faithfully: the same names, each definition of the same structure with references replaced.
pub open spec fn compiled(t0: SymTys, tys: LibTys) -> bool {
    &&& forall|n: TypeName| #![trigger t0.contains_key(n)] #![trigger tys.contains_key(n)] t0.contains_key(n) <==> tys.contains_key(n)
    &&& forall|n: TypeName| #[trigger] tys.contains_key(n) ==> def_compiled(t0[n], ids_of(tys), tys[n])
    &&& exists|rank: Map<TypeName, nat>| #[trigger] ranked(t0, rank, t0.dom())
}
pub open spec fn sound_syms(t0: SymTys) -> bool { forall|n: TypeName| #[trigger] t0.contains_key(n) ==> ty_sound_to(t0[n], 3) }
pub open spec fn dep_named(s: Seq<Dependency>, l: LibName) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == l }
/// The dependency is the one meant by the name of a library the types of which are used.
pub open spec fn is_used(deps: Seq<Dependency>, ext: Set<LibName>, i: int) -> bool {
    ext.contains(deps[i].name) && !is_embedded(deps[i].name) && forall|j: int| 0 <= j < i ==> (#[trigger] deps[j]).name != deps[i].name
}
pub open spec fn used_deps(deps: Seq<Dependency>, ext: Set<LibName>, r: Set<TypeLibId>) -> bool {
    &&& forall|k: TypeLibId| #[trigger] r.contains(k) ==> has_dep(deps, k)
    &&& forall|i: int| 0 <= i < deps.len() ==> (r.contains((#[trigger] deps[i]).id) <==> is_used(deps, ext, i))
}
/// `n` is one of the definitions no order of compilation can reach, for `m`.
pub open spec fn blocked(t0: SymTys, s: Set<TypeName>, n: TypeName, m: TypeName, k: nat) -> bool { stuck(t0, s) && s.contains(n) && ty_mentions(t0[n], m, k) && (!t0.contains_key(m) || s.contains(m)) }
/// Why a library is refused.
pub open spec fn refusal(l: SymbolicLib, e: CompileError) -> bool {
    match e {
        CompileError::UnknownType { unknown, within } => exists|s: Set<TypeName>, n: TypeName, k: nat| l.types@[n] == within && #[trigger] blocked(l.types@, s, n, unknown, k),
        CompileError::NestedInline(n, _, _) => l.types@.contains_key(n) && ty_deep(l.types@[n], 3),
        CompileError::UnknownLib(n) => l.extern_types@.contains_key(n) && !is_embedded(n) && !dep_named(l.dependencies.seq(), n),
        CompileError::TooManyTypes => l.types@.dom().len() > 65535,
        _ => false,
    }
}
// --- nothing a compiled definition names is missing from the index; more names change nothing
pub open spec fn names_known(t: Ty<TranspileRef>, idx: Idx) -> bool { forall|n: TypeName, k: nat| #[trigger] ty_mentions(t, n, k) ==> idx.contains_key(n) }
pub open spec fn ref_known(x: TranspileRef, idx: Idx) -> bool { forall|n: TypeName, k: nat| #[trigger] mentions(x, n, k) ==> idx.contains_key(n) }
pub proof fn lemma_comps_known(t: Ty<TranspileRef>, idx: Idx)
    requires forall|i: int| 0 <= i < comps(t).len() ==> ref_known(#[trigger] comps(t)[i], idx) ensures names_known(t, idx)
{
    reveal(ty_mentions);
    assert forall|n: TypeName, k: nat| #[trigger] ty_mentions(t, n, k) implies idx.contains_key(n) by {
        let i = choose|i: int| 0 <= i < comps(t).len() && mentions(#[trigger] comps(t)[i], n, k);
        assert(ref_known(comps(t)[i], idx));
    }
}
pub proof fn lemma_ref_known(x: TranspileRef, idx: Idx)
    requires match x { TranspileRef::Embedded(t) => names_known(*t, idx), TranspileRef::Named(n) => idx.contains_key(n), _ => true } ensures ref_known(x, idx)
{
    reveal(ty_mentions);
    assert forall|n: TypeName, k: nat| #[trigger] mentions(x, n, k) implies idx.contains_key(n) by {
        if let TranspileRef::Embedded(t) = x { assert(ty_mentions(*t, n, (k - 1) as nat)); }
    }
}
pub open spec fn extends(a: Idx, b: Idx) -> bool { forall|n: TypeName| #[trigger] a.contains_key(n) ==> b.contains_key(n) && b[n] == a[n] }
pub proof fn lemma_comp2(x: TranspileRef, a: Idx, b: Idx, r: InlineRef2) requires comp2(x, a, r), extends(a, b) ensures comp2(x, b, r), ref_known(x, a)
{
    lemma_ref_known(x, a);
}
pub proof fn lemma_ty_c2(t: Ty<TranspileRef>, a: Idx, b: Idx, u: Ty<InlineRef2>) requires is_comp(t, u, c2(a)), extends(a, b) ensures is_comp(t, u, c2(b)), names_known(t, a)
{
    assert forall|i: int| 0 <= i < comps(t).len() implies comp2(comps(t)[i], b, comps(u)[i]) && ref_known(#[trigger] comps(t)[i], a) by { assert(c2(a)(comps(t)[i], comps(u)[i])); lemma_comp2(comps(t)[i], a, b, comps(u)[i]); }
    assert forall|i: int| #![trigger comps(u)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() implies c2(b)(comps(t)[i], comps(u)[i]) by {}
    lemma_comps_known(t, a);
}
pub proof fn lemma_comp1(x: TranspileRef, a: Idx, b: Idx, r: InlineRef1) requires comp1(x, a, r), extends(a, b) ensures comp1(x, b, r), ref_known(x, a)
{
    if let TranspileRef::Embedded(t) = x { lemma_ty_c2(*t, a, b, r->Inline_0); }
    lemma_ref_known(x, a);
}
pub proof fn lemma_ty_c1(t: Ty<TranspileRef>, a: Idx, b: Idx, u: Ty<InlineRef1>) requires is_comp(t, u, c1(a)), extends(a, b) ensures is_comp(t, u, c1(b)), names_known(t, a)
{
    assert forall|i: int| 0 <= i < comps(t).len() implies comp1(comps(t)[i], b, comps(u)[i]) && ref_known(#[trigger] comps(t)[i], a) by { assert(c1(a)(comps(t)[i], comps(u)[i])); lemma_comp1(comps(t)[i], a, b, comps(u)[i]); }
    assert forall|i: int| #![trigger comps(u)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() implies c1(b)(comps(t)[i], comps(u)[i]) by {}
    lemma_comps_known(t, a);
}
pub proof fn lemma_comp0(x: TranspileRef, a: Idx, b: Idx, r: InlineRef) requires comp0(x, a, r), extends(a, b) ensures comp0(x, b, r), ref_known(x, a)
{
    if let TranspileRef::Embedded(t) = x { lemma_ty_c1(*t, a, b, r->Inline_0); }
    lemma_ref_known(x, a);
}
pub proof fn lemma_ty_c0(t: Ty<TranspileRef>, a: Idx, b: Idx, u: Ty<InlineRef>) requires is_comp(t, u, c0(a)), extends(a, b) ensures is_comp(t, u, c0(b)), names_known(t, a)
{
    assert forall|i: int| 0 <= i < comps(t).len() implies comp0(comps(t)[i], b, comps(u)[i]) && ref_known(#[trigger] comps(t)[i], a) by { assert(c0(a)(comps(t)[i], comps(u)[i])); lemma_comp0(comps(t)[i], a, b, comps(u)[i]); }
    assert forall|i: int| #![trigger comps(u)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() implies c0(b)(comps(t)[i], comps(u)[i]) by {}
    lemma_comps_known(t, a);
}
pub proof fn lemma_compl(x: TranspileRef, a: Idx, b: Idx, r: LibRef) requires compl(x, a, r), extends(a, b) ensures compl(x, b, r), ref_known(x, a)
{
    if let TranspileRef::Embedded(t) = x { lemma_ty_c0(*t, a, b, r->Inline_0); }
    lemma_ref_known(x, a);
}
pub proof fn lemma_ty_cl(t: Ty<TranspileRef>, a: Idx, b: Idx, u: Ty<LibRef>) requires is_comp(t, u, cl(a)), extends(a, b) ensures is_comp(t, u, cl(b)), names_known(t, a)
{
    assert forall|i: int| 0 <= i < comps(t).len() implies compl(comps(t)[i], b, comps(u)[i]) && ref_known(#[trigger] comps(t)[i], a) by { assert(cl(a)(comps(t)[i], comps(u)[i])); lemma_compl(comps(t)[i], a, b, comps(u)[i]); }
    assert forall|i: int| #![trigger comps(u)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() implies cl(b)(comps(t)[i], comps(u)[i]) by {}
    lemma_comps_known(t, a);
}
/// Some of the definitions are compiled.
pub open spec fn halfway(t0: SymTys, todo: SymTys, done: LibTys, idx: Idx, rank: Map<TypeName, nat>, cnt: nat) -> bool {
    &&& forall|n: TypeName| #[trigger] todo.contains_key(n) ==> t0.contains_key(n) && t0[n] == todo[n] && !done.contains_key(n)
    &&& forall|n: TypeName| #[trigger] t0.contains_key(n) ==> todo.contains_key(n) || done.contains_key(n)
    &&& forall|n: TypeName| #[trigger] done.contains_key(n) ==> t0.contains_key(n) && def_compiled(t0[n], idx, done[n]) && rank[n] < cnt
    &&& idx == ids_of(done)
    &&& ranked(t0, rank, done.dom())
}
pub proof fn lemma_next(t0: SymTys, todo: SymTys, done: LibTys, idx: Idx, rank: Map<TypeName, nat>, cnt: nat, n: TypeName, t: Ty<LibRef>)
    requires halfway(t0, todo, done, idx, rank, cnt), todo.contains_key(n), def_compiled(t0[n], idx, t)
    ensures halfway(t0, todo.remove(n), done.insert(n, t), idx.insert(n, sem_named(t, n)), rank.insert(n, cnt), cnt + 1)
{
    let done2 = done.insert(n, t); let idx2 = idx.insert(n, sem_named(t, n)); let rank2 = rank.insert(n, cnt);
    assert(idx2 =~= ids_of(done2));
    assert(done2.dom() =~= done.dom().insert(n));
    lemma_ty_cl(t0[n], idx, idx2, t);
    assert forall|m: TypeName| #[trigger] done2.contains_key(m) implies t0.contains_key(m) && def_compiled(t0[m], idx2, done2[m]) && rank2[m] < cnt + 1 by {
        if m != n { lemma_ty_cl(t0[m], idx, idx2, done[m]); }
    }
    reveal(ranked);
    assert forall|a: TypeName, b: TypeName, k: nat| done2.dom().contains(a) && #[trigger] ty_mentions(t0[a], b, k) implies done2.dom().contains(b) && rank2[b] < rank2[a] by {
        if a == n { assert(idx.contains_key(b)); } else { assert(done.dom().contains(a)); }
    }
}
pub proof fn lemma_stuck(t0: SymTys, todo: SymTys, done: LibTys, idx: Idx, rank: Map<TypeName, nat>, cnt: nat)
    requires halfway(t0, todo, done, idx, rank, cnt), forall|n: TypeName| #[trigger] todo.contains_key(n) ==> ty_unknown(t0[n], idx)
    ensures stuck(t0, todo.dom())
{
    reveal(stuck); reveal(ty_unknown);
    assert forall|n: TypeName| #[trigger] todo.dom().contains(n) implies t0.contains_key(n) && exists|m: TypeName, k: nat| #[trigger] ty_mentions(t0[n], m, k) && (!t0.contains_key(m) || todo.dom().contains(m)) by {
        assert(todo.contains_key(n));
        let (m, k) = choose|m: TypeName, k: nat| #[trigger] ty_mentions(t0[n], m, k) && !idx.contains_key(m);
        assert(!done.contains_key(m));
        assert(t0.contains_key(m) ==> todo.contains_key(m));
    }
}
/// What the translation of one definition amounts to.
pub proof fn lemma_of_def()
    ensures
        forall|t: Ty<TranspileRef>, d0: NestedContext, d1: NestedContext, u: Ty<LibRef>| #[trigger] <Ty<TranspileRef> as Translate<Ty<LibRef>>>::translated(t, d0, (), d1, u) ==> kept(d0, d1) && def_compiled(t, d0.index@, u),
        forall|t: Ty<TranspileRef>, d0: NestedContext, d1: NestedContext, e: CompileError| #[trigger] <Ty<TranspileRef> as Translate<Ty<LibRef>>>::failed(t, d0, (), d1, e) ==> ty_refused(t, 3, d0, d1, e),
{
    assert forall|t: Ty<TranspileRef>, d0: NestedContext, d1: NestedContext, u: Ty<LibRef>| #[trigger] <Ty<TranspileRef> as Translate<Ty<LibRef>>>::translated(t, d0, (), d1, u) implies kept(d0, d1) && def_compiled(t, d0.index@, u) by {
        lemma_ty_translated::<LibRef>(t, d0, d1, u, cl(d0.index@));
    }
    assert forall|t: Ty<TranspileRef>, d0: NestedContext, d1: NestedContext, e: CompileError| #[trigger] <Ty<TranspileRef> as Translate<Ty<LibRef>>>::failed(t, d0, (), d1, e) implies ty_refused(t, 3, d0, d1, e) by {
        lemma_ty_refused::<LibRef>(t, 3, d0, d1, e);
    }
}
impl SymbolicLib {
//@fn src/typelib/symbolic.rs SymbolicLib::compile
//@ ret r
//@ twin contains_key
//@ subst ?Confined::from_checked ==> TinyDepSet::from_checked
//@ subst ?BTreeSet::<Dependency>::new ==> DepTree::new
//@ spec requires sound_syms(self.types@)
//@ spec ensures r is Ok ==> (r->Ok_0).name == self.name && (r->Ok_0).extern_types == self.extern_types && compiled(self.types@, (r->Ok_0).types@)
//@ spec   && used_deps(self.dependencies.seq(), self.extern_types@.dom(), (r->Ok_0).dependencies@),
//@ spec   r is Err ==> refusal(self, r->Err_0)
//@ at start
 let ghost t0 = self.types@;
 let ghost mut rank: Map<TypeName, nat> = Map::empty();
 let ghost mut cnt: nat = 0;
 proof {
  lemma_of_def();
  assert(ranked(t0, rank, Set::empty())) by { reveal(ranked); }
 }
//@ at before loop 1
 assert(ids_of(new_types@) =~= index@);
 assert(new_types@.dom() =~= Set::empty());
 assert forall|n: TypeName| #[trigger] t0.contains_key(n) implies names@.contains(n) by {
   let i = choose|i: int| 0 <= i < self.types.seq().len() && (#[trigger] self.types.seq()[i]).0 == n;
 }
//@ loop 1
 invariant halfway(t0, old_types@, new_types@, index@, rank, cnt), t0 == self.types@, forall|n: TypeName| #[trigger] t0.contains_key(n) ==> names@.contains(n),
  extern_types == self.extern_types, dependencies == self.dependencies, name == self.name, sound_syms(t0),
 decreases old_types@.dom().len()
//@ at at loop 1 start
 let ghost __o = old_types@; let ghost __x = index@;
 proof { lemma_of_def(); }
//@ loop 2
 halfway(t0, old_types@, new_types@, index@, rank, cnt), t0 == self.types@, sound_syms(t0), extern_types == self.extern_types, lists_set(names@, names.seq()),
 __all2.len() == names.seq().len(), forall|i: int| #![trigger names.seq()[i]] #![trigger __all2[i]] 0 <= i < __all2.len() ==> *__all2[i] == names.seq()[i],
 found ==> old_types@.dom().len() < __o.dom().len(),
 !found ==> old_types@ == __o && index@ == __x && forall|i: int| 0 <= i < __it2.pos() && __o.contains_key(#[trigger] names.seq()[i]) ==> ty_unknown(t0[names.seq()[i]], __x),
//@ at at loop 2 start
 let ghost __i0 = index@; let ghost __n0 = new_types@; let ghost __o0 = old_types@;
 proof { lemma_of_def(); }
//@ at at loop 2 end
 proof {
  lemma_next(t0, __o0, __n0, __i0, rank, cnt, *name, new_types@[*name]);
  assert(index@ =~= ids_of(new_types@));
  rank = rank.insert(*name, cnt);
  cnt = cnt + 1;
 }
//@ at before loop 3
 proof {
  assert forall|n: TypeName| #[trigger] old_types@.contains_key(n) implies ty_unknown(t0[n], index@) by { let i = choose|i: int| 0 <= i < names.seq().len() && #[trigger] names.seq()[i] == n; assert(__o.contains_key(names.seq()[i])); }
  lemma_stuck(t0, old_types@, new_types@, index@, rank, cnt);
 }
//@ loop 3
 __it3.pos() == 0, lists_map(old_types@, old_types.seq()), __all3.len() == old_types.seq().len(), forall|i: int| #![trigger old_types.seq()[i]] #![trigger __all3[i]] 0 <= i < __all3.len() ==> *__all3[i] == old_types.seq()[i].1,
 halfway(t0, old_types@, new_types@, index@, rank, cnt), t0 == self.types@, stuck(t0, old_types@.dom()), forall|n: TypeName| #[trigger] old_types@.contains_key(n) ==> ty_unknown(t0[n], index@),
//@ at at loop 3 start
 proof {
  let n = old_types.seq()[0].0;
  assert(old_types@.contains_key(n));
  assert(*ty == t0[n]);
  assert(old_types@.dom().contains(n));
  reveal(ty_unknown);
  assert forall|m: TypeName, k: nat| #[trigger] ty_mentions(*ty, m, k) && !index@.contains_key(m) implies refusal(self, CompileError::UnknownType { unknown: m, within: *ty }) by {
    assert(!new_types@.contains_key(m));
    assert(t0.contains_key(m) ==> old_types@.dom().contains(m));
    assert(blocked(self.types@, old_types@.dom(), n, m, k));
    assert(self.types@[n] == *ty);
    let e = CompileError::UnknownType { unknown: m, within: *ty };
    assert(e->unknown == m && e->within == *ty);
    assert(refusal(self, e));
  }
 }
//@ at after loop 3
 proof { assert(old_types@.dom() =~= Set::empty()); assert(old_types@ =~= Map::empty()); }
//@ at before loop 4
 let ghost mut __seen: Set<LibName> = Set::empty();
 proof { dependencies.bounds(); dependencies.listed(); assert(t0.dom() =~= new_types@.dom()); }
//@ loop 4
 extern_types == self.extern_types, dependencies == self.dependencies, lists_map(extern_types@, extern_types.seq()), __all4.len() == extern_types.seq().len(),
 forall|i: int| #![trigger extern_types.seq()[i]] #![trigger __all4[i]] 0 <= i < __all4.len() ==> *__all4[i] == extern_types.seq()[i].0,
 lists_deps(dependencies@, dependencies.seq()), used_deps(dependencies.seq(), __seen, used_dependencies@),
 forall|i: int| 0 <= i < __it4.pos() ==> __seen.contains((#[trigger] extern_types.seq()[i]).0), forall|l: LibName| #[trigger] __seen.contains(l) ==> extern_types@.contains_key(l), dependencies@.len() <= 255,
//@ at at loop 4 start
 let ghost __s0 = __seen; let ghost __u0 = used_dependencies@; let ghost __deps = dependencies.seq();
 proof { __seen = __seen.insert(*lib); }
 broadcast use lib_name_ext;
 proof { assert(self.extern_types@.contains_key(extern_types.seq()[__it4.pos() - 1].0)); }
//@ at after loop 4
 proof { assert(__seen =~= extern_types@.dom()); assert(used_dependencies@.subset_of(dependencies@)); vstd::set_lib::lemma_len_subset(used_dependencies@, dependencies@); assert(ids_of(new_types@) == index@); }
//@end
}
