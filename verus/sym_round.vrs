// ---------------------------------------------------------------------------------------------
// C16: compiling the symbolic form of a library gives the library back
// ---------------------------------------------------------------------------------------------
// --- the symbolic form is well-formed
pub proof fn lemma_names_kept<A>(t: Ty<A>, r: Ty<TranspileRef>) requires same_shape(t, r), union_names_differ(t) ensures union_names_differ(r)
{
    if t is Union { assert forall|i: int, j: int| 0 <= i < j < (r->Union_0)@.len() implies (#[trigger] (r->Union_0)@[i]).0.name != (#[trigger] (r->Union_0)@[j]).0.name by { assert((t->Union_0)@[i].0.name != (t->Union_0)@[j].0.name); } }
}
pub proof fn lemma_form2(x: InlineRef2, v: Env, r: TranspileRef) requires sym2(x, v, r) ensures !deep(r, 0), sound_to(r, 0) {}
pub proof fn lemma_form1(x: InlineRef1, v: Env, r: TranspileRef) requires sym1(x, v, r), snd1(x) ensures !deep(r, 1), sound_to(r, 1)
{
    if let InlineRef1::Inline(u) = x {
        let t = *(r->Embedded_0);
        lemma_names_kept(u, t);
        assert forall|i: int| 0 <= i < comps(t).len() implies !deep(#[trigger] comps(t)[i], 0) && sound_to(comps(t)[i], 0) by { assert(s2(v)(comps(u)[i], comps(t)[i])); lemma_form2(comps(u)[i], v, comps(t)[i]); }
    }
}
pub proof fn lemma_form0(x: InlineRef, v: Env, r: TranspileRef) requires sym0(x, v, r), snd0(x) ensures !deep(r, 2), sound_to(r, 2)
{
    if let InlineRef::Inline(u) = x {
        let t = *(r->Embedded_0);
        lemma_names_kept(u, t);
        assert forall|i: int| 0 <= i < comps(t).len() implies !deep(#[trigger] comps(t)[i], 1) && sound_to(comps(t)[i], 1) by { assert(s1(v)(comps(u)[i], comps(t)[i])); lemma_form1(comps(u)[i], v, comps(t)[i]); }
    }
}
pub proof fn lemma_forml(x: LibRef, v: Env, r: TranspileRef) requires syml(x, v, r), sndl(x) ensures !deep(r, 3), sound_to(r, 3)
{
    if let LibRef::Inline(u) = x {
        let t = *(r->Embedded_0);
        lemma_names_kept(u, t);
        assert forall|i: int| 0 <= i < comps(t).len() implies !deep(#[trigger] comps(t)[i], 2) && sound_to(comps(t)[i], 2) by { assert(s0(v)(comps(u)[i], comps(t)[i])); lemma_form0(comps(u)[i], v, comps(t)[i]); }
    }
}
pub proof fn lemma_form(u: Ty<LibRef>, v: Env, t: Ty<TranspileRef>) requires def_named(u, v, t), snd(u) ensures !ty_deep(t, 3), ty_sound_to(t, 3)
{
    reveal(ty_deep);
    lemma_names_kept(u, t);
    assert forall|i: int| 0 <= i < comps(t).len() implies !deep(#[trigger] comps(t)[i], 3) && sound_to(comps(t)[i], 3) by { assert(sl(v)(comps(u)[i], comps(t)[i])); lemma_forml(comps(u)[i], v, comps(t)[i]); }
}
// --- the definitions a definition names
pub open spec fn has2(x: InlineRef2, id: SemId) -> bool { x == InlineRef2::Named(id) }
pub open spec fn h2(id: SemId) -> spec_fn(InlineRef2) -> bool { |x: InlineRef2| has2(x, id) }
pub open spec fn has1(x: InlineRef1, id: SemId) -> bool { match x { InlineRef1::Inline(u) => some_comp(u, h2(id)), InlineRef1::Named(i) => i == id, InlineRef1::Extern(_) => false } }
pub open spec fn h1(id: SemId) -> spec_fn(InlineRef1) -> bool { |x: InlineRef1| has1(x, id) }
pub open spec fn has0(x: InlineRef, id: SemId) -> bool { match x { InlineRef::Inline(u) => some_comp(u, h1(id)), InlineRef::Named(i) => i == id, InlineRef::Extern(_) => false } }
pub open spec fn h0(id: SemId) -> spec_fn(InlineRef) -> bool { |x: InlineRef| has0(x, id) }
pub open spec fn hasl(x: LibRef, id: SemId) -> bool { match x { LibRef::Inline(u) => some_comp(u, h0(id)), LibRef::Named(i) => i == id, LibRef::Extern(_) => false } }
pub open spec fn hl(id: SemId) -> spec_fn(LibRef) -> bool { |x: LibRef| hasl(x, id) }
/// The definition names the type of the id, at some depth.
pub open spec fn names_id(t: Ty<LibRef>, id: SemId) -> bool { some_comp(t, hl(id)) }
pub proof fn lemma_has2(x: InlineRef2, v: Env, r: TranspileRef, n: TypeName, k: nat) requires sym2(x, v, r), mentions(r, n, k) ensures exists|id: SemId| #[trigger] has2(x, id) && id_named(id, v, n)
{ let id = x->Named_0; assert(has2(x, id)); }
pub proof fn lemma_hast2(u: Ty<InlineRef2>, v: Env, t: Ty<TranspileRef>, n: TypeName, k: nat) requires is_comp(u, t, s2(v)), ty_mentions(t, n, k) ensures exists|id: SemId| #[trigger] some_comp(u, h2(id)) && id_named(id, v, n)
{
    reveal(ty_mentions); reveal(some_comp);
    let i = choose|i: int| 0 <= i < comps(t).len() && mentions(#[trigger] comps(t)[i], n, k);
    assert(s2(v)(comps(u)[i], comps(t)[i]));
    lemma_has2(comps(u)[i], v, comps(t)[i], n, k);
    let id = choose|id: SemId| #[trigger] has2(comps(u)[i], id) && id_named(id, v, n);
    assert(h2(id)(comps(u)[i]));
    assert(some_comp(u, h2(id)));
}
pub proof fn lemma_has1(x: InlineRef1, v: Env, r: TranspileRef, n: TypeName, k: nat) requires sym1(x, v, r), mentions(r, n, k) ensures exists|id: SemId| #[trigger] has1(x, id) && id_named(id, v, n)
{
    match x {
        InlineRef1::Inline(u) => {
            let t = *(r->Embedded_0);
            assert(ty_mentions(t, n, (k - 1) as nat)) by { reveal(ty_mentions); }
            lemma_hast2(u, v, t, n, (k - 1) as nat);
            let id = choose|id: SemId| #[trigger] some_comp(u, h2(id)) && id_named(id, v, n);
            assert(has1(x, id));
        }
        InlineRef1::Named(id) => { assert(has1(x, id)); }
        InlineRef1::Extern(_) => {}
    }
}
pub proof fn lemma_hast1(u: Ty<InlineRef1>, v: Env, t: Ty<TranspileRef>, n: TypeName, k: nat) requires is_comp(u, t, s1(v)), ty_mentions(t, n, k) ensures exists|id: SemId| #[trigger] some_comp(u, h1(id)) && id_named(id, v, n)
{
    reveal(ty_mentions); reveal(some_comp);
    let i = choose|i: int| 0 <= i < comps(t).len() && mentions(#[trigger] comps(t)[i], n, k);
    assert(s1(v)(comps(u)[i], comps(t)[i]));
    lemma_has1(comps(u)[i], v, comps(t)[i], n, k);
    let id = choose|id: SemId| #[trigger] has1(comps(u)[i], id) && id_named(id, v, n);
    assert(h1(id)(comps(u)[i]));
    assert(some_comp(u, h1(id)));
}
pub proof fn lemma_has0(x: InlineRef, v: Env, r: TranspileRef, n: TypeName, k: nat) requires sym0(x, v, r), mentions(r, n, k) ensures exists|id: SemId| #[trigger] has0(x, id) && id_named(id, v, n)
{
    match x {
        InlineRef::Inline(u) => {
            let t = *(r->Embedded_0);
            assert(ty_mentions(t, n, (k - 1) as nat)) by { reveal(ty_mentions); }
            lemma_hast1(u, v, t, n, (k - 1) as nat);
            let id = choose|id: SemId| #[trigger] some_comp(u, h1(id)) && id_named(id, v, n);
            assert(has0(x, id));
        }
        InlineRef::Named(id) => { assert(has0(x, id)); }
        InlineRef::Extern(_) => {}
    }
}
pub proof fn lemma_hast0(u: Ty<InlineRef>, v: Env, t: Ty<TranspileRef>, n: TypeName, k: nat) requires is_comp(u, t, s0(v)), ty_mentions(t, n, k) ensures exists|id: SemId| #[trigger] some_comp(u, h0(id)) && id_named(id, v, n)
{
    reveal(ty_mentions); reveal(some_comp);
    let i = choose|i: int| 0 <= i < comps(t).len() && mentions(#[trigger] comps(t)[i], n, k);
    assert(s0(v)(comps(u)[i], comps(t)[i]));
    lemma_has0(comps(u)[i], v, comps(t)[i], n, k);
    let id = choose|id: SemId| #[trigger] has0(comps(u)[i], id) && id_named(id, v, n);
    assert(h0(id)(comps(u)[i]));
    assert(some_comp(u, h0(id)));
}
pub proof fn lemma_hasl(x: LibRef, v: Env, r: TranspileRef, n: TypeName, k: nat) requires syml(x, v, r), mentions(r, n, k) ensures exists|id: SemId| #[trigger] hasl(x, id) && id_named(id, v, n)
{
    match x {
        LibRef::Inline(u) => {
            let t = *(r->Embedded_0);
            assert(ty_mentions(t, n, (k - 1) as nat)) by { reveal(ty_mentions); }
            lemma_hast0(u, v, t, n, (k - 1) as nat);
            let id = choose|id: SemId| #[trigger] some_comp(u, h0(id)) && id_named(id, v, n);
            assert(hasl(x, id));
        }
        LibRef::Named(id) => { assert(hasl(x, id)); }
        LibRef::Extern(_) => {}
    }
}
pub proof fn lemma_hastl(u: Ty<LibRef>, v: Env, t: Ty<TranspileRef>, n: TypeName, k: nat) requires is_comp(u, t, sl(v)), ty_mentions(t, n, k) ensures exists|id: SemId| #[trigger] some_comp(u, hl(id)) && id_named(id, v, n)
{
    reveal(ty_mentions); reveal(some_comp);
    let i = choose|i: int| 0 <= i < comps(t).len() && mentions(#[trigger] comps(t)[i], n, k);
    assert(sl(v)(comps(u)[i], comps(t)[i]));
    lemma_hasl(comps(u)[i], v, comps(t)[i], n, k);
    let id = choose|id: SemId| #[trigger] hasl(comps(u)[i], id) && id_named(id, v, n);
    assert(hl(id)(comps(u)[i]));
    assert(some_comp(u, hl(id)));
}
// --- and back
/// The name stands for the id it was given for.
pub open spec fn agree(v: Env, idx: Idx, m: TypeName) -> bool { forall|id: SemId| #[trigger] v.rev.contains_key(id) && v.rev[id] == m ==> idx.contains_key(m) && idx[m] == id }
pub open spec fn agree_ty(v: Env, idx: Idx, t: Ty<TranspileRef>) -> bool { forall|m: TypeName, k: nat| #[trigger] ty_mentions(t, m, k) ==> agree(v, idx, m) }
pub open spec fn agree_ref(v: Env, idx: Idx, r: TranspileRef) -> bool { forall|m: TypeName, k: nat| #[trigger] mentions(r, m, k) ==> agree(v, idx, m) }
pub proof fn lemma_agree_comps(v: Env, idx: Idx, t: Ty<TranspileRef>, i: int) requires agree_ty(v, idx, t), 0 <= i < comps(t).len() ensures agree_ref(v, idx, comps(t)[i])
{ reveal(ty_mentions); assert forall|m: TypeName, k: nat| #[trigger] mentions(comps(t)[i], m, k) implies agree(v, idx, m) by { assert(ty_mentions(t, m, k)); } }
pub proof fn lemma_agree_embedded(v: Env, idx: Idx, r: TranspileRef) requires agree_ref(v, idx, r), r is Embedded ensures agree_ty(v, idx, *(r->Embedded_0))
{ reveal(ty_mentions); assert forall|m: TypeName, k: nat| #[trigger] ty_mentions(*(r->Embedded_0), m, k) implies agree(v, idx, m) by { assert(mentions(r, m, k + 1)); } }
pub proof fn lemma_shapes<A>(u: Ty<A>, t: Ty<TranspileRef>, w: Ty<A>) requires same_shape(u, t), same_shape(t, w) ensures same_shape(u, w) {}
pub proof fn lemma_back2(x: InlineRef2, v: Env, r: TranspileRef, idx: Idx, y: InlineRef2) requires sym2(x, v, r), comp2(r, idx, y), agree_ref(v, idx, r) ensures x == y
{
    match x {
        InlineRef2::Named(id) => { assert(mentions(r, r->Named_0, 0)); assert(y == InlineRef2::Named(id)); }
        InlineRef2::Extern(e) => { let f = y->Extern_0; assert(e.lib_id == f.lib_id && e.sem_id == f.sem_id); assert(e == f); assert(y == InlineRef2::Extern(e)); }
    }
}
pub proof fn lemma_backt2(u: Ty<InlineRef2>, v: Env, t: Ty<TranspileRef>, idx: Idx, w: Ty<InlineRef2>) requires is_comp(u, t, s2(v)), is_comp(t, w, c2(idx)), agree_ty(v, idx, t) ensures u == w
{
    lemma_shapes(u, t, w);
    assert forall|i: int| 0 <= i < comps(u).len() implies #[trigger] comps(u)[i] == comps(w)[i] by {
        assert(s2(v)(comps(u)[i], comps(t)[i]));
        assert(c2(idx)(comps(t)[i], comps(w)[i]));
        lemma_agree_comps(v, idx, t, i);
        lemma_back2(comps(u)[i], v, comps(t)[i], idx, comps(w)[i]);
    }
    assert(comps(u) =~= comps(w));
    lemma_same_def(u, w);
}
pub proof fn lemma_back1(x: InlineRef1, v: Env, r: TranspileRef, idx: Idx, y: InlineRef1) requires sym1(x, v, r), comp1(r, idx, y), agree_ref(v, idx, r) ensures x == y
{
    match x {
        InlineRef1::Inline(u) => { lemma_agree_embedded(v, idx, r); lemma_backt2(u, v, *(r->Embedded_0), idx, y->Inline_0); assert(y == InlineRef1::Inline(u)); }
        InlineRef1::Named(id) => { assert(mentions(r, r->Named_0, 0)); assert(y == InlineRef1::Named(id)); }
        InlineRef1::Extern(e) => { let f = y->Extern_0; assert(e.lib_id == f.lib_id && e.sem_id == f.sem_id); assert(e == f); assert(y == InlineRef1::Extern(e)); }
    }
}
pub proof fn lemma_backt1(u: Ty<InlineRef1>, v: Env, t: Ty<TranspileRef>, idx: Idx, w: Ty<InlineRef1>) requires is_comp(u, t, s1(v)), is_comp(t, w, c1(idx)), agree_ty(v, idx, t) ensures u == w
{
    lemma_shapes(u, t, w);
    assert forall|i: int| 0 <= i < comps(u).len() implies #[trigger] comps(u)[i] == comps(w)[i] by {
        assert(s1(v)(comps(u)[i], comps(t)[i]));
        assert(c1(idx)(comps(t)[i], comps(w)[i]));
        lemma_agree_comps(v, idx, t, i);
        lemma_back1(comps(u)[i], v, comps(t)[i], idx, comps(w)[i]);
    }
    assert(comps(u) =~= comps(w));
    lemma_same_def(u, w);
}
pub proof fn lemma_back0(x: InlineRef, v: Env, r: TranspileRef, idx: Idx, y: InlineRef) requires sym0(x, v, r), comp0(r, idx, y), agree_ref(v, idx, r) ensures x == y
{
    match x {
        InlineRef::Inline(u) => { lemma_agree_embedded(v, idx, r); lemma_backt1(u, v, *(r->Embedded_0), idx, y->Inline_0); assert(y == InlineRef::Inline(u)); }
        InlineRef::Named(id) => { assert(mentions(r, r->Named_0, 0)); assert(y == InlineRef::Named(id)); }
        InlineRef::Extern(e) => { let f = y->Extern_0; assert(e.lib_id == f.lib_id && e.sem_id == f.sem_id); assert(e == f); assert(y == InlineRef::Extern(e)); }
    }
}
pub proof fn lemma_backt0(u: Ty<InlineRef>, v: Env, t: Ty<TranspileRef>, idx: Idx, w: Ty<InlineRef>) requires is_comp(u, t, s0(v)), is_comp(t, w, c0(idx)), agree_ty(v, idx, t) ensures u == w
{
    lemma_shapes(u, t, w);
    assert forall|i: int| 0 <= i < comps(u).len() implies #[trigger] comps(u)[i] == comps(w)[i] by {
        assert(s0(v)(comps(u)[i], comps(t)[i]));
        assert(c0(idx)(comps(t)[i], comps(w)[i]));
        lemma_agree_comps(v, idx, t, i);
        lemma_back0(comps(u)[i], v, comps(t)[i], idx, comps(w)[i]);
    }
    assert(comps(u) =~= comps(w));
    lemma_same_def(u, w);
}
pub proof fn lemma_backl(x: LibRef, v: Env, r: TranspileRef, idx: Idx, y: LibRef) requires syml(x, v, r), compl(r, idx, y), agree_ref(v, idx, r) ensures x == y
{
    match x {
        LibRef::Inline(u) => { lemma_agree_embedded(v, idx, r); lemma_backt0(u, v, *(r->Embedded_0), idx, y->Inline_0); assert(y == LibRef::Inline(u)); }
        LibRef::Named(id) => { assert(mentions(r, r->Named_0, 0)); assert(y == LibRef::Named(id)); }
        LibRef::Extern(e) => { let f = y->Extern_0; assert(e.lib_id == f.lib_id && e.sem_id == f.sem_id); assert(e == f); assert(y == LibRef::Extern(e)); }
    }
}
pub proof fn lemma_backtl(u: Ty<LibRef>, v: Env, t: Ty<TranspileRef>, idx: Idx, w: Ty<LibRef>) requires is_comp(u, t, sl(v)), is_comp(t, w, cl(idx)), agree_ty(v, idx, t) ensures u == w
{
    lemma_shapes(u, t, w);
    assert forall|i: int| 0 <= i < comps(u).len() implies #[trigger] comps(u)[i] == comps(w)[i] by {
        assert(sl(v)(comps(u)[i], comps(t)[i]));
        assert(cl(idx)(comps(t)[i], comps(w)[i]));
        lemma_agree_comps(v, idx, t, i);
        lemma_backl(comps(u)[i], v, comps(t)[i], idx, comps(w)[i]);
    }
    assert(comps(u) =~= comps(w));
    lemma_same_def(u, w);
}
// --- whole libraries
/// No definition names itself in circles.
pub open spec fn id_ranked(tys: LibTys, rank: Map<SemId, nat>) -> bool {
    forall|n: TypeName, id: SemId| #![trigger tys.contains_key(n), names_id(tys[n], id)] tys.contains_key(n) && names_id(tys[n], id) ==> rank[id] < rank[sem_named(tys[n], n)]
}
pub open spec fn name_rank(tys: LibTys, rank: Map<SemId, nat>) -> Map<TypeName, nat> { tys.map_entries(|n: TypeName, t: Ty<LibRef>| rank[sem_named(t, n)]) }
pub proof fn lemma_ranked(l: TypeLib, v: Env, s: SymTys, rank: Map<SemId, nat>)
    requires env_for(l, v), lib_named(l, v, s), id_ranked(l.types@, rank) ensures ranked(s, name_rank(l.types@, rank), s.dom())
{
    reveal(ranked);
    let nr = name_rank(l.types@, rank);
    assert forall|n: TypeName, m: TypeName, k: nat| s.dom().contains(n) && #[trigger] ty_mentions(s[n], m, k) implies s.dom().contains(m) && nr[m] < nr[n] by {
        assert(s.contains_key(n));
        lemma_hastl(l.types@[n], v, s[n], m, k);
        let id = choose|id: SemId| #[trigger] some_comp(l.types@[n], hl(id)) && id_named(id, v, m);
        assert(names_id(l.types@[n], id));
        assert(l.types@.contains_key(m));
    }
}
pub proof fn lemma_back(l: TypeLib, v: Env, s: SymTys, tys: LibTys, nr: Map<TypeName, nat>, n: TypeName)
    requires env_for(l, v), lib_named(l, v, s), ranked(s, nr, s.dom()), s.contains_key(n),
        forall|m: TypeName| #![trigger s.contains_key(m)] #![trigger tys.contains_key(m)] s.contains_key(m) <==> tys.contains_key(m),
        forall|m: TypeName| #[trigger] tys.contains_key(m) ==> def_compiled(s[m], ids_of(tys), tys[m]),
    ensures tys.contains_key(n), tys[n] == l.types@[n]
    decreases nr[n]
{
    reveal(ranked);
    let idx = ids_of(tys);
    assert forall|m: TypeName, k: nat| #[trigger] ty_mentions(s[n], m, k) implies agree(v, idx, m) by {
        assert(s.dom().contains(n));
        assert(s.dom().contains(m));
        assert(s.contains_key(m));
        lemma_back(l, v, s, tys, nr, m);
        assert(idx[m] == sem_named(tys[m], m));
    }
    assert(tys.contains_key(n));
    lemma_backtl(l.types@[n], v, s[n], idx, tys[n]);
}
/// The library depends on exactly the libraries the types of which it lists.
pub open spec fn deps_match(l: TypeLib) -> bool {
    &&& forall|i: int| 0 <= i < l.dependencies.seq().len() ==> is_used(l.dependencies.seq(), ext_view(l.extern_types).dom(), i)
    &&& forall|n: LibName| #[trigger] ext_view(l.extern_types).contains_key(n) && !is_embedded(n) ==> dep_named(l.dependencies.seq(), n)
}
/// Every definition is well-formed and refers only to the definitions of the library and to the types it lists.
pub open spec fn self_contained(l: TypeLib) -> bool {
    forall|n: TypeName| #[trigger] l.types@.contains_key(n) ==> snd(l.types@[n]) && forall|v: Env| #[trigger] env_for(l, v) ==> !undeclared(l.types@[n], v)
}
pub open spec fn same_lib(a: TypeLib, b: TypeLib) -> bool {
    &&& a.name == b.name && a.dependencies@ =~= b.dependencies@ && ext_view(a.extern_types) =~= ext_view(b.extern_types)
    &&& a.types@ =~= b.types@
}
pub fn client_round_trip(l: &TypeLib, rank: Ghost<Map<SemId, nat>>) -> (r: Option<TypeLib>)
    requires self_contained(*l), deps_match(*l), id_ranked(l.types@, rank@)
    ensures r is Some, same_lib(*l, r->Some_0)
{
    proof { reveal(named_for); l.types.bounds(); l.dependencies.listed(); }
    match l.to_symbolic() {
        Err(_) => { assert(false); None }
        Ok(s) => {
            let ghost v = choose|v: Env| env_for(*l, v) && #[trigger] lib_named(*l, v, s.types@);
            let ghost t0 = s.types@;
            let ghost nr = name_rank(l.types@, rank@);
            let ghost ext = s.extern_types;
            proof {
                lemma_ranked(*l, v, t0, rank@);
                assert forall|n: TypeName| #[trigger] t0.contains_key(n) implies ty_sound_to(t0[n], 3) && !ty_deep(t0[n], 3) by { lemma_form(l.types@[n], v, t0[n]); }
                assert(ext_view(ext).dom() =~= ext@.dom());
                assert(ext_view(l.extern_types).dom() =~= l.extern_types@.dom());
                assert(t0.dom() =~= l.types@.dom());
            }
            match s.compile() {
                Err(e) => {
                    proof {
                        match e {
                            CompileError::UnknownType { unknown, within } => {
                                let (st, n, k) = choose|st: Set<TypeName>, n: TypeName, k: nat| t0[n] == within && #[trigger] blocked(t0, st, n, unknown, k);
                                lemma_not_stuck(t0, nr, st, n);
                            }
                            CompileError::UnknownLib(n) => { assert(ext_view(l.extern_types).contains_key(n)); }
                            _ => {}
                        }
                    }
                    assert(false);
                    None
                }
                Ok(m) => {
                    proof {
                        assert forall|n: TypeName| #[trigger] t0.contains_key(n) implies m.types@.contains_key(n) && m.types@[n] == l.types@[n] by { lemma_back(*l, v, t0, m.types@, nr, n); }
                        assert forall|k: TypeLibId| #[trigger] l.dependencies@.contains(k) implies m.dependencies@.contains(k) by {
                            let i = choose|i: int| 0 <= i < l.dependencies.seq().len() && (#[trigger] l.dependencies.seq()[i]).id == k;
                            assert(is_used(l.dependencies.seq(), ext_view(l.extern_types).dom(), i));
                        }
                    }
                    Some(m)
                }
            }
        }
    }
}
