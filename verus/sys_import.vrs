impl TypeFqn {
//@fn src/typesys/type_sys.rs TypeFqn::with
//@ ret r
//@ sigsub impl Into<LibName> ==> LibName
//@ sigsub impl Into<TypeName> ==> TypeName
//@ subst ?lib.into() ==> lib
//@ subst ?name.into() ==> name
//@ spec ensures r.lib == lib, r.name == name
//@end
}
impl SymTy {
//@fn src/typesys/type_sys.rs SymTy::named
//@ ret r
//@ spec ensures r.orig == Some(TypeFqn { lib: lib_name, name: ty_name }), r.ty == ty
//@end
//@fn src/typesys/type_sys.rs SymTy::unnamed
//@ ret r
//@ subst ?None::<TypeFqn> ==> None
//@ spec ensures r.orig is None, r.ty == ty
//@end
//@fn src/typesys/type_sys.rs SymTy::with
//@ ret r
//@ sigsub Option<impl Into<TypeFqn>> ==> Option<TypeFqn>
//@ subst ?o.into() ==> o
//@ closure 1 -> (__r: TypeFqn) ensures __r == o
//@ spec ensures r.orig == orig, r.ty == ty
//@end
}

/// References whose meaning is the id of a definition of the system.
pub trait Flat: Translate<SemId, Context = (), Builder = SystemBuilder, Error = Error> {
    /// the id the reference stands for
    spec fn fid(self) -> SemId;
    /// inlined definitions and their ids
    spec fn adds(self, id: SemId, s: SymTy) -> bool;
    proof fn lemma_flat(self, b0: SystemBuilder, b1: SystemBuilder, r: SemId)
        requires self.translated(b0, (), b1, r)
        ensures flat_step(self.fid(), |id: SemId, s: SymTy| self.adds(id, s), b0, b1, r);
    proof fn lemma_never(self, b0: SystemBuilder, b1: SystemBuilder, e: Error)
        requires self.failed(b0, (), b1, e) ensures false;
}
pub open spec fn flat_step(fid: SemId, p: spec_fn(SemId, SymTy) -> bool, b0: SystemBuilder, b1: SystemBuilder, r: SemId) -> bool {
    r == fid && b1.pending_deps == b0.pending_deps && b1.imported_deps == b0.imported_deps && merged(b0.types@, b1.types@, p)
}
/// `t1` is `t0` with what `p` adds; everything else is kept.
#[verifier::opaque]
pub open spec fn merged(t0: Syms, t1: Syms, p: spec_fn(SemId, SymTy) -> bool) -> bool {
    &&& forall|id: SemId| #[trigger] t0.contains_key(id) ==> t1.contains_key(id)
    &&& forall|id: SemId, s: SymTy| #[trigger] p(id, s) ==> t1.contains_key(id)
    &&& forall|id: SemId| #[trigger] t1.contains_key(id) ==> p(id, t1[id]) || (t0.contains_key(id) && t1[id] == t0[id] && forall|s: SymTy| !#[trigger] p(id, s))
}
pub proof fn lemma_merge_none(t: Syms, p: spec_fn(SemId, SymTy) -> bool)
    requires forall|id: SemId, s: SymTy| !#[trigger] p(id, s) ensures merged(t, t, p)
{ reveal(merged); }
pub proof fn lemma_merge(a: Syms, b: Syms, c: Syms, p: spec_fn(SemId, SymTy) -> bool, q: spec_fn(SemId, SymTy) -> bool, r: spec_fn(SemId, SymTy) -> bool)
    requires merged(a, b, p), merged(b, c, q), forall|id: SemId, s: SymTy| #[trigger] r(id, s) <==> p(id, s) || q(id, s) ensures merged(a, c, r)
{
    reveal(merged);
    assert forall|id: SemId, s: SymTy| #[trigger] r(id, s) implies c.contains_key(id) by { if p(id, s) { assert(b.contains_key(id)); } }
    assert forall|id: SemId| #[trigger] c.contains_key(id) implies r(id, c[id]) || (a.contains_key(id) && c[id] == a[id] && forall|s: SymTy| !#[trigger] r(id, s)) by {
        if !q(id, c[id]) {
            assert(b.contains_key(id));
            if !p(id, b[id]) { assert forall|s: SymTy| !#[trigger] r(id, s) by { assert(!p(id, s) && !q(id, s)); } } else { assert(r(id, c[id])); }
        } else { assert(r(id, c[id])); }
    }
}
pub proof fn lemma_merge_insert(t: Syms, id: SemId, s: SymTy, p: spec_fn(SemId, SymTy) -> bool)
    requires forall|i: SemId, x: SymTy| #[trigger] p(i, x) <==> i == id && x == s
    ensures merged(t, t.insert(id, s), p)
{
    reveal(merged);
    let t1 = t.insert(id, s);
    assert forall|i: SemId| #[trigger] t1.contains_key(i) implies p(i, t1[i]) || (t.contains_key(i) && t1[i] == t[i] && forall|x: SymTy| !#[trigger] p(i, x)) by {}
}
pub proof fn lemma_merge_same(t0: Syms, t1: Syms, p: spec_fn(SemId, SymTy) -> bool, q: spec_fn(SemId, SymTy) -> bool)
    requires merged(t0, t1, p), forall|id: SemId, s: SymTy| #![trigger p(id, s)] #![trigger q(id, s)] p(id, s) <==> q(id, s) ensures merged(t0, t1, q)
{
    reveal(merged);
    assert forall|id: SemId| #[trigger] t1.contains_key(id) implies q(id, t1[id]) || (t0.contains_key(id) && t1[id] == t0[id] && forall|s: SymTy| !#[trigger] q(id, s)) by {
        assert(p(id, t1[id]) <==> q(id, t1[id]));
        if !p(id, t1[id]) { assert forall|s: SymTy| !#[trigger] q(id, s) by { assert(p(id, s) <==> q(id, s)); } }
    }
}
/// The definition with every reference replaced by the id it stands for.
pub open spec fn is_flat<R: Flat>(t: Ty<R>, f: Ty<SemId>) -> bool {
    same_shape(t, f) && comps(f).len() == comps(t).len() && forall|i: int| #![trigger comps(f)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() ==> comps(f)[i] == comps(t)[i].fid()
}
pub open spec fn seq_adds<R: Flat>(s: Seq<R>, n: int, id: SemId, y: SymTy) -> bool { exists|i: int| 0 <= i < n && i < s.len() && (#[trigger] s[i]).adds(id, y) }
/// What inlining the definition `t` adds to a system: the definitions inlined in it and itself.
pub open spec fn inline_adds<R: Flat>(t: Ty<R>, id: SemId, y: SymTy) -> bool {
    seq_adds(comps(t), comps(t).len() as int, id, y) || (id == sem_unnamed(t) && y.orig is None && is_flat(t, y.ty))
}
/// The flattened form of a definition is unique.
pub proof fn lemma_flat_unique<R: Flat>(t: Ty<R>, f: Ty<SemId>, g: Ty<SemId>)
    requires is_flat(t, f), is_flat(t, g) ensures f == g
{
    assert(comps(f) =~= comps(g));
    lemma_same_def(f, g);
}
/// Translating the components flattens them and adds what they inline.
pub proof fn lemma_seq_flat<R: Flat>(s: Seq<R>, b0: SystemBuilder, b1: SystemBuilder, out: Seq<SemId>)
    requires seq_translated::<R, SemId>(s, b0, (), b1, out)
    ensures out.len() == s.len(), forall|i: int| #![trigger out[i]] #![trigger s[i]] 0 <= i < s.len() ==> out[i] == s[i].fid(),
        b1.pending_deps == b0.pending_deps, b1.imported_deps == b0.imported_deps,
        merged(b0.types@, b1.types@, |id: SemId, y: SymTy| seq_adds(s, s.len() as int, id, y))
{
    reveal(seq_translated);
    let chain = choose|chain: Seq<SystemBuilder>| #[trigger] chain_upto::<R, SemId>(s, b0, (), out, chain, s.len() as int) && chain.last() == b1;
    lemma_chain_flat(s, b0, out, chain, s.len() as int);
}
pub proof fn lemma_chain_flat<R: Flat>(s: Seq<R>, b0: SystemBuilder, out: Seq<SemId>, chain: Seq<SystemBuilder>, n: int)
    requires chain_upto::<R, SemId>(s, b0, (), out, chain, s.len() as int), 0 <= n <= s.len()
    ensures forall|i: int| #![trigger out[i]] #![trigger s[i]] 0 <= i < n ==> out[i] == s[i].fid(),
        chain[n].pending_deps == b0.pending_deps, chain[n].imported_deps == b0.imported_deps,
        merged(b0.types@, chain[n].types@, |id: SemId, y: SymTy| seq_adds(s, n, id, y))
    decreases n
{
    let q = |id: SemId, y: SymTy| seq_adds(s, n, id, y);
    if n == 0 {
        lemma_merge_none(b0.types@, q);
    } else {
        let m = n - 1;
        lemma_chain_flat(s, b0, out, chain, m);
        assert(s[m].translated(chain[m], (), chain[m + 1], out[m]));
        s[m].lemma_flat(chain[m], chain[n], out[m]);
        let p = |id: SemId, y: SymTy| seq_adds(s, m, id, y);
        let a = |id: SemId, y: SymTy| s[m].adds(id, y);
        assert forall|id: SemId, y: SymTy| #[trigger] q(id, y) <==> p(id, y) || a(id, y) by {
            if q(id, y) { let i = choose|i: int| 0 <= i < n && i < s.len() && (#[trigger] s[i]).adds(id, y); if i < m { assert(p(id, y)); } }
            if a(id, y) { assert(s[m].adds(id, y)); }
        }
        lemma_merge(b0.types@, chain[m].types@, chain[n].types@, p, a, q);
    }
}
pub proof fn lemma_ty_flat<R: Flat>(t: Ty<R>, b0: SystemBuilder, b1: SystemBuilder, r: Ty<SemId>)
    requires <Ty<R> as Translate<Ty<SemId>>>::translated(t, b0, (), b1, r)
    ensures is_flat(t, r), b1.pending_deps == b0.pending_deps, b1.imported_deps == b0.imported_deps,
        merged(b0.types@, b1.types@, |id: SemId, y: SymTy| seq_adds(comps(t), comps(t).len() as int, id, y))
{ lemma_seq_flat(comps(t), b0, b1, comps(r)); }
pub proof fn lemma_ty_never<R: Flat>(t: Ty<R>, b0: SystemBuilder, b1: SystemBuilder, e: Error)
    requires <Ty<R> as Translate<Ty<SemId>>>::failed(t, b0, (), b1, e) ensures false
{
    reveal(seq_failed);
    let (chain, out, k) = choose|chain: Seq<SystemBuilder>, out: Seq<SemId>, k: int| #[trigger] chain_upto::<R, SemId>(comps(t), b0, (), out, chain, k) && k < comps(t).len() && <R as Translate<SemId>>::failed(comps(t)[k], chain.last(), (), b1, e);
    comps(t)[k].lemma_never(chain.last(), b1, e);
}
/// The definition can be translated: the names of a union's variants differ, also in inlined definitions.
pub open spec fn ty_sound<R: Translate<SemId>>(t: Ty<R>) -> bool { union_names_differ(t) && all_sound::<R, SemId>(comps(t)) }
impl SystemBuilder {
//@fn src/typesys/translate.rs SystemBuilder::translate_inline
//@ ret r
//@ sigsub Ref: LibSubref ==> Ref: Flat
//@ sigsub where Ref: Translate<SemId, Context = (), Builder = SystemBuilder, Error = Error> ==>
//@ spec requires ty_sound::<Ref>(inline_ty)
//@ spec ensures r is Ok, r->Ok_0 == sem_unnamed(inline_ty), final(self).pending_deps == old(self).pending_deps, final(self).imported_deps == old(self).imported_deps,
//@ spec merged(old(self).types@, final(self).types@, |id: SemId, y: SymTy| inline_adds(inline_ty, id, y))
//@ at start
 let ghost __b0 = *self; let ghost __t = inline_ty;
 let ghost __p = |id: SemId, y: SymTy| seq_adds(comps(__t), comps(__t).len() as int, id, y);
 let ghost __r = |id: SemId, y: SymTy| inline_adds(__t, id, y);
 proof {
 assert forall|b1: SystemBuilder, x: Ty<SemId>| #[trigger] <Ty<Ref> as Translate<Ty<SemId>>>::translated(__t, __b0, (), b1, x) implies
     is_flat(__t, x) && b1.pending_deps == __b0.pending_deps && b1.imported_deps == __b0.imported_deps && merged(__b0.types@, b1.types@, __p)
     && forall|y: SymTy| y.orig is None && y.ty == x ==> merged(__b0.types@, #[trigger] b1.types@.insert(sem_unnamed(__t), y), __r) by {
   lemma_ty_flat(__t, __b0, b1, x);
   assert forall|y: SymTy| y.orig is None && y.ty == x implies merged(__b0.types@, #[trigger] b1.types@.insert(sem_unnamed(__t), y), __r) by {
     let id = sem_unnamed(__t);
     let q = |i: SemId, z: SymTy| i == id && z == y;
     lemma_merge_insert(b1.types@, id, y, q);
     assert forall|i: SemId, z: SymTy| #[trigger] __r(i, z) <==> __p(i, z) || q(i, z) by {
       if __r(i, z) && !__p(i, z) { lemma_flat_unique(__t, z.ty, x); assert(z == y); }
     }
     lemma_merge(__b0.types@, b1.types@, b1.types@.insert(id, y), __p, q, __r);
   }
 }
 assert forall|b1: SystemBuilder, e: Error| #[trigger] <Ty<Ref> as Translate<Ty<SemId>>>::failed(__t, __b0, (), b1, e) implies false by { lemma_ty_never(__t, __b0, b1, e); }
 }
//@end
}
pub open spec fn fid_InlineRef2(x: InlineRef2) -> SemId { match x { InlineRef2::Named(id) => id, InlineRef2::Extern(e) => e.sem_id,  } }
pub open spec fn adds_InlineRef2(x: InlineRef2, id: SemId, y: SymTy) -> bool { match x {  _ => false } }
impl Translate<SemId> for InlineRef2 {
    type Context = ();
    type Builder = SystemBuilder;
    type Error = Error;
    open spec fn sound(self) -> bool { match self {  _ => true } }
    open spec fn translated(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, r: SemId) -> bool { flat_step(fid_InlineRef2(self), |id: SemId, y: SymTy| adds_InlineRef2(self, id, y), b0, b1, r) }
    open spec fn failed(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, e: Error) -> bool { false }
//@fn src/typesys/translate.rs <InlineRef2 as Translate<SemId>>::translate
//@ at start
 proof { let p = |id: SemId, y: SymTy| adds_InlineRef2(self, id, y); assert((forall|id: SemId, y: SymTy| !#[trigger] p(id, y)) ==> merged(_builder.types@, _builder.types@, p)) by { if forall|id: SemId, y: SymTy| !#[trigger] p(id, y) { lemma_merge_none(_builder.types@, p); } }
 
 }
//@end
}
impl Flat for InlineRef2 {
    open spec fn fid(self) -> SemId { fid_InlineRef2(self) }
    open spec fn adds(self, id: SemId, y: SymTy) -> bool { adds_InlineRef2(self, id, y) }
    proof fn lemma_flat(self, b0: SystemBuilder, b1: SystemBuilder, r: SemId) {
        lemma_merge_same(b0.types@, b1.types@, |id: SemId, y: SymTy| adds_InlineRef2(self, id, y), |id: SemId, y: SymTy| self.adds(id, y));
    }
    proof fn lemma_never(self, b0: SystemBuilder, b1: SystemBuilder, e: Error) { }
}
pub open spec fn fid_InlineRef1(x: InlineRef1) -> SemId { match x { InlineRef1::Named(id) => id, InlineRef1::Extern(e) => e.sem_id, InlineRef1::Inline(t) => sem_unnamed(t), } }
pub open spec fn adds_InlineRef1(x: InlineRef1, id: SemId, y: SymTy) -> bool { match x { InlineRef1::Inline(t) => inline_adds(t, id, y), _ => false } }
impl Translate<SemId> for InlineRef1 {
    type Context = ();
    type Builder = SystemBuilder;
    type Error = Error;
    open spec fn sound(self) -> bool { match self { InlineRef1::Inline(t) => ty_sound::<InlineRef2>(t), _ => true } }
    open spec fn translated(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, r: SemId) -> bool { flat_step(fid_InlineRef1(self), |id: SemId, y: SymTy| adds_InlineRef1(self, id, y), b0, b1, r) }
    open spec fn failed(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, e: Error) -> bool { false }
//@fn src/typesys/translate.rs <InlineRef1 as Translate<SemId>>::translate
//@ at start
 proof { let p = |id: SemId, y: SymTy| adds_InlineRef1(self, id, y); assert((forall|id: SemId, y: SymTy| !#[trigger] p(id, y)) ==> merged(builder.types@, builder.types@, p)) by { if forall|id: SemId, y: SymTy| !#[trigger] p(id, y) { lemma_merge_none(builder.types@, p); } }
 if self is Inline { let t = self->Inline_0; let q = |id: SemId, y: SymTy| inline_adds(t, id, y);
 assert forall|t1: Syms| #[trigger] merged(builder.types@, t1, q) implies merged(builder.types@, t1, p) by { lemma_merge_same(builder.types@, t1, q, p); } }
 }
//@end
}
impl Flat for InlineRef1 {
    open spec fn fid(self) -> SemId { fid_InlineRef1(self) }
    open spec fn adds(self, id: SemId, y: SymTy) -> bool { adds_InlineRef1(self, id, y) }
    proof fn lemma_flat(self, b0: SystemBuilder, b1: SystemBuilder, r: SemId) {
        lemma_merge_same(b0.types@, b1.types@, |id: SemId, y: SymTy| adds_InlineRef1(self, id, y), |id: SemId, y: SymTy| self.adds(id, y));
    }
    proof fn lemma_never(self, b0: SystemBuilder, b1: SystemBuilder, e: Error) { }
}
pub open spec fn fid_InlineRef(x: InlineRef) -> SemId { match x { InlineRef::Named(id) => id, InlineRef::Extern(e) => e.sem_id, InlineRef::Inline(t) => sem_unnamed(t), } }
pub open spec fn adds_InlineRef(x: InlineRef, id: SemId, y: SymTy) -> bool { match x { InlineRef::Inline(t) => inline_adds(t, id, y), _ => false } }
impl Translate<SemId> for InlineRef {
    type Context = ();
    type Builder = SystemBuilder;
    type Error = Error;
    open spec fn sound(self) -> bool { match self { InlineRef::Inline(t) => ty_sound::<InlineRef1>(t), _ => true } }
    open spec fn translated(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, r: SemId) -> bool { flat_step(fid_InlineRef(self), |id: SemId, y: SymTy| adds_InlineRef(self, id, y), b0, b1, r) }
    open spec fn failed(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, e: Error) -> bool { false }
//@fn src/typesys/translate.rs <InlineRef as Translate<SemId>>::translate
//@ at start
 proof { let p = |id: SemId, y: SymTy| adds_InlineRef(self, id, y); assert((forall|id: SemId, y: SymTy| !#[trigger] p(id, y)) ==> merged(builder.types@, builder.types@, p)) by { if forall|id: SemId, y: SymTy| !#[trigger] p(id, y) { lemma_merge_none(builder.types@, p); } }
 if self is Inline { let t = self->Inline_0; let q = |id: SemId, y: SymTy| inline_adds(t, id, y);
 assert forall|t1: Syms| #[trigger] merged(builder.types@, t1, q) implies merged(builder.types@, t1, p) by { lemma_merge_same(builder.types@, t1, q, p); } }
 }
//@end
}
impl Flat for InlineRef {
    open spec fn fid(self) -> SemId { fid_InlineRef(self) }
    open spec fn adds(self, id: SemId, y: SymTy) -> bool { adds_InlineRef(self, id, y) }
    proof fn lemma_flat(self, b0: SystemBuilder, b1: SystemBuilder, r: SemId) {
        lemma_merge_same(b0.types@, b1.types@, |id: SemId, y: SymTy| adds_InlineRef(self, id, y), |id: SemId, y: SymTy| self.adds(id, y));
    }
    proof fn lemma_never(self, b0: SystemBuilder, b1: SystemBuilder, e: Error) { }
}
pub open spec fn fid_LibRef(x: LibRef) -> SemId { match x { LibRef::Named(id) => id, LibRef::Extern(e) => e.sem_id, LibRef::Inline(t) => sem_unnamed(t), } }
pub open spec fn adds_LibRef(x: LibRef, id: SemId, y: SymTy) -> bool { match x { LibRef::Inline(t) => inline_adds(t, id, y), _ => false } }
impl Translate<SemId> for LibRef {
    type Context = ();
    type Builder = SystemBuilder;
    type Error = Error;
    open spec fn sound(self) -> bool { match self { LibRef::Inline(t) => ty_sound::<InlineRef>(t), _ => true } }
    open spec fn translated(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, r: SemId) -> bool { flat_step(fid_LibRef(self), |id: SemId, y: SymTy| adds_LibRef(self, id, y), b0, b1, r) }
    open spec fn failed(self, b0: SystemBuilder, ctx: (), b1: SystemBuilder, e: Error) -> bool { false }
//@fn src/typesys/translate.rs <LibRef as Translate<SemId>>::translate
//@ at start
 proof { let p = |id: SemId, y: SymTy| adds_LibRef(self, id, y); assert((forall|id: SemId, y: SymTy| !#[trigger] p(id, y)) ==> merged(builder.types@, builder.types@, p)) by { if forall|id: SemId, y: SymTy| !#[trigger] p(id, y) { lemma_merge_none(builder.types@, p); } }
 if self is Inline { let t = self->Inline_0; let q = |id: SemId, y: SymTy| inline_adds(t, id, y);
 assert forall|t1: Syms| #[trigger] merged(builder.types@, t1, q) implies merged(builder.types@, t1, p) by { lemma_merge_same(builder.types@, t1, q, p); } }
 }
//@end
}
impl Flat for LibRef {
    open spec fn fid(self) -> SemId { fid_LibRef(self) }
    open spec fn adds(self, id: SemId, y: SymTy) -> bool { adds_LibRef(self, id, y) }
    proof fn lemma_flat(self, b0: SystemBuilder, b1: SystemBuilder, r: SemId) {
        lemma_merge_same(b0.types@, b1.types@, |id: SemId, y: SymTy| adds_LibRef(self, id, y), |id: SemId, y: SymTy| self.adds(id, y));
    }
    proof fn lemma_never(self, b0: SystemBuilder, b1: SystemBuilder, e: Error) { }
}
/// What the named definition adds to a system.
pub open spec fn entry_adds(lib: LibName, n: TypeName, t: Ty<LibRef>, id: SemId, y: SymTy) -> bool {
    seq_adds(comps(t), comps(t).len() as int, id, y) || (id == sem_named(t, n) && y.orig == Some(TypeFqn { lib: lib, name: n }) && is_flat(t, y.ty))
}
pub open spec fn lib_adds(l: TypeLib, id: SemId, y: SymTy) -> bool { exists|n: TypeName| #[trigger] l.types@.contains_key(n) && entry_adds(l.name, n, l.types@[n], id, y) }

/// The entries before `n` of a list of named definitions add it.
pub open spec fn list_adds(lib: LibName, s: Seq<(TypeName, Ty<LibRef>)>, n: int, id: SemId, y: SymTy) -> bool { exists|i: int| 0 <= i < n && i < s.len() && entry_adds(lib, (#[trigger] s[i]).0, s[i].1, id, y) }
pub open spec fn list_set(lib: LibName, s: Seq<(TypeName, Ty<LibRef>)>, n: int) -> spec_fn(SemId, SymTy) -> bool { |id: SemId, y: SymTy| list_adds(lib, s, n, id, y) }
pub open spec fn lib_set(l: TypeLib) -> spec_fn(SemId, SymTy) -> bool { |id: SemId, y: SymTy| lib_adds(l, id, y) }
pub proof fn lemma_list_adds(l: TypeLib, s: Seq<(TypeName, Ty<LibRef>)>, t0: Syms, t1: Syms)
    requires lists_map(l.types@, s), merged(t0, t1, list_set(l.name, s, s.len() as int))
    ensures merged(t0, t1, lib_set(l))
{
    let p = list_set(l.name, s, s.len() as int);
    let q = lib_set(l);
    assert forall|id: SemId, y: SymTy| #![trigger p(id, y)] #![trigger q(id, y)] p(id, y) <==> q(id, y) by {
        if p(id, y) { let i = choose|i: int| 0 <= i < s.len() && entry_adds(l.name, (#[trigger] s[i]).0, s[i].1, id, y); assert(l.types@.contains_key(s[i].0)); }
        if q(id, y) { let n = choose|n: TypeName| #[trigger] l.types@.contains_key(n) && entry_adds(l.name, n, l.types@[n], id, y); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n; assert(s[i].1 == l.types@[n]); }
    }
    lemma_merge_same(t0, t1, p, q);
}
/// One more entry: its inlined definitions, then itself.
pub proof fn lemma_list_step(lib: LibName, s: Seq<(TypeName, Ty<LibRef>)>, n: int, t0: Syms, b0: SystemBuilder, b1: SystemBuilder, x: Ty<SemId>, y: SymTy)
    requires 0 <= n < s.len(), merged(t0, b0.types@, list_set(lib, s, n)),
        <Ty<LibRef> as Translate<Ty<SemId>>>::translated(s[n].1, b0, (), b1, x), y.ty == x, y.orig == Some(TypeFqn { lib: lib, name: s[n].0 })
    ensures merged(t0, b1.types@.insert(sem_named(s[n].1, s[n].0), y), list_set(lib, s, n + 1)),
        b1.pending_deps == b0.pending_deps, b1.imported_deps == b0.imported_deps
{
    let t = s[n].1; let id = sem_named(t, s[n].0);
    lemma_ty_flat(t, b0, b1, x);
    let p = list_set(lib, s, n);
    let q = |id: SemId, y: SymTy| seq_adds(comps(t), comps(t).len() as int, id, y);
    let m = |i: SemId, z: SymTy| i == id && z == y;
    let pq = |id: SemId, y: SymTy| p(id, y) || q(id, y);
    let r = list_set(lib, s, n + 1);
    lemma_merge(t0, b0.types@, b1.types@, p, q, pq);
    lemma_merge_insert(b1.types@, id, y, m);
    assert forall|i: SemId, z: SymTy| #[trigger] r(i, z) <==> pq(i, z) || m(i, z) by {
        if r(i, z) {
            let k = choose|k: int| 0 <= k < n + 1 && k < s.len() && entry_adds(lib, (#[trigger] s[k]).0, s[k].1, i, z);
            if k < n { assert(p(i, z)); } else if !q(i, z) { lemma_flat_unique(t, z.ty, x); assert(z == y); }
        }
        if p(i, z) { let k = choose|k: int| 0 <= k < n && k < s.len() && entry_adds(lib, (#[trigger] s[k]).0, s[k].1, i, z); assert(s[k].0 == s[k].0 && k < n + 1); }
        if q(i, z) || m(i, z) { assert(entry_adds(lib, s[n].0, s[n].1, i, z)); }
    }
    lemma_merge(t0, b1.types@, b1.types@.insert(id, y), pq, m, r);
}
/// Names of variants differ in every definition of the library, inlined ones included.
pub open spec fn lib_sound(l: TypeLib) -> bool { forall|n: TypeName| #[trigger] l.types@.contains_key(n) ==> ty_sound::<LibRef>(l.types@[n]) }
