// ---------------------------------------------------------------------------------------------
// C16: the symbolic form of a compiled library (src/typelib/translate.rs, symbolic.rs)
// ---------------------------------------------------------------------------------------------
//@item src/typelib/translate.rs SymbolError
//@item src/typelib/translate.rs SymbolContext
impl std::default::Default for SmallOrdMap<SemId, TypeName> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<SemId, TypeName>::empty() { unimplemented!() } }
pub assume_specification<'a, T: Clone, E> [std::result::Result::<&'a T, E>::cloned] (x: Result<&'a T, E>) -> (r: Result<T, E>)
    ensures r is Ok <==> x is Ok, r is Ok ==> call_ensures(T::clone, (x->Ok_0,), r->Ok_0), r is Err ==> r->Err_0 == x->Err_0;
impl Clone for Ty<LibRef> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SymbolRef {
//@fn src/typelib/symbolic.rs SymbolRef::with
//@ ret r
//@ spec ensures r.lib_name == lib_name, r.ty_name == ty_name, r.lib_id == lib_id, r.sem_id == sem_id
//@end
}
pub fn verif_mk_Box<T>(t: T) -> (r: Box<T>) ensures *r == t { Box::new(t) }
pub fn verif_mk_Embedded(t: Box<Ty<TranspileRef>>) -> (r: TranspileRef) ensures r == TranspileRef::Embedded(t) { TranspileRef::Embedded(t) }
pub fn verif_mk_Named(n: TypeName) -> (r: TranspileRef) ensures r == TranspileRef::Named(n) { TranspileRef::Named(n) }
/// What a library declares: its own types by id, the libraries it depends on, the types it uses of each.
pub struct Env { pub rev: Map<SemId, TypeName>, pub libs: Map<TypeLibId, LibName>, pub ext: Map<LibName, Map<SemId, TypeName>> }
pub open spec fn ext_view(b: ExternTypes) -> Map<LibName, Map<SemId, TypeName>> { b@.map_entries(|l: LibName, m: SmallOrdMap<SemId, TypeName>| m@) }
pub open spec fn env_of(ctx: SymbolContext, b: ExternTypes) -> Env { Env { rev: ctx.reverse_index@, libs: ctx.lib_index@, ext: ext_view(b) } }
pub open spec fn declares(v: Env, e: ExternRef) -> bool { v.libs.contains_key(e.lib_id) && v.ext.contains_key(v.libs[e.lib_id]) && v.ext[v.libs[e.lib_id]].contains_key(e.sem_id) }
// --- one reference and its symbolic form
pub open spec fn ext_named(e: ExternRef, v: Env, s: SymbolRef) -> bool { declares(v, e) && s.lib_id == e.lib_id && s.sem_id == e.sem_id && s.lib_name == v.libs[e.lib_id] && s.ty_name == v.ext[s.lib_name][e.sem_id] }
pub open spec fn id_named(id: SemId, v: Env, n: TypeName) -> bool { v.rev.contains_key(id) && v.rev[id] == n }
pub open spec fn sym2(x: InlineRef2, v: Env, r: TranspileRef) -> bool {
    match (x, r) { (InlineRef2::Named(id), TranspileRef::Named(n)) => id_named(id, v, n), (InlineRef2::Extern(e), TranspileRef::Extern(s)) => ext_named(e, v, s), _ => false }
}
pub open spec fn s2(v: Env) -> spec_fn(InlineRef2, TranspileRef) -> bool { |x: InlineRef2, r: TranspileRef| sym2(x, v, r) }
pub open spec fn sym1(x: InlineRef1, v: Env, r: TranspileRef) -> bool {
    match (x, r) { (InlineRef1::Inline(u), TranspileRef::Embedded(t)) => is_comp(u, *t, s2(v)), (InlineRef1::Named(id), TranspileRef::Named(n)) => id_named(id, v, n), (InlineRef1::Extern(e), TranspileRef::Extern(s)) => ext_named(e, v, s), _ => false }
}
pub open spec fn s1(v: Env) -> spec_fn(InlineRef1, TranspileRef) -> bool { |x: InlineRef1, r: TranspileRef| sym1(x, v, r) }
pub open spec fn sym0(x: InlineRef, v: Env, r: TranspileRef) -> bool {
    match (x, r) { (InlineRef::Inline(u), TranspileRef::Embedded(t)) => is_comp(u, *t, s1(v)), (InlineRef::Named(id), TranspileRef::Named(n)) => id_named(id, v, n), (InlineRef::Extern(e), TranspileRef::Extern(s)) => ext_named(e, v, s), _ => false }
}
pub open spec fn s0(v: Env) -> spec_fn(InlineRef, TranspileRef) -> bool { |x: InlineRef, r: TranspileRef| sym0(x, v, r) }
pub open spec fn syml(x: LibRef, v: Env, r: TranspileRef) -> bool {
    match (x, r) { (LibRef::Inline(u), TranspileRef::Embedded(t)) => is_comp(u, *t, s0(v)), (LibRef::Named(id), TranspileRef::Named(n)) => id_named(id, v, n), (LibRef::Extern(e), TranspileRef::Extern(s)) => ext_named(e, v, s), _ => false }
}
pub open spec fn sl(v: Env) -> spec_fn(LibRef, TranspileRef) -> bool { |x: LibRef, r: TranspileRef| syml(x, v, r) }
/// A definition and its symbolic form: same structure, ids replaced by the names they stand for.
pub open spec fn def_named(t: Ty<LibRef>, v: Env, r: Ty<TranspileRef>) -> bool { is_comp(t, r, sl(v)) }
// --- references to what is not declared
pub open spec fn und2(x: InlineRef2, v: Env) -> bool { match x { InlineRef2::Named(id) => !v.rev.contains_key(id), InlineRef2::Extern(e) => !declares(v, e) } }
pub open spec fn und1(x: InlineRef1, v: Env) -> bool { match x { InlineRef1::Inline(u) => some_comp(u, u2(v)), InlineRef1::Named(id) => !v.rev.contains_key(id), InlineRef1::Extern(e) => !declares(v, e) } }
pub open spec fn und0(x: InlineRef, v: Env) -> bool { match x { InlineRef::Inline(u) => some_comp(u, u1(v)), InlineRef::Named(id) => !v.rev.contains_key(id), InlineRef::Extern(e) => !declares(v, e) } }
pub open spec fn undl(x: LibRef, v: Env) -> bool { match x { LibRef::Inline(u) => some_comp(u, u0(v)), LibRef::Named(id) => !v.rev.contains_key(id), LibRef::Extern(e) => !declares(v, e) } }
pub open spec fn u2(v: Env) -> spec_fn(InlineRef2) -> bool { |x: InlineRef2| und2(x, v) }
pub open spec fn u1(v: Env) -> spec_fn(InlineRef1) -> bool { |x: InlineRef1| und1(x, v) }
pub open spec fn u0(v: Env) -> spec_fn(InlineRef) -> bool { |x: InlineRef| und0(x, v) }
pub open spec fn ul(v: Env) -> spec_fn(LibRef) -> bool { |x: LibRef| undl(x, v) }
#[verifier::opaque]
pub open spec fn some_comp<A>(t: Ty<A>, p: spec_fn(A) -> bool) -> bool { exists|i: int| 0 <= i < comps(t).len() && p(#[trigger] comps(t)[i]) }
/// Some definition references what is not declared.
pub open spec fn undeclared(t: Ty<LibRef>, v: Env) -> bool { some_comp(t, ul(v)) }
// --- names of variants differ at every level
pub open spec fn snd1(x: InlineRef1) -> bool { match x { InlineRef1::Inline(u) => union_names_differ(u), _ => true } }
pub open spec fn snd0(x: InlineRef) -> bool { match x { InlineRef::Inline(u) => union_names_differ(u) && forall|i: int| 0 <= i < comps(u).len() ==> snd1(#[trigger] comps(u)[i]), _ => true } }
pub open spec fn sndl(x: LibRef) -> bool { match x { LibRef::Inline(u) => union_names_differ(u) && forall|i: int| 0 <= i < comps(u).len() ==> snd0(#[trigger] comps(u)[i]), _ => true } }
pub open spec fn snd(t: Ty<LibRef>) -> bool { union_names_differ(t) && forall|i: int| 0 <= i < comps(t).len() ==> sndl(#[trigger] comps(t)[i]) }
// --- what the translation of a definition amounts to
pub proof fn lemma_chain_named<R>(s: Seq<R>, b0: ExternTypes, ctx: SymbolContext, out: Seq<TranspileRef>, chain: Seq<ExternTypes>, m: int, n: int, p: spec_fn(R, TranspileRef) -> bool)
    where R: Translate<TranspileRef, Context = SymbolContext, Builder = ExternTypes, Error = SymbolError>
    requires chain_upto::<R, TranspileRef>(s, b0, ctx, out, chain, n), 0 <= m <= n,
        forall|x: R, d0: ExternTypes, d1: ExternTypes, r: TranspileRef| #[trigger] <R as Translate<TranspileRef>>::translated(x, d0, ctx, d1, r) ==> ext_view(d1) == ext_view(d0) && (ext_view(d0) == ext_view(b0) ==> p(x, r)),
    ensures ext_view(chain[m]) == ext_view(b0), forall|i: int| #![trigger out[i]] #![trigger s[i]] 0 <= i < m ==> p(s[i], out[i])
    decreases m
{
    if m > 0 {
        lemma_chain_named(s, b0, ctx, out, chain, m - 1, n, p);
        assert(s[m - 1].translated(chain[m - 1], ctx, chain[m], out[m - 1]));
    }
}
pub proof fn lemma_named<R>(t: Ty<R>, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, u: Ty<TranspileRef>, p: spec_fn(R, TranspileRef) -> bool)
    where R: Translate<TranspileRef, Context = SymbolContext, Builder = ExternTypes, Error = SymbolError>
    requires <Ty<R> as Translate<Ty<TranspileRef>>>::translated(t, b0, ctx, b1, u),
        forall|x: R, d0: ExternTypes, d1: ExternTypes, r: TranspileRef| #[trigger] <R as Translate<TranspileRef>>::translated(x, d0, ctx, d1, r) ==> ext_view(d1) == ext_view(d0) && (ext_view(d0) == ext_view(b0) ==> p(x, r)),
    ensures ext_view(b1) == ext_view(b0), is_comp(t, u, p)
{
    reveal(seq_translated);
    let s = comps(t);
    let chain = choose|chain: Seq<ExternTypes>| #[trigger] chain_upto::<R, TranspileRef>(s, b0, ctx, comps(u), chain, s.len() as int) && chain.last() == b1;
    lemma_chain_named::<R>(s, b0, ctx, comps(u), chain, s.len() as int, s.len() as int, p);
}
pub proof fn lemma_not_named<R>(t: Ty<R>, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, e: SymbolError, q: spec_fn(R) -> bool)
    where R: Translate<TranspileRef, Context = SymbolContext, Builder = ExternTypes, Error = SymbolError>
    requires <Ty<R> as Translate<Ty<TranspileRef>>>::failed(t, b0, ctx, b1, e),
        forall|x: R, d0: ExternTypes, d1: ExternTypes, r: TranspileRef| #[trigger] <R as Translate<TranspileRef>>::translated(x, d0, ctx, d1, r) ==> ext_view(d1) == ext_view(d0),
        forall|x: R, d0: ExternTypes, d1: ExternTypes, f: SymbolError| #[trigger] <R as Translate<TranspileRef>>::failed(x, d0, ctx, d1, f) && ext_view(d0) == ext_view(b0) ==> q(x),
    ensures some_comp(t, q)
{
    reveal(seq_failed); reveal(some_comp);
    let s = comps(t);
    let (chain, out, n) = choose|chain: Seq<ExternTypes>, out: Seq<TranspileRef>, n: int| #[trigger] chain_upto::<R, TranspileRef>(s, b0, ctx, out, chain, n) && n < s.len() && <R as Translate<TranspileRef>>::failed(s[n], chain.last(), ctx, b1, e);
    lemma_chain_named::<R>(s, b0, ctx, out, chain, n, n, |x: R, r: TranspileRef| true);
    assert(q(s[n]));
}
impl SymbolContext {
//@fn src/typelib/translate.rs SymbolContext::embedded
//@ ret r
//@ sigsub TypeRef + ==>
//@ subst ?Box::new ==> verif_mk_Box
//@ subst ?TranspileRef::Embedded ==> verif_mk_Embedded
//@ spec requires <Ty<Ref> as Translate<Ty<TranspileRef>>>::sound(ty)
//@ spec ensures r is Ok ==> r->Ok_0 is Embedded && <Ty<Ref> as Translate<Ty<TranspileRef>>>::translated(ty, *old(builder), *self, *final(builder), *((r->Ok_0)->Embedded_0)),
//@ spec   r is Err ==> <Ty<Ref> as Translate<Ty<TranspileRef>>>::failed(ty, *old(builder), *self, *final(builder), r->Err_0)
//@end
//@fn src/typelib/translate.rs SymbolContext::named
//@ ret r
//@ subst ?TranspileRef::Named ==> verif_mk_Named
//@ spec ensures r is Ok ==> self.reverse_index@.contains_key(id) && r->Ok_0 == TranspileRef::Named(self.reverse_index@[id]),
//@ spec   r is Err ==> !self.reverse_index@.contains_key(id)
//@end
//@fn src/typelib/translate.rs SymbolContext::external
//@ ret r
//@ spec ensures r is Ok ==> ext_view(*final(builder)) == ext_view(*old(builder)) && r->Ok_0 is Extern && ext_named(ext, env_of(*self, *old(builder)), (r->Ok_0)->Extern_0),
//@ spec   r is Err ==> !declares(env_of(*self, *old(builder)), ext)
//@end
}
impl Translate<TranspileRef> for InlineRef2 {
    type Context = SymbolContext;
    type Builder = ExternTypes;
    type Error = SymbolError;
    open spec fn sound(self) -> bool { true }
    open spec fn translated(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, r: TranspileRef) -> bool { ext_view(b1) == ext_view(b0) && sym2(self, env_of(ctx, b0), r) }
    open spec fn failed(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, e: SymbolError) -> bool { und2(self, env_of(ctx, b0)) }
//@fn src/typelib/translate.rs <InlineRef2 as Translate<TranspileRef>>::translate
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (|b1: ExternTypes, r: TranspileRef| sym2(self, env_of(*ctx, __b0), r), und2(self, env_of(*ctx, __b0)));
//@end
}
impl Translate<TranspileRef> for InlineRef1 {
    type Context = SymbolContext;
    type Builder = ExternTypes;
    type Error = SymbolError;
    open spec fn sound(self) -> bool { snd1(self) }
    open spec fn translated(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, r: TranspileRef) -> bool { ext_view(b1) == ext_view(b0) && sym1(self, env_of(ctx, b0), r) }
    open spec fn failed(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, e: SymbolError) -> bool { und1(self, env_of(ctx, b0)) }
//@fn src/typelib/translate.rs <InlineRef1 as Translate<TranspileRef>>::translate
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (snd1(self), |b1: ExternTypes, r: TranspileRef| sym1(self, env_of(*ctx, __b0), r), und1(self, env_of(*ctx, __b0)));
 proof {
 if self is Inline {
  let t = self->Inline_0;
  assert forall|d0: ExternTypes, d1: ExternTypes, u: Ty<TranspileRef>| #[trigger] <Ty<InlineRef2> as Translate<Ty<TranspileRef>>>::translated(t, d0, *ctx, d1, u) implies ext_view(d1) == ext_view(d0) && is_comp(t, u, s2(env_of(*ctx, d0))) by {
    lemma_named::<InlineRef2>(t, d0, *ctx, d1, u, s2(env_of(*ctx, d0)));
  }
  assert forall|d0: ExternTypes, d1: ExternTypes, e: SymbolError| #[trigger] <Ty<InlineRef2> as Translate<Ty<TranspileRef>>>::failed(t, d0, *ctx, d1, e) implies some_comp(t, u2(env_of(*ctx, d0))) by {
    lemma_not_named::<InlineRef2>(t, d0, *ctx, d1, e, u2(env_of(*ctx, d0)));
  }
 }
 }
//@end
}
impl Translate<TranspileRef> for InlineRef {
    type Context = SymbolContext;
    type Builder = ExternTypes;
    type Error = SymbolError;
    open spec fn sound(self) -> bool { snd0(self) }
    open spec fn translated(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, r: TranspileRef) -> bool { ext_view(b1) == ext_view(b0) && sym0(self, env_of(ctx, b0), r) }
    open spec fn failed(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, e: SymbolError) -> bool { und0(self, env_of(ctx, b0)) }
//@fn src/typelib/translate.rs <InlineRef as Translate<TranspileRef>>::translate
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (snd0(self), |b1: ExternTypes, r: TranspileRef| sym0(self, env_of(*ctx, __b0), r), und0(self, env_of(*ctx, __b0)));
 proof {
 if self is Inline {
  let t = self->Inline_0;
  assert forall|d0: ExternTypes, d1: ExternTypes, u: Ty<TranspileRef>| #[trigger] <Ty<InlineRef1> as Translate<Ty<TranspileRef>>>::translated(t, d0, *ctx, d1, u) implies ext_view(d1) == ext_view(d0) && is_comp(t, u, s1(env_of(*ctx, d0))) by {
    lemma_named::<InlineRef1>(t, d0, *ctx, d1, u, s1(env_of(*ctx, d0)));
  }
  assert forall|d0: ExternTypes, d1: ExternTypes, e: SymbolError| #[trigger] <Ty<InlineRef1> as Translate<Ty<TranspileRef>>>::failed(t, d0, *ctx, d1, e) implies some_comp(t, u1(env_of(*ctx, d0))) by {
    lemma_not_named::<InlineRef1>(t, d0, *ctx, d1, e, u1(env_of(*ctx, d0)));
  }
 }
 }
//@end
}
impl Translate<TranspileRef> for LibRef {
    type Context = SymbolContext;
    type Builder = ExternTypes;
    type Error = SymbolError;
    open spec fn sound(self) -> bool { sndl(self) }
    open spec fn translated(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, r: TranspileRef) -> bool { ext_view(b1) == ext_view(b0) && syml(self, env_of(ctx, b0), r) }
    open spec fn failed(self, b0: ExternTypes, ctx: SymbolContext, b1: ExternTypes, e: SymbolError) -> bool { undl(self, env_of(ctx, b0)) }
//@fn src/typelib/translate.rs <LibRef as Translate<TranspileRef>>::translate
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (sndl(self), |b1: ExternTypes, r: TranspileRef| syml(self, env_of(*ctx, __b0), r), undl(self, env_of(*ctx, __b0)));
 proof {
 if self is Inline {
  let t = self->Inline_0;
  assert forall|d0: ExternTypes, d1: ExternTypes, u: Ty<TranspileRef>| #[trigger] <Ty<InlineRef> as Translate<Ty<TranspileRef>>>::translated(t, d0, *ctx, d1, u) implies ext_view(d1) == ext_view(d0) && is_comp(t, u, s0(env_of(*ctx, d0))) by {
    lemma_named::<InlineRef>(t, d0, *ctx, d1, u, s0(env_of(*ctx, d0)));
  }
  assert forall|d0: ExternTypes, d1: ExternTypes, e: SymbolError| #[trigger] <Ty<InlineRef> as Translate<Ty<TranspileRef>>>::failed(t, d0, *ctx, d1, e) implies some_comp(t, u0(env_of(*ctx, d0))) by {
    lemma_not_named::<InlineRef>(t, d0, *ctx, d1, e, u0(env_of(*ctx, d0)));
  }
 }
 }
//@end
}
// --- libraries
impl<R> Ty<R> { pub open spec fn spec_sem_id_named(&self, n: &TypeName) -> SemId { sem_named(*self, *n) } }
/// What the translation of a definition amounts to.
pub proof fn lemma_of_named()
    ensures
        forall|t: Ty<LibRef>, d0: ExternTypes, ctx: SymbolContext, d1: ExternTypes, u: Ty<TranspileRef>| #[trigger] <Ty<LibRef> as Translate<Ty<TranspileRef>>>::translated(t, d0, ctx, d1, u) ==> ext_view(d1) == ext_view(d0) && def_named(t, env_of(ctx, d0), u),
        forall|t: Ty<LibRef>, d0: ExternTypes, ctx: SymbolContext, d1: ExternTypes, e: SymbolError| #[trigger] <Ty<LibRef> as Translate<Ty<TranspileRef>>>::failed(t, d0, ctx, d1, e) ==> undeclared(t, env_of(ctx, d0)),
{
    assert forall|t: Ty<LibRef>, d0: ExternTypes, ctx: SymbolContext, d1: ExternTypes, u: Ty<TranspileRef>| #[trigger] <Ty<LibRef> as Translate<Ty<TranspileRef>>>::translated(t, d0, ctx, d1, u) implies ext_view(d1) == ext_view(d0) && def_named(t, env_of(ctx, d0), u) by {
        lemma_named::<LibRef>(t, d0, ctx, d1, u, sl(env_of(ctx, d0)));
    }
    assert forall|t: Ty<LibRef>, d0: ExternTypes, ctx: SymbolContext, d1: ExternTypes, e: SymbolError| #[trigger] <Ty<LibRef> as Translate<Ty<TranspileRef>>>::failed(t, d0, ctx, d1, e) implies undeclared(t, env_of(ctx, d0)) by {
        lemma_not_named::<LibRef>(t, d0, ctx, d1, e, ul(env_of(ctx, d0)));
    }
}
pub open spec fn lib_named(l: TypeLib, v: Env, s: SymTys) -> bool {
    &&& forall|n: TypeName| #![trigger l.types@.contains_key(n)] #![trigger s.contains_key(n)] l.types@.contains_key(n) <==> s.contains_key(n)
    &&& forall|n: TypeName| #[trigger] s.contains_key(n) ==> def_named(l.types@[n], v, s[n])
}
/// The names of the types and of the dependencies of the library, by id, and its lists of the types of other libraries.
pub open spec fn env_for(l: TypeLib, v: Env) -> bool {
    &&& v.ext == ext_view(l.extern_types)
    &&& forall|n: TypeName| #[trigger] l.types@.contains_key(n) ==> v.rev.contains_key(sem_named(l.types@[n], n))
    &&& forall|id: SemId| #[trigger] v.rev.contains_key(id) ==> l.types@.contains_key(v.rev[id]) && sem_named(l.types@[v.rev[id]], v.rev[id]) == id
    &&& forall|i: int| 0 <= i < l.dependencies.seq().len() ==> v.libs.contains_key((#[trigger] l.dependencies.seq()[i]).id) && v.libs[l.dependencies.seq()[i].id] == l.dependencies.seq()[i].name
    &&& forall|id: TypeLibId| #[trigger] v.libs.contains_key(id) ==> has_dep(l.dependencies.seq(), id)
}
pub open spec fn each_named(s: Seq<(TypeName, Ty<LibRef>)>, v: Env, items: Seq<(TypeName, Ty<TranspileRef>)>) -> bool {
    forall|i: int| #![trigger items[i]] #![trigger s[i]] 0 <= i < items.len() ==> items[i].0 == s[i].0 && def_named(s[i].1, v, items[i].1)
}
pub proof fn lemma_each_named(l: TypeLib, s: Seq<(TypeName, Ty<LibRef>)>, v: Env, items: Seq<(TypeName, Ty<TranspileRef>)>, m: Map<TypeName, Ty<TranspileRef>>)
    requires lists_map(l.types@, s), each_named(s, v, items), items.len() == s.len(), collects(m, items)
    ensures lib_named(l, v, m), m.dom() =~= l.types@.dom()
{
    assert forall|n: TypeName| #[trigger] l.types@.contains_key(n) implies m.contains_key(n) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == n; assert(items[i].0 == n); }
}
#[verifier::opaque]
pub open spec fn named_for(l: TypeLib, s: SymTys) -> bool { exists|v: Env| env_for(l, v) && #[trigger] lib_named(l, v, s) }
impl TypeLib {
//@fn src/typelib/symbolic.rs TypeLib::to_symbolic
//@ ret r
//@ twin sem_id_named
//@ subst ?Confined::try_from ==> SymTypes::try_from
//@ spec requires forall|n: TypeName| #[trigger] self.types@.contains_key(n) ==> snd(self.types@[n])
//@ spec ensures r is Ok ==> (r->Ok_0).name == self.name && (r->Ok_0).dependencies == self.dependencies && ext_view((r->Ok_0).extern_types) == ext_view(self.extern_types)
//@ spec   && named_for(*self, (r->Ok_0).types@),
//@ spec   r is Err ==> exists|v: Env, n: TypeName| env_for(*self, v) && self.types@.contains_key(n) && #[trigger] undeclared(self.types@[n], v)
//@ at start
 proof { lemma_of_named(); self.types.bounds(); }
//@ at after let ctx
 let ghost __v = env_of(ctx, self.extern_types);
 proof { assert(env_for(*self, __v)); }
//@ loop 1
 lists_map(self.types@, self.types.seq()), __all1.len() == self.types.seq().len(), forall|i: int| #![trigger self.types.seq()[i]] #![trigger __all1[i]] 0 <= i < __all1.len() ==> *__all1[i].0 == self.types.seq()[i].0 && *__all1[i].1 == self.types.seq()[i].1,
 forall|n: TypeName| #[trigger] self.types@.contains_key(n) ==> snd(self.types@[n]), env_for(*self, __v), env_of(ctx, extern_types) == __v,
 __items@.len() == __it1.pos(), each_named(self.types.seq(), __v, __items@),
//@ at at loop 1 start
 proof { lemma_of_named(); assert(self.types@.contains_key(*name) && self.types@[*name] == *ty); }
//@ at after loop 1
 proof {
  assert forall|m: Map<TypeName, Ty<TranspileRef>>| #[trigger] collects(m, __items@) implies named_for(*self, m) && m.dom() =~= self.types@.dom() by { reveal(named_for); lemma_each_named(*self, self.types.seq(), __v, __items@, m); }
 }
//@end
}
