// ---------------------------------------------------------------------------------------------
// Symbolic libraries (src/typelib/symbolic.rs, compile.rs): types
// ---------------------------------------------------------------------------------------------
conf_map!(TinyOrdMap, 0, 255);
conf_map!(SmallOrdMap, 0, 65535);
conf_map!(SymTypes, 1, 0xffff_ffff_ffff_ffff);
pub type ExternTypes = TinyOrdMap<LibName, SmallOrdMap<SemId, TypeName>>;
//@item src/typelib/type_lib.rs TypeLib ;; TinyOrdSet<Dependency> ==> TinyDepSet ;; TypeMap ==> TypeMap<TypeName, Ty<LibRef>>
//@item src/typelib/symbolic.rs SymbolRef
//@item src/typelib/symbolic.rs TranspileRef
//@item src/typelib/symbolic.rs SymbolicLib ;; ;; TinyOrdSet<Dependency> ==> TinyDepSet ;; NonEmptyOrdMap<TypeName, Ty<TranspileRef>> ==> SymTypes<TypeName, Ty<TranspileRef>>
//@item src/typelib/compile.rs CompileError
//@item src/typelib/compile.rs NestedContext
pub type TypeIndex = BTreeMap<TypeName, SemId>;
pub type SymTys = Map<TypeName, Ty<TranspileRef>>;
pub type Idx = Map<TypeName, SemId>;
/// derived
impl Clone for Ty<TranspileRef> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// The ids of definitions (their computation is the subject of C01).
pub uninterp spec fn sem_named<R>(t: Ty<R>, n: TypeName) -> SemId;
impl<R> Ty<R> {
    #[verifier::external_body] pub fn sem_id_named(&self, n: &TypeName) -> (r: SemId) ensures r == sem_named(*self, *n) { unimplemented!() }
}
/// The name of the pseudo-library of embedded types.
pub const LIB_EMBEDDED: &'static str = "_";
pub open spec fn is_embedded(l: LibName) -> bool { l.bytes() == lit_bytes(LIB_EMBEDDED) }
#[verifier::external_body]
pub fn verif_libname(s: &'static str) -> (r: LibName) ensures r.bytes() == lit_bytes(s) { unimplemented!() }
impl ExternRef {
//@fn src/typelib/type_lib.rs ExternRef::with
//@ ret r
//@ spec ensures r.lib_id == lib_id, r.sem_id == sem_id
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<SymbolRef> for ExternRef {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(r: SymbolRef) -> Self { ExternRef { lib_id: r.lib_id, sem_id: r.sem_id } }
}
impl From<SymbolRef> for ExternRef {
//@fn src/typelib/symbolic.rs <ExternRef as From<SymbolRef>>::from
//@ ret res
//@end
}

/// `x` names `n` within `k` levels of embedded definitions.
pub open spec fn mentions(x: TranspileRef, n: TypeName, k: nat) -> bool decreases k {
    match x {
        TranspileRef::Named(m) => m == n,
        TranspileRef::Embedded(t) => k > 0 && exists|i: int| 0 <= i < comps(*t).len() && mentions(#[trigger] comps(*t)[i], n, (k - 1) as nat),
        TranspileRef::Extern(_) => false,
    }
}
#[verifier::opaque]
pub open spec fn ty_mentions(t: Ty<TranspileRef>, n: TypeName, k: nat) -> bool { exists|i: int| 0 <= i < comps(t).len() && mentions(#[trigger] comps(t)[i], n, k) }
pub proof fn lemma_mentions_more(x: TranspileRef, n: TypeName, k: nat, l: nat) requires mentions(x, n, k), k <= l ensures mentions(x, n, l) decreases k
{
    if let TranspileRef::Embedded(t) = x {
        let i = choose|i: int| 0 <= i < comps(*t).len() && mentions(#[trigger] comps(*t)[i], n, (k - 1) as nat);
        lemma_mentions_more(comps(*t)[i], n, (k - 1) as nat, (l - 1) as nat);
    }
}
/// Embedded definitions are nested deeper than `k` levels.
pub open spec fn deep(x: TranspileRef, k: nat) -> bool decreases k {
    match x { TranspileRef::Embedded(t) => k == 0 || exists|i: int| 0 <= i < comps(*t).len() && deep(#[trigger] comps(*t)[i], (k - 1) as nat), _ => false }
}
#[verifier::opaque]
pub open spec fn ty_deep(t: Ty<TranspileRef>, k: nat) -> bool { exists|i: int| 0 <= i < comps(t).len() && deep(#[trigger] comps(t)[i], k) }
/// Everything named within `k` levels is in the index, and there are no deeper levels.
pub open spec fn closed(x: TranspileRef, idx: Idx, k: nat) -> bool {
    !deep(x, k) && forall|n: TypeName, l: nat| #[trigger] mentions(x, n, l) ==> idx.contains_key(n)
}
pub open spec fn ty_closed(t: Ty<TranspileRef>, idx: Idx, k: nat) -> bool {
    !ty_deep(t, k) && forall|n: TypeName, l: nat| #[trigger] ty_mentions(t, n, l) ==> idx.contains_key(n)
}
/// Some name is not in the index.
#[verifier::opaque]
pub open spec fn unknown(x: TranspileRef, idx: Idx) -> bool { exists|n: TypeName, l: nat| #[trigger] mentions(x, n, l) && !idx.contains_key(n) }
#[verifier::opaque]
pub open spec fn ty_unknown(t: Ty<TranspileRef>, idx: Idx) -> bool { exists|n: TypeName, l: nat| #[trigger] ty_mentions(t, n, l) && !idx.contains_key(n) }

/// The references of two definitions correspond.
pub open spec fn is_comp<A, B>(t: Ty<A>, u: Ty<B>, p: spec_fn(A, B) -> bool) -> bool {
    same_shape(t, u) && comps(u).len() == comps(t).len() && forall|i: int| #![trigger comps(u)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() ==> p(comps(t)[i], comps(u)[i])
}
pub open spec fn ext_of(s: SymbolRef, e: ExternRef) -> bool { e.lib_id == s.lib_id && e.sem_id == s.sem_id }
// What a compiled reference stands for, given the ids of the names; one step of nesting each.
pub open spec fn comp2(x: TranspileRef, idx: Idx, r: InlineRef2) -> bool {
    match (x, r) { (TranspileRef::Named(n), InlineRef2::Named(id)) => idx.contains_key(n) && idx[n] == id, (TranspileRef::Extern(s), InlineRef2::Extern(e)) => ext_of(s, e), _ => false }
}
pub open spec fn c2(idx: Idx) -> spec_fn(TranspileRef, InlineRef2) -> bool { |x: TranspileRef, r: InlineRef2| comp2(x, idx, r) }
pub open spec fn comp1(x: TranspileRef, idx: Idx, r: InlineRef1) -> bool {
    match (x, r) { (TranspileRef::Embedded(t), InlineRef1::Inline(u)) => is_comp(*t, u, c2(idx)), (TranspileRef::Named(n), InlineRef1::Named(id)) => idx.contains_key(n) && idx[n] == id, (TranspileRef::Extern(s), InlineRef1::Extern(e)) => ext_of(s, e), _ => false }
}
pub open spec fn c1(idx: Idx) -> spec_fn(TranspileRef, InlineRef1) -> bool { |x: TranspileRef, r: InlineRef1| comp1(x, idx, r) }
pub open spec fn comp0(x: TranspileRef, idx: Idx, r: InlineRef) -> bool {
    match (x, r) { (TranspileRef::Embedded(t), InlineRef::Inline(u)) => is_comp(*t, u, c1(idx)), (TranspileRef::Named(n), InlineRef::Named(id)) => idx.contains_key(n) && idx[n] == id, (TranspileRef::Extern(s), InlineRef::Extern(e)) => ext_of(s, e), _ => false }
}
pub open spec fn c0(idx: Idx) -> spec_fn(TranspileRef, InlineRef) -> bool { |x: TranspileRef, r: InlineRef| comp0(x, idx, r) }
pub open spec fn compl(x: TranspileRef, idx: Idx, r: LibRef) -> bool {
    match (x, r) { (TranspileRef::Embedded(t), LibRef::Inline(u)) => is_comp(*t, u, c0(idx)), (TranspileRef::Named(n), LibRef::Named(id)) => idx.contains_key(n) && idx[n] == id, (TranspileRef::Extern(s), LibRef::Extern(e)) => ext_of(s, e), _ => false }
}
pub open spec fn cl(idx: Idx) -> spec_fn(TranspileRef, LibRef) -> bool { |x: TranspileRef, r: LibRef| compl(x, idx, r) }
/// A definition of a symbolic library and the compiled one: same structure, references by name
/// replaced by the ids of the named definitions, references to other libraries by the ids they declare.
pub open spec fn def_compiled(t: Ty<TranspileRef>, idx: Idx, u: Ty<LibRef>) -> bool { is_comp(t, u, cl(idx)) }

/// The names of a union's variants differ (as the map of variants needs), down to `k` levels of nesting.
pub open spec fn sound_to(x: TranspileRef, k: nat) -> bool decreases k {
    match x { TranspileRef::Embedded(t) => k > 0 ==> union_names_differ(*t) && forall|i: int| 0 <= i < comps(*t).len() ==> sound_to(#[trigger] comps(*t)[i], (k - 1) as nat), _ => true }
}
pub open spec fn ty_sound_to(t: Ty<TranspileRef>, k: nat) -> bool { union_names_differ(t) && forall|i: int| 0 <= i < comps(t).len() ==> sound_to(#[trigger] comps(t)[i], k) }

// --- the meaning of success and failure of the translation of one reference
pub open spec fn kept(b0: NestedContext, b1: NestedContext) -> bool { b1.index == b0.index && b1.extern_types == b0.extern_types && b1.top_name == b0.top_name }
pub open spec fn refused(x: TranspileRef, k: nat, b0: NestedContext, b1: NestedContext, e: CompileError) -> bool {
    kept(b0, b1) && match e { CompileError::Continue => unknown(x, b0.index@), CompileError::NestedInline(n, _, _) => deep(x, k) && n == b0.top_name, _ => false }
}
pub open spec fn ty_refused(t: Ty<TranspileRef>, k: nat, b0: NestedContext, b1: NestedContext, e: CompileError) -> bool {
    kept(b0, b1) && match e { CompileError::Continue => ty_unknown(t, b0.index@), CompileError::NestedInline(n, _, _) => ty_deep(t, k) && n == b0.top_name, _ => false }
}
/// What `Ty::translate` amounts to, from what the translation of its references amounts to.
pub proof fn lemma_ty_translated<To>(t: Ty<TranspileRef>, b0: NestedContext, b1: NestedContext, u: Ty<To>, p: spec_fn(TranspileRef, To) -> bool)
    where TranspileRef: Translate<To, Context = (), Builder = NestedContext, Error = CompileError>
    requires <Ty<TranspileRef> as Translate<Ty<To>>>::translated(t, b0, (), b1, u),
        forall|x: TranspileRef, d0: NestedContext, d1: NestedContext, r: To| #[trigger] <TranspileRef as Translate<To>>::translated(x, d0, (), d1, r) ==> kept(d0, d1) && (d0.index == b0.index ==> p(x, r)),
    ensures kept(b0, b1), is_comp(t, u, p)
{
    reveal(seq_translated);
    let s = comps(t);
    let out = comps(u);
    let chain = choose|chain: Seq<NestedContext>| #[trigger] chain_upto::<TranspileRef, To>(s, b0, (), out, chain, s.len() as int) && chain.last() == b1;
    lemma_chain_kept::<To>(s, b0, out, chain, s.len() as int, s.len() as int, p);
}
pub proof fn lemma_chain_kept<To>(s: Seq<TranspileRef>, b0: NestedContext, out: Seq<To>, chain: Seq<NestedContext>, m: int, n: int, p: spec_fn(TranspileRef, To) -> bool)
    where TranspileRef: Translate<To, Context = (), Builder = NestedContext, Error = CompileError>
    requires chain_upto::<TranspileRef, To>(s, b0, (), out, chain, n), 0 <= m <= n,
        forall|x: TranspileRef, d0: NestedContext, d1: NestedContext, r: To| #[trigger] <TranspileRef as Translate<To>>::translated(x, d0, (), d1, r) ==> kept(d0, d1) && (d0.index == b0.index ==> p(x, r)),
    ensures kept(b0, chain[m]), forall|i: int| #![trigger out[i]] #![trigger s[i]] 0 <= i < m ==> p(s[i], out[i])
    decreases m
{
    if m > 0 {
        lemma_chain_kept::<To>(s, b0, out, chain, m - 1, n, p);
        assert(s[m - 1].translated(chain[m - 1], (), chain[m], out[m - 1]));
    }
}
pub proof fn lemma_ty_refused<To>(t: Ty<TranspileRef>, k: nat, b0: NestedContext, b1: NestedContext, e: CompileError)
    where TranspileRef: Translate<To, Context = (), Builder = NestedContext, Error = CompileError>
    requires <Ty<TranspileRef> as Translate<Ty<To>>>::failed(t, b0, (), b1, e),
        forall|x: TranspileRef, d0: NestedContext, d1: NestedContext, r: To| #[trigger] <TranspileRef as Translate<To>>::translated(x, d0, (), d1, r) ==> kept(d0, d1),
        forall|x: TranspileRef, d0: NestedContext, d1: NestedContext, f: CompileError| #[trigger] <TranspileRef as Translate<To>>::failed(x, d0, (), d1, f) ==> refused(x, k, d0, d1, f),
    ensures ty_refused(t, k, b0, b1, e)
{
    reveal(seq_failed);
    reveal(ty_deep);
    let s = comps(t);
    let (chain, out, n) = choose|chain: Seq<NestedContext>, out: Seq<To>, n: int| #[trigger] chain_upto::<TranspileRef, To>(s, b0, (), out, chain, n) && n < s.len() && <TranspileRef as Translate<To>>::failed(s[n], chain.last(), (), b1, e);
    lemma_chain_kept::<To>(s, b0, out, chain, n, n, |x: TranspileRef, r: To| true);
    assert(refused(s[n], k, chain.last(), b1, e));
    if e is Continue { lemma_unknown_comp(t, n, b0.index@); }
}
pub proof fn lemma_unknown_comp(t: Ty<TranspileRef>, i: int, idx: Idx)
    requires 0 <= i < comps(t).len(), unknown(comps(t)[i], idx)
    ensures ty_unknown(t, idx)
{
    reveal(unknown); reveal(ty_unknown); reveal(ty_mentions);
    let (n, l) = choose|n: TypeName, l: nat| #[trigger] mentions(comps(t)[i], n, l) && !idx.contains_key(n);
    assert(ty_mentions(t, n, l));
}
pub proof fn lemma_unknown_embedded(x: TranspileRef, t: Ty<TranspileRef>, idx: Idx)
    requires x is Embedded, *(x->Embedded_0) == t, ty_unknown(t, idx) ensures unknown(x, idx)
{
    reveal(unknown); reveal(ty_unknown); reveal(ty_mentions);
    let (n, l) = choose|n: TypeName, l: nat| #[trigger] ty_mentions(t, n, l) && !idx.contains_key(n);
    assert(mentions(x, n, l + 1));
}
pub proof fn lemma_unknown_name(x: TranspileRef, idx: Idx) requires x is Named, !idx.contains_key(x->Named_0) ensures unknown(x, idx)
{ reveal(unknown); assert(mentions(x, x->Named_0, 0)); }
