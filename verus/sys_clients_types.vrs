// C17 as a client sees it: importing libraries in any order.
pub open spec fn libs_add(l: Seq<TypeLib>, n: int, id: SemId, y: SymTy) -> bool { exists|i: int| 0 <= i < n && lib_adds(#[trigger] l[i], id, y) }
pub open spec fn libs_set(l: Seq<TypeLib>, n: int) -> spec_fn(SemId, SymTy) -> bool { |id: SemId, y: SymTy| libs_add(l, n, id, y) }
pub open spec fn libs_sound(l: Seq<TypeLib>) -> bool { forall|i: int| 0 <= i < l.len() ==> lib_sound(#[trigger] l[i]) }
proof fn lemma_libs_step(l: Seq<TypeLib>, n: int, t0: Syms, t1: Syms, t2: Syms)
    requires 0 <= n < l.len(), merged(t0, t1, libs_set(l, n)), merged(t1, t2, lib_set(l[n])) ensures merged(t0, t2, libs_set(l, n + 1))
{
    let (p, q, r) = (libs_set(l, n), lib_set(l[n]), libs_set(l, n + 1));
    assert forall|id: SemId, y: SymTy| #[trigger] r(id, y) <==> p(id, y) || q(id, y) by {
        if r(id, y) { let i = choose|i: int| 0 <= i < n + 1 && lib_adds(#[trigger] l[i], id, y); if i < n { assert(p(id, y)); } }
        if p(id, y) { let i = choose|i: int| 0 <= i < n && lib_adds(#[trigger] l[i], id, y); assert(i < n + 1 && lib_adds(l[i], id, y)); }
    }
    lemma_merge(t0, t1, t2, p, q, r);
}
fn import_all(libs: Vec<TypeLib>) -> (b: SystemBuilder)
    requires libs_sound(libs@)
    ensures merged(Map::<SemId, SymTy>::empty(), b.types@, libs_set(libs@, libs@.len() as int)),
{
    let mut b = SystemBuilder::new();
    let ghost l = libs@;
    let ghost n: int = 0;
    proof { lemma_merge_none(b.types@, libs_set(l, 0)); }
    let mut it = libs.v_into_iter();
    loop
        invariant libs_sound(l), it.all() == l, 0 <= n <= l.len(), it.pos() == n,
            merged(Map::<SemId, SymTy>::empty(), b.types@, libs_set(l, n)),
                ensures n == l.len()
        decreases l.len() - n
    {
        match it.next() {
            Some(lib) => {
                let ghost b0 = b;
                match b.import(lib) { Ok(x) => { b = x; } Err(_) => { b = verif_unreached::<SystemBuilder>(); } }
                proof {
                    assert(imported(b0, l[n], b));
                    lemma_libs_step(l, n, Map::<SemId, SymTy>::empty(), b0.types@, b.types@);
                    n = n + 1;
                }
            }
            None => break,
        }
    }
    b
}
// Containers exist for every legal content.
pub axiom fn ne_vec_of<T>(s: Seq<T>) -> (v: NEVec<T>) requires 1 <= s.len() <= 255 ensures v@ == s;
pub axiom fn variant_map_of<R>(s: Seq<(Variant, R)>) -> (v: VariantMap<R>) requires vm_wf(s) ensures v@ == s;
/// Every definition has a flattened form.
pub proof fn lemma_flat_exists<R: Flat>(t: Ty<R>) -> (f: Ty<SemId>) ensures is_flat(t, f)
{
    broadcast use {ne_vec_len, variant_map_wf};
    match t {
        Ty::Primitive(p) => Ty::Primitive(p),
        Ty::UnicodeChar => Ty::UnicodeChar,
        Ty::Enum(v) => Ty::Enum(v),
        Ty::Union(v) => {
            assert(vm_wf(v.0@));
            let s = Seq::new(v@.len(), |i: int| (v@[i].0, v@[i].1.fid()));
            assert(vm_wf(s)) by { assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0.tag < (#[trigger] s[j]).0.tag by { assert(v@[i].0.tag < v@[j].0.tag); } }
            let w = UnionVariants(variant_map_of(s));
            let f = Ty::Union(w);
            assert forall|i: int| #![trigger comps(f)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() implies comps(f)[i] == comps(t)[i].fid() by { assert(s[i].1 == v@[i].1.fid()); }
            f
        }
        Ty::Struct(v) => {
            assert(1 <= v.0@.len() <= 255);
            let s = Seq::new(v@.len(), |i: int| Field { name: v@[i].name, ty: v@[i].ty.fid() });
            let f = Ty::Struct(NamedFields(ne_vec_of(s)));
            assert forall|i: int| #![trigger comps(f)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() implies comps(f)[i] == comps(t)[i].fid() by { assert(s[i].ty == v@[i].ty.fid()); }
            f
        }
        Ty::Tuple(v) => {
            assert(1 <= v.0@.len() <= 255);
            let s = Seq::new(v@.len(), |i: int| v@[i].fid());
            let f = Ty::Tuple(UnnamedFields(ne_vec_of(s)));
            assert forall|i: int| #![trigger comps(f)[i]] #![trigger comps(t)[i]] 0 <= i < comps(t).len() implies comps(f)[i] == comps(t)[i].fid() by { assert(s[i] == v@[i].fid()); }
            f
        }
        Ty::Array(x, n) => Ty::Array(x.fid(), n),
        Ty::List(x, n) => Ty::List(x.fid(), n),
        Ty::Set(x, n) => Ty::Set(x.fid(), n),
        Ty::Map(k, v, n) => Ty::Map(k.fid(), v.fid(), n),
    }
}
/// No two definitions added under one id differ (ids commit to definitions, C01).
pub open spec fn no_collision(l: Seq<TypeLib>) -> bool {
    forall|id: SemId, y: SymTy, z: SymTy| #[trigger] libs_add(l, l.len() as int, id, y) && #[trigger] libs_add(l, l.len() as int, id, z) ==> y.ty == z.ty
}
/// C17: the types of the system do not depend on the order of the imports.
fn client_order(a: Vec<TypeLib>, b: Vec<TypeLib>)
    requires libs_sound(a@), libs_sound(b@), no_collision(a@), forall|l: TypeLib| #[trigger] a@.contains(l) <==> b@.contains(l)
{
    let ghost (la, lb) = (a@, b@);
    let (ba, bb) = (import_all(a), import_all(b));
    let ghost (p, q) = (libs_set(la, la.len() as int), libs_set(lb, lb.len() as int));
    let ghost (ta, tb) = (ba.types@, bb.types@);
    proof {
        assert forall|id: SemId, y: SymTy| #![trigger p(id, y)] #![trigger q(id, y)] p(id, y) <==> q(id, y) by {
            if p(id, y) { let i = choose|i: int| 0 <= i < la.len() && lib_adds(#[trigger] la[i], id, y); assert(la.contains(la[i])); let j = choose|j: int| 0 <= j < lb.len() && lb[j] == la[i]; assert(lib_adds(lb[j], id, y)); }
            if q(id, y) { let i = choose|i: int| 0 <= i < lb.len() && lib_adds(#[trigger] lb[i], id, y); assert(lb.contains(lb[i])); assert(la.contains(lb[i])); let j = choose|j: int| 0 <= j < la.len() && la[j] == lb[i]; assert(lib_adds(la[j], id, y)); }
        }
        reveal(merged);
        assert forall|id: SemId| #![trigger ta.contains_key(id)] #![trigger tb.contains_key(id)] (ta.contains_key(id) <==> tb.contains_key(id)) && (ta.contains_key(id) ==> ta[id].ty == tb[id].ty) by {
            if ta.contains_key(id) { assert(p(id, ta[id])); assert(q(id, ta[id])); }
            if tb.contains_key(id) { assert(q(id, tb[id])); assert(p(id, tb[id])); }
        }
    }
    let (fa, fb) = (ba.finalize(), bb.finalize());
    if let (Ok(sa), Ok(sb)) = (fa, fb) {
        assert(sa.types@ =~= sb.types@) by {
            assert forall|id: SemId| #[trigger] sa.types@.contains_key(id) implies sb.types@.contains_key(id) && sa.types@[id] == sb.types@[id] by { assert(ta.contains_key(id)); assert(tb.contains_key(id)); }
            assert forall|id: SemId| #[trigger] sb.types@.contains_key(id) implies sa.types@.contains_key(id) by { assert(tb.contains_key(id)); assert(ta.contains_key(id)); }
        }
    }
}
/// C17: each named type is added under its id and name, each inlined type under the id of its definition, flattened.
fn client_import(lib: TypeLib, n: TypeName)
    requires lib_sound(lib), lib.types@.contains_key(n),
        forall|id: SemId, y: SymTy, z: SymTy| #[trigger] lib_adds(lib, id, y) && #[trigger] lib_adds(lib, id, z) ==> y == z
{
    let ghost (t, name) = (lib.types@[n], lib.name);
    let ghost l = lib;
    if let Ok(b) = SystemBuilder::new().import(lib) {
        proof {
            reveal(merged);
            let id = sem_named(t, n);
            let f = lemma_flat_exists(t);
            let p = lib_set(l);
            let y = SymTy { orig: Some(TypeFqn { lib: name, name: n }), ty: f };
            assert(entry_adds(name, n, t, id, y));
            assert(p(id, y));
            assert(b.types@.contains_key(id) && b.types@[id] == y);
            assert(is_flat(t, f));
            // a type inlined in it
            assert forall|i: int| 0 <= i < comps(t).len() && (#[trigger] comps(t)[i]) is Inline implies
                b.types@.contains_key(sem_unnamed(comps(t)[i]->Inline_0)) && is_flat(comps(t)[i]->Inline_0, b.types@[sem_unnamed(comps(t)[i]->Inline_0)].ty)
                && comps(f)[i] == sem_unnamed(comps(t)[i]->Inline_0) by {
                let u = comps(t)[i]->Inline_0;
                let z = SymTy { orig: None, ty: lemma_flat_exists(u) };
                assert(inline_adds(u, sem_unnamed(u), z));
                assert(comps(t)[i].adds(sem_unnamed(u), z));
                assert(entry_adds(name, n, t, sem_unnamed(u), z));
                assert(p(sem_unnamed(u), z));
            }
            // nothing else is there
            assert forall|o: SemId| #[trigger] b.types@.contains_key(o) implies lib_adds(l, o, b.types@[o]) by { assert(p(o, b.types@[o])); }
        }
    }
}
