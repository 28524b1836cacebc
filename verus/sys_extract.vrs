// ---------------------------------------------------------------------------------------------
// C04: extraction of the reachable closure (src/typesys/type_sys.rs)
// ---------------------------------------------------------------------------------------------
/// `p` is a walk through references of types of the system from a root to `id`.
pub open spec fn leads(sys: Tys, roots: Set<SemId>, p: Seq<SemId>, id: SemId) -> bool {
    &&& p.len() > 0 && roots.contains(p[0]) && p.last() == id
    &&& forall|i: int| #![trigger p[i]] 0 <= i < p.len() - 1 ==> sys.contains_key(p[i]) && refers(sys[p[i]], p[i + 1])
}
#[verifier::opaque]
pub open spec fn reachable(sys: Tys, roots: Set<SemId>, id: SemId) -> bool { exists|p: Seq<SemId>| #[trigger] leads(sys, roots, p, id) }
pub proof fn lemma_root(sys: Tys, roots: Set<SemId>, id: SemId)
    requires roots.contains(id) ensures reachable(sys, roots, id)
{ reveal(reachable); assert(leads(sys, roots, seq![id], id)); }
pub proof fn lemma_step(sys: Tys, roots: Set<SemId>, from: SemId, id: SemId)
    requires reachable(sys, roots, from), sys.contains_key(from), refers(sys[from], id) ensures reachable(sys, roots, id)
{
    reveal(reachable);
    let p = choose|p: Seq<SemId>| #[trigger] leads(sys, roots, p, from);
    let q = p.push(id);
    assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() - 1 implies sys.contains_key(q[i]) && refers(sys[q[i]], q[i + 1]) by { if i < p.len() - 1 { assert(q[i] == p[i] && q[i + 1] == p[i + 1]); } }
    assert(leads(sys, roots, q, id));
}
/// A set that holds the roots and is closed under references holds everything reachable.
pub proof fn lemma_closed(sys: Tys, roots: Set<SemId>, found: Set<SemId>, p: Seq<SemId>, i: int)
    requires 0 <= i < p.len(), leads(sys, roots, p, p.last()),
        forall|r: SemId| #[trigger] roots.contains(r) ==> found.contains(r),
        forall|f: SemId, t: SemId| #[trigger] found.contains(f) && #[trigger] refers(sys[f], t) ==> found.contains(t),
    ensures found.contains(p[i])
    decreases i
{ if i > 0 { lemma_closed(sys, roots, found, p, i - 1); assert(refers(sys[p[i - 1]], p[i - 1 + 1])); } }
pub proof fn lemma_all_found(sys: Tys, roots: Set<SemId>, found: Set<SemId>)
    requires forall|r: SemId| #[trigger] roots.contains(r) ==> found.contains(r),
        forall|f: SemId, t: SemId| #[trigger] found.contains(f) && #[trigger] refers(sys[f], t) ==> found.contains(t),
    ensures forall|id: SemId| #[trigger] reachable(sys, roots, id) ==> found.contains(id)
{
    assert forall|id: SemId| #[trigger] reachable(sys, roots, id) implies found.contains(id) by {
        reveal(reachable);
        let p = choose|p: Seq<SemId>| #[trigger] leads(sys, roots, p, id);
        lemma_closed(sys, roots, found, p, p.len() - 1);
    }
}
pub proof fn lemma_len_sub(a: Set<SemId>, b: Set<SemId>)
    requires forall|x: SemId| #[trigger] a.contains(x) ==> b.contains(x) ensures a.len() <= b.len()
{ assert(a.subset_of(b)); vstd::set_lib::lemma_len_subset(a, b); }
impl TypeSystem {
//@fn src/typesys/type_sys.rs TypeSystem::extract
//@ sig fn extract(&self, ids: impl IntoIterator<Item = SemId>) -> Result<Self, UnknownType> ==> pub fn extract(&self, roots0: VIter<SemId>) -> (r: Result<TypeSystem, UnknownType>)
//@ twin contains
//@ attr #[verifier::rlimit(10)]
//@ subst ?.collect::<BTreeSet<_>>() ==> .collect::<BTreeSet<SemId>>()
//@ subst ?Self(Confined::from_checked(extract)) ==> TypeSystem(MediumOrdMap::from_checked(extract))
//@ spec ensures
//@ spec r is Ok ==> forall|id: SemId| #[trigger] (r->Ok_0)@.contains_key(id) <==> reachable(self@, roots0.rem().to_set(), id),
//@ spec r is Ok ==> forall|id: SemId| #[trigger] (r->Ok_0)@.contains_key(id) ==> self@.contains_key(id) && (r->Ok_0)@[id] == self@[id],
//@ spec r is Err ==> reachable(self@, roots0.rem().to_set(), (r->Err_0).0) && !self@.contains_key((r->Err_0).0)
//@ at start
 let ids = roots0; let ghost roots = ids.rem().to_set();
//@ loop 1
 invariant roots == roots0.rem().to_set(),
   forall|id: SemId| #[trigger] ids@.contains(id) ==> reachable(self@, roots, id) && !found@.contains(id),
   forall|id: SemId| #[trigger] found@.contains(id) ==> reachable(self@, roots, id) && self@.contains_key(id),
   forall|id: SemId| #![trigger found@.contains(id)] #![trigger extract@.contains_key(id)] found@.contains(id) <==> extract@.contains_key(id),
   forall|id: SemId| #[trigger] extract@.contains_key(id) ==> extract@[id] == self@[id],
   forall|r: SemId| #[trigger] roots.contains(r) ==> found@.contains(r) || ids@.contains(r),
   forall|f: SemId, t: SemId| #[trigger] found@.contains(f) && #[trigger] refers(self@[f], t) ==> found@.contains(t) || ids@.contains(t),
 ensures ids@ == Set::<SemId>::empty()
 decreases self@.dom().difference(found@).len()
//@ at before loop 1
 proof { assert forall|id: SemId| #[trigger] ids@.contains(id) implies reachable(self@, roots, id) by { lemma_root(self@, roots, id); } }
//@ at at loop 1 start
 let ghost __f0 = found@; let ghost __i0 = ids@;
//@ at at loop 1 end
 proof {
   reveal(refers);
   assert(self@.dom().difference(found@) =~= self@.dom().difference(__f0).remove(id)); assert(self@.dom().difference(__f0).contains(id));
   assert(__tyg == self@[id]);
   assert forall|t: SemId| #[trigger] refers(self@[id], t) implies found@.contains(t) || ids@.contains(t) by {
     let i = choose|i: int| 0 <= i < comp_len(self@[id]) && #[trigger] comp_ref(self@[id], i) == t;
     assert(comp_ref(__tyg, i) == t);
   }
   assert forall|t: SemId| #[trigger] ids@.contains(t) implies reachable(self@, roots, t) && !found@.contains(t) by {
     if !__i0.contains(t) { assert(refers(self@[id], t)); lemma_step(self@, roots, id, t); }
   }
 }
//@ at after loop 1
 proof { lemma_all_found(self@, roots, found@); self.0.bounds(); assert forall|x: SemId| #[trigger] extract@.dom().contains(x) implies self@.dom().contains(x) by { assert(extract@.contains_key(x)); assert(found@.contains(x)); } lemma_len_sub(extract@.dom(), self@.dom()); }
//@ at after let ty
 let ghost __tyg = ty;
//@end
}
