// ---------------------------------------------------------------------------------------------
// C08: type paths (src/ast/path.rs)
// ---------------------------------------------------------------------------------------------
//@item src/ast/path.rs Step
impl Clone for Step { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item src/ast/path.rs Path ;; ;; SmallVec<Step> ==> SVec<Step>
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Path {
    pub open spec fn view(&self) -> Seq<Step> { self.0@ }
    /// derived `Default` of the wrapper
    pub fn default() -> (r: Path) ensures r@ == Seq::<Step>::empty() { Path(SVec::new()) }
    // DerefMut target
    pub fn push(&mut self, x: Step) -> (r: Result<(), ConfinementError>)
        ensures r is Ok <==> old(self)@.len() < 65535, r is Ok ==> final(self)@ == old(self)@.push(x), r is Err ==> final(self)@ == old(self)@ { self.0.push(x) }
    pub fn pop(&mut self) -> (r: Option<Step>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { self.0.pop() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 65535 { self.0.len() }
//@fn src/ast/path.rs Path::new
//@ spec ensures r@ == Seq::<Step>::empty()
//@end
//@fn src/ast/path.rs Path::iter
//@ sig fn iter(&self) -> std::slice::Iter<Step> ==> pub fn iter(&self) -> (r: VIter<&Step>)
//@ spec ensures r.fresh(refs(self@)), self@.len() <= 65535, forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i]
//@end
}
impl<'path> VIntoIter for &'path Path {
    type VItem = &'path Step;
    open spec fn vseq(self) -> Seq<&'path Step> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'path Step>) -> bool { self@.len() <= 65535 && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
//@fn src/ast/path.rs <&'path Path as IntoIterator>::into_iter
//@ sig fn into_iter(self) -> Self::IntoIter ==> fn viter(self) -> VIter<&'path Step>
//@end
}
//@item src/ast/path.rs PathError ;; ;; struct PathError<'ty, Ref: TypeRef> ==> struct PathError<'ty, Ref>
impl<'ty, Ref: TypeRef> PathError<'ty, Ref> {
//@fn src/ast/path.rs PathError::new
//@ spec ensures r.ty == ty, r.path == path
//@end
}
/// The component of a type a step denotes.
pub open spec fn step_comp<R>(t: Ty<R>, s: Step, i: int) -> bool {
    0 <= i < comp_len(t) && match (t, s) {
        (Ty::Struct(f), Step::NamedField(n)) => nf_at_name(f@, n, i),
        (Ty::Union(v), Step::Variant(n)) => uv_at_name(v@, n, i),
        (Ty::Struct(f), Step::UnnamedField(p)) => i == p,
        (Ty::Tuple(f), Step::UnnamedField(p)) => i == p,
        (Ty::Union(v), Step::UnnamedField(tag)) => uv_at_tag(v@, tag, i),
        (Ty::Array(_, _), Step::Index) => i == 0,
        (Ty::List(_, _), Step::List) => i == 0,
        (Ty::Set(_, _), Step::Set) => i == 0,
        (Ty::Map(_, _, _), Step::MapKey) => i == 0,
        (Ty::Map(_, _, _), Step::MapValue) => i == 1,
        _ => false,
    }
}
/// `u` is the type reached from `t` by the step `s`.
pub open spec fn step_to<R: TypeRef>(t: Ty<R>, s: Step, u: Ty<R>) -> bool {
    exists|i: int| #[trigger] step_comp(t, s, i) && comp_ref(t, i).spec_as_ty() == Some(&u)
}
pub proof fn lemma_step_unique<R: TypeRef>(t: Ty<R>, s: Step, i: int, j: int)
    requires step_comp(t, s, i), step_comp(t, s, j) ensures i == j
{
    match (t, s) {
        (Ty::Union(v), Step::UnnamedField(tag)) => {
            broadcast use variant_map_wf;
            assert(vm_wf(v.0@)); assert(v@ == v.0@);
            if i < j { assert(v@[i].0.tag < v@[j].0.tag); } else if j < i { assert(v@[j].0.tag < v@[i].0.tag); }
        }
        (Ty::Union(v), Step::Variant(n)) => { if i < j { assert(v@[i].0.name != n); } else if j < i { assert(v@[j].0.name != n); } }
        (Ty::Struct(f), Step::NamedField(n)) => { if i < j { assert(f@[i].name != n); } else if j < i { assert(f@[j].name != n); } }
        _ => {}
    }
}
pub open spec fn one_step<R: TypeRef>(t: Ty<R>, s: Step) -> Option<Ty<R>> {
    if exists|w: Ty<R>| #[trigger] step_to(t, s, w) { Some(choose|w: Ty<R>| #[trigger] step_to(t, s, w)) } else { None }
}
/// The type reached by the first `n` steps.
pub open spec fn walk<R: TypeRef>(t: Ty<R>, p: Seq<Step>, n: nat) -> Option<Ty<R>>
    decreases n
{
    if n == 0 { Some(t) } else {
        match walk(t, p, (n - 1) as nat) {
            None => None,
            Some(u) => one_step(u, p[n - 1]),
        }
    }
}
pub proof fn lemma_step_to_unique<R: TypeRef>(t: Ty<R>, s: Step, u: Ty<R>, w: Ty<R>)
    requires step_to(t, s, u), step_to(t, s, w) ensures u == w
{
    let i = choose|i: int| #[trigger] step_comp(t, s, i) && comp_ref(t, i).spec_as_ty() == Some(&u);
    let j = choose|i: int| #[trigger] step_comp(t, s, i) && comp_ref(t, i).spec_as_ty() == Some(&w);
    lemma_step_unique(t, s, i, j);
}
/// Resolving a concatenated path equals resolving its parts one after the other.
pub proof fn lemma_walk_concat<R: TypeRef>(t: Ty<R>, a: Seq<Step>, b: Seq<Step>, n: nat)
    requires n <= b.len()
    ensures walk(t, a + b, a.len() + n) == (match walk(t, a, a.len()) { Some(u) => walk(u, b, n), None => None })
    decreases n
{
    if n == 0 { lemma_walk_prefix(t, a, b, a.len()); }
    else {
        lemma_walk_concat(t, a, b, (n - 1) as nat);
        assert((a + b)[a.len() + n - 1] == b[n - 1]);
    }
}
pub proof fn lemma_walk_prefix<R: TypeRef>(t: Ty<R>, a: Seq<Step>, b: Seq<Step>, n: nat)
    requires n <= a.len()
    ensures walk(t, a + b, n) == walk(t, a, n)
    decreases n
{
    if n > 0 { lemma_walk_prefix(t, a, b, (n - 1) as nat); assert((a + b)[n - 1] == a[n - 1]); }
}
pub proof fn lemma_walk_none<R: TypeRef>(t: Ty<R>, p: Seq<Step>, k: nat, n: nat)
    requires k <= n, walk(t, p, k) is None ensures walk(t, p, n) is None
    decreases n
{ if k < n { lemma_walk_none(t, p, k, (n - 1) as nat); } }
pub open spec fn step_pos<R>(t: Ty<R>, s: Step, r: R) -> int {
    match (t, s) {
        (Ty::Struct(f), Step::NamedField(n)) => choose|i: int| nf_at_name(f@, n, i) && r == (#[trigger] f@[i]).ty,
        (Ty::Union(v), Step::Variant(n)) => choose|i: int| uv_at_name(v@, n, i) && r == (#[trigger] v@[i]).1,
        (Ty::Union(v), Step::UnnamedField(tag)) => choose|i: int| uv_at_tag(v@, tag, i) && r == (#[trigger] v@[i]).1,
        (_, Step::UnnamedField(p)) => p as int,
        (_, Step::MapValue) => 1int,
        _ => 0int,
    }
}
pub open spec fn deref_ty<R: TypeRef>(r: Option<&R>) -> Option<Ty<R>> {
    match r { None => None, Some(r) => match r.spec_as_ty() { None => None, Some(u) => Some(*u) } }
}
pub proof fn lemma_one_step<R: TypeRef>(t: Ty<R>, s: Step, res: Option<&R>)
    requires res is None ==> forall|i: int| !#[trigger] step_comp(t, s, i),
        res is Some ==> exists|i: int| #[trigger] step_comp(t, s, i) && *(res->Some_0) == comp_ref(t, i),
    ensures one_step(t, s) == deref_ty(res)
{
    if res is Some {
        let i = choose|i: int| #[trigger] step_comp(t, s, i) && *(res->Some_0) == comp_ref(t, i);
        match comp_ref(t, i).spec_as_ty() {
            Some(u) => {
                assert(step_to(t, s, *u));
                lemma_step_to_unique(t, s, *u, choose|w: Ty<R>| #[trigger] step_to(t, s, w));
            }
            None => {
                if exists|w: Ty<R>| #[trigger] step_to(t, s, w) {
                    let w = choose|w: Ty<R>| #[trigger] step_to(t, s, w);
                    let j = choose|j: int| #[trigger] step_comp(t, s, j) && comp_ref(t, j).spec_as_ty() == Some(&w);
                    lemma_step_unique(t, s, i, j);
                }
            }
        }
    }
}
impl<Ref: TypeRef> Ty<Ref> {
//@fn src/ast/path.rs Ty::at_path
//@ sig fn at_path(&self, path: &Path) -> Result<&Self, PathError<Ref>> ==> pub fn at_path<'a>(&'a self, path: &Path) -> (r: Result<&'a Self, PathError<'a, Ref>>)
//@ spec ensures
//@ spec     r is Ok ==> walk(*self, path@, path@.len()) == Some(*(r->Ok_0)),
//@ spec     r is Err ==> walk(*self, path@, path@.len()) is None && (r->Err_0).ty == self
//@ spec         && exists|k: nat| 1 <= k <= path@.len() && #[trigger] walk(*self, path@, k) is None && walk(*self, path@, (k - 1) as nat) is Some
//@ spec             && (r->Err_0).path@ == path@.take(k as int),
//@ closure 2 -> (__r: PathError<'a, Ref>) ensures __r.ty == self && __r.path@ == path_so_far@
//@ loop 1
    __all1 == refs(path@), path@.len() <= 65535, forall|i: int| #![trigger path@[i]] #![trigger __all1[i]] 0 <= i < path@.len() ==> *__all1[i] == path@[i],
    path_so_far@ == path@.take(__it1.pos()),
    walk(*self, path@, __it1.pos() as nat) == Some(*ty),
//@ at after let res
proof {
    assert(res is None ==> forall|i: int| !#[trigger] step_comp(*ty, *step, i));
    if res is Some { assert(step_comp(*ty, *step, step_pos(*ty, *step, *(res->Some_0)))); }
    assert(res is Some ==> exists|i: int| #[trigger] step_comp(*ty, *step, i) && *(res->Some_0) == comp_ref(*ty, i));
    lemma_one_step(*ty, *step, res);
    assert(path@.take(__it1.pos() - 1).push(*step) =~= path@.take(__it1.pos()));
    if deref_ty(res) is None { lemma_walk_none(*self, path@, __it1.pos() as nat, path@.len()); }
}
//@end
}
