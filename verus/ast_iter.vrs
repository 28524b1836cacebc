// ---------------------------------------------------------------------------------------------
// C06: components of a type (src/ast/ty.rs, src/ast/iter.rs, src/ast/path.rs)
// ---------------------------------------------------------------------------------------------
/// The components of a type in declaration order (variants by tag).
pub open spec fn comp_len<R>(t: Ty<R>) -> int {
    match t {
        Ty::Union(v) => v@.len() as int,
        Ty::Struct(f) => f@.len() as int,
        Ty::Tuple(f) => f@.len() as int,
        Ty::Array(_, _) | Ty::List(_, _) | Ty::Set(_, _) => 1,
        Ty::Map(_, _, _) => 2,
        Ty::Primitive(_) | Ty::Enum(_) | Ty::UnicodeChar => 0,
    }
}
pub open spec fn comp_ref<R>(t: Ty<R>, i: int) -> R {
    match t {
        Ty::Union(v) => v@[i].1,
        Ty::Struct(f) => f@[i].ty,
        Ty::Tuple(f) => f@[i],
        Ty::Array(x, _) => x,
        Ty::List(x, _) => x,
        Ty::Set(x, _) => x,
        Ty::Map(k, v, _) => if i == 0 { k } else { v },
        _ => arbitrary(),
    }
}
/// Role, position and name of component `i`.
pub open spec fn comp_case<R>(t: Ty<R>, i: int) -> ItemCase {
    match t {
        Ty::Union(v) => ItemCase::UnionVariant(i as u8, v@[i].0.name),
        Ty::Struct(f) => ItemCase::NamedField(i as u8, f@[i].name),
        Ty::Tuple(_) => ItemCase::UnnamedField(i as u8),
        Ty::Array(_, _) => ItemCase::ArrayItem,
        Ty::List(_, _) => ItemCase::ListItem,
        Ty::Set(_, _) => ItemCase::SetItem,
        Ty::Map(_, _, _) => if i == 0 { ItemCase::MapKey } else { ItemCase::MapValue },
        _ => arbitrary(),
    }
}
impl<Ref: TypeRef> Ty<Ref> {
//@fn src/ast/ty.rs Ty::ty_at
//@ spec ensures r is None ==> pos >= comp_len(*self), r is Some ==> pos < comp_len(*self) && *(r->Some_0) == comp_ref(*self, pos as int)
//@end
//@fn src/ast/ty.rs Ty::case_at
//@ spec ensures r is None ==> pos >= comp_len(*self), r is Some ==> pos < comp_len(*self) && (r->Some_0) == comp_case(*self, pos as int)
//@end
//@fn src/ast/path.rs Ty::count_type_refs
//@ spec ensures r == comp_len(*self), comp_len(*self) <= 255
//@end
}
//@item src/ast/iter.rs Iter ;; ;; struct Iter<'ty, Ref: TypeRef> ==> struct Iter<'ty, Ref>
//@item src/ast/iter.rs IntoIter ;; ;; struct IntoIter<Ref: TypeRef> ==> struct IntoIter<Ref>
/// Positions an iterator can be at: `255` is only reached once everything was yielded.
pub open spec fn next_pos(p: u8) -> u8 { if p == 255 { 255u8 } else { (p + 1) as u8 } }
pub proof fn lemma_pos_exhausted<R>(t: Ty<R>, p: u8)
    requires p >= comp_len(t)
    ensures next_pos(p) >= comp_len(t), next_pos(p) >= p
{ }
/// No type has more than 255 components, so position 255 (where the position stays) is past the end.
pub proof fn lemma_comp_bound<R>(t: Ty<R>)
    ensures 0 <= comp_len(t) <= 255
{
    broadcast use ne_vec_len, variant_map_wf;
    match t {
        Ty::Union(v) => { assert(vm_wf(v.0@)); }
        Ty::Struct(f) => { assert(f.0@.len() <= 255); }
        Ty::Tuple(f) => { assert(f.0@.len() <= 255); }
        _ => {}
    }
}
impl<'ty, Ref: TypeRef> Iter<'ty, Ref> {
//@fn src/ast/iter.rs <Iter<'ty, Ref> as From<&'ty Ty<Ref>>>::from
//@ name from_ty
//@ sig fn from(ty: &'ty Ty<Ref>) -> Self ==> pub fn from_ty(ty: &'ty Ty<Ref>) -> (r: Self)
//@ spec ensures r.ty == ty, r.pos == 0
//@end
//@fn src/ast/iter.rs <Iter<'ty, Ref> as Iterator>::next
//@ sig fn next(&mut self) -> Option<Self::Item> ==> pub fn next(&mut self) -> (r: Option<(&'ty Ref, Option<ItemCase>)>)
//@ spec ensures
//@ spec     final(self).ty == old(self).ty, final(self).pos >= next_pos(old(self).pos) || old(self).pos >= comp_len(*old(self).ty) && final(self).pos >= comp_len(*old(self).ty),
//@ spec     r is None ==> old(self).pos >= comp_len(*old(self).ty) && final(self).pos >= comp_len(*old(self).ty),
//@ spec     r is Some ==> old(self).pos < comp_len(*old(self).ty) && final(self).pos == next_pos(old(self).pos)
//@ spec         && *(r->Some_0.0) == comp_ref(*old(self).ty, old(self).pos as int) && r->Some_0.1 == Some(comp_case(*old(self).ty, old(self).pos as int)),
//@end
}
impl<Ref: TypeRef> IntoIter<Ref> {
//@fn src/ast/iter.rs <IntoIter<Ref> as From<Ty<Ref>>>::from
//@ sig fn from(ty: Ty<Ref>) -> Self ==> pub fn from_ty(ty: Ty<Ref>) -> (r: Self)
//@ spec ensures r.ty == ty, r.pos == 0
//@end
//@fn src/ast/iter.rs <IntoIter<Ref> as Iterator>::next
//@ sig fn next(&mut self) -> Option<Self::Item> ==> pub fn next(&mut self) -> (r: Option<Ref>)
//@ subst ?ret.cloned() ==> verif_cloned(ret)
//@ spec ensures
//@ spec     final(self).ty == old(self).ty,
//@ spec     r is None ==> old(self).pos >= comp_len(old(self).ty) && final(self).pos >= comp_len(old(self).ty),
//@ spec     r is Some ==> old(self).pos < comp_len(old(self).ty) && final(self).pos == next_pos(old(self).pos)
//@ spec         && r->Some_0 == comp_ref(old(self).ty, old(self).pos as int),
//@end
}
impl<Ref: TypeRef> Ty<Ref> {
//@fn src/ast/iter.rs Ty::type_refs
//@ subst ?Iter::from(self) ==> Iter::from_ty(self)
//@ sig fn type_refs(&self) -> Iter<Ref> ==> pub fn type_refs(&self) -> (r: Iter<'_, Ref>)
//@ spec ensures r.ty == self, r.pos == 0
//@end
//@fn src/ast/iter.rs <&'ty Ty<Ref> as IntoIterator>::into_iter
//@ subst ?Iter::from(self) ==> Iter::from_ty(self)
//@ sig fn into_iter(self) -> Self::IntoIter ==> pub fn ref_into_iter(&self) -> (r: Iter<'_, Ref>)
//@ spec ensures r.ty == self, r.pos == 0
//@end
//@fn src/ast/iter.rs Ty::iter
//@ subst ?self.into_iter() ==> self.ref_into_iter()
//@ sig fn iter(&self) -> Iter<'_, Ref> ==> pub fn iter(&self) -> (r: Iter<'_, Ref>)
//@ spec ensures r.ty == self, r.pos == 0
//@end
}
// The property as a client of the contracts: asking an iterator until it is exhausted yields every
// component exactly once, in order, with its label; as many as `count_type_refs`; asking again yields nothing.
fn c06_enumerate<'a, Ref: TypeRef>(ty: &'a Ty<Ref>, again: u64) -> (r: Vec<(&'a Ref, Option<ItemCase>)>)
    ensures r@.len() == comp_len(*ty),
        forall|i: int| 0 <= i < r@.len() ==> *((#[trigger] r@[i]).0) == comp_ref(*ty, i) && r@[i].1 == Some(comp_case(*ty, i)),
{
    proof { lemma_comp_bound(*ty); }
    let mut it = ty.type_refs();
    let mut v: Vec<(&'a Ref, Option<ItemCase>)> = Vec::new();
    loop
        invariant_except_break it.pos == v@.len(),
        invariant it.ty == ty, v@.len() <= comp_len(*ty) <= 255,
            forall|i: int| 0 <= i < v@.len() ==> *((#[trigger] v@[i]).0) == comp_ref(*ty, i) && v@[i].1 == Some(comp_case(*ty, i)),
        ensures v@.len() == comp_len(*ty), it.ty == ty, it.pos >= comp_len(*ty),
        decreases 256 - v@.len(),
    {
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
    }
    let n = ty.count_type_refs();
    assert(n == v@.len());
    let mut k = again;
    while k > 0
        invariant it.ty == ty, it.pos >= comp_len(*ty),
        decreases k,
    {
        let x = it.next();
        assert(x is None);
        k = k - 1;
    }
    v
}
