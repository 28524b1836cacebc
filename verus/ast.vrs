// ---------------------------------------------------------------------------------------------
// Types of src/ast (definitions extracted; containers replaced by their stand-ins).
// ---------------------------------------------------------------------------------------------
/// `ast::TypeRef` reduced to what the code under contract calls.
pub trait TypeRef: Sized {
    spec fn spec_as_ty(&self) -> Option<&Ty<Self>>;
    fn as_ty(&self) -> (r: Option<&Ty<Self>>) ensures r == self.spec_as_ty();
}
//@item src/ast/ty.rs Cls ;; #[derive(Copy, Clone)]
//@item src/ast/ty.rs Ty ;; #[verifier::accept_recursive_types(Ref)] ;; enum Ty<Ref: TypeRef> ==> enum Ty<Ref>
//@item src/ast/ty.rs Field ;; struct Field<Ref: TypeRef> ==> struct Field<Ref>
//@item src/ast/ty.rs NamedFields ;; struct NamedFields<Ref: TypeRef> ==> struct NamedFields<Ref> ;; NonEmptyVec<Field<Ref>, {u8::MAX as usize}> ==> NEVec<Field<Ref>>
//@item src/ast/ty.rs UnnamedFields ;; struct UnnamedFields<Ref: TypeRef> ==> struct UnnamedFields<Ref> ;; NonEmptyVec<Ref, {u8::MAX as usize}> ==> NEVec<Ref>
//@item src/ast/ty.rs UnionVariants ;; struct UnionVariants<Ref: TypeRef> ==> struct UnionVariants<Ref> ;; NonEmptyOrdMap<Variant, Ref, {u8::MAX as usize}> ==> VariantMap<Ref>
//@item src/ast/ty.rs EnumVariants ;; NonEmptyOrdSet<Variant, {u8::MAX as usize}> ==> VariantSet
//@item src/ast/ty.rs ItemCase

// Deref targets of the wrapper types (generated forwarding, contracts of the stand-in containers)
impl<Ref> NamedFields<Ref> {
    pub open spec fn view(&self) -> Seq<Field<Ref>> { self.0@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), 1 <= r <= 255 { self.0.len() }
    pub fn len_u8(&self) -> (r: u8) ensures r == self@.len(), 1 <= r <= 255 { self.0.len_u8() }
    pub fn get(&self, i: usize) -> (r: Option<&Field<Ref>>)
        ensures match r { Some(x) => 0 <= i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { self.0.get(i) }
    pub fn iter(&self) -> (r: VIter<&Field<Ref>>) ensures r.fresh(refs(self@)), 1 <= self@.len() <= 255,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { self.0.iter() }
    pub fn v_iter(&self) -> (r: VIter<&Field<Ref>>) ensures r.fresh(refs(self@)), 1 <= self@.len() <= 255,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { self.0.iter() }
}
impl<Ref> UnnamedFields<Ref> {
    pub open spec fn view(&self) -> Seq<Ref> { self.0@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), 1 <= r <= 255 { self.0.len() }
    pub fn len_u8(&self) -> (r: u8) ensures r == self@.len(), 1 <= r <= 255 { self.0.len_u8() }
    pub fn get(&self, i: usize) -> (r: Option<&Ref>)
        ensures match r { Some(x) => 0 <= i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { self.0.get(i) }
    pub fn first(&self) -> (r: Option<&Ref>) ensures r is Some, *(r->Some_0) == self@[0], self@.len() >= 1 { self.0.first() }
    pub fn last(&self) -> (r: Option<&Ref>) ensures r is Some, *(r->Some_0) == self@[self@.len() - 1], self@.len() >= 1 { self.0.last() }
    pub fn at(&self, i: usize) -> (r: &Ref) requires i < self@.len(), ensures *r == self@[i as int] { self.0.at(i) }
    pub fn iter(&self) -> (r: VIter<&Ref>) ensures r.fresh(refs(self@)), 1 <= self@.len() <= 255,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { self.0.iter() }
    pub fn v_iter(&self) -> (r: VIter<&Ref>) ensures r.fresh(refs(self@)), 1 <= self@.len() <= 255,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { self.0.iter() }
}
impl<Ref> UnionVariants<Ref> {
    pub open spec fn view(&self) -> Seq<(Variant, Ref)> { self.0@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), vm_wf(self@) { self.0.len() }
    pub fn len_u8(&self) -> (r: u8) ensures r == self@.len(), vm_wf(self@) { self.0.len_u8() }
    pub fn last_key_value(&self) -> (r: Option<(&Variant, &Ref)>) ensures r == Some((&self@[self@.len() - 1].0, &self@[self@.len() - 1].1)), vm_wf(self@) { self.0.last_key_value() }
    pub fn first_key_value(&self) -> (r: Option<(&Variant, &Ref)>) ensures r == Some((&self@[0].0, &self@[0].1)), vm_wf(self@) { self.0.first_key_value() }
    pub fn iter(&self) -> (r: VIter<(&Variant, &Ref)>) ensures r.fresh(ref_pairs(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> r.rem()[i] == (&self@[i].0, &self@[i].1) && r.all()[i] == (&self@[i].0, &self@[i].1) { self.0.iter() }
    pub fn v_iter(&self) -> (r: VIter<(&Variant, &Ref)>) ensures r.fresh(ref_pairs(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> r.rem()[i] == (&self@[i].0, &self@[i].1) && r.all()[i] == (&self@[i].0, &self@[i].1) { self.0.iter() }
    pub fn keys(&self) -> (r: VIter<&Variant>) ensures r.fresh(ref_keys(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i].0 && *r.all()[i] == self@[i].0 { self.0.keys() }
    pub fn values(&self) -> (r: VIter<&Ref>) ensures r.fresh(ref_vals(self@)), vm_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i].1 && *r.all()[i] == self@[i].1 { self.0.values() }
}
impl EnumVariants {
    pub open spec fn view(&self) -> Seq<Variant> { self.0@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), vs_wf(self@) { self.0.len() }
    pub fn iter(&self) -> (r: VIter<&Variant>) ensures r.fresh(refs(self@)), vs_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { self.0.iter() }
    pub fn v_iter(&self) -> (r: VIter<&Variant>) ensures r.fresh(refs(self@)), vs_wf(self@),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { self.0.iter() }
}
