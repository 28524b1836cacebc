// ---------------------------------------------------------------------------------------------
// C07: lookups (src/ast/ty.rs)
// ---------------------------------------------------------------------------------------------
/// position `i` is where a lookup by tag must look
pub open spec fn uv_at_tag<R>(s: Seq<(Variant, R)>, tag: u8, i: int) -> bool { 0 <= i < s.len() && s[i].0.tag == tag }
pub open spec fn uv_no_tag<R>(s: Seq<(Variant, R)>, tag: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.tag != tag }
pub open spec fn uv_at_name<R>(s: Seq<(Variant, R)>, n: VariantName, i: int) -> bool {
    0 <= i < s.len() && s[i].0.name == n && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0.name != n
}
pub open spec fn uv_no_name<R>(s: Seq<(Variant, R)>, n: VariantName) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.name != n }
impl<Ref: TypeRef> UnionVariants<Ref> {
//@fn src/ast/ty.rs UnionVariants::has_tag
//@ spec ensures r <==> !uv_no_tag(self@, tag)
//@end
//@fn src/ast/ty.rs UnionVariants::by_tag
//@ spec ensures r is None ==> uv_no_tag(self@, tag), r is Some ==> self@.len() >= 1 && exists|i: int| uv_at_tag(self@, tag, i) && *((r->Some_0).0) == (#[trigger] self@[i]).0 && *((r->Some_0).1) == self@[i].1
//@end
//@fn src/ast/ty.rs UnionVariants::by_name
//@ sig fn by_name(&self, name: &VariantName) -> Option<(&Variant, &Ref)> ==> pub fn by_name(&self, name: &VariantName) -> (r: Option<(&Variant, &Ref)>)
//@ spec ensures r is None ==> uv_no_name(self@, *name), r is Some ==> self@.len() >= 1 && exists|i: int| uv_at_name(self@, *name, i) && *((r->Some_0).0) == (#[trigger] self@[i]).0 && *((r->Some_0).1) == self@[i].1
//@end
//@fn src/ast/ty.rs UnionVariants::ty_by_name
//@ spec ensures r is None ==> uv_no_name(self@, *name), r is Some ==> self@.len() >= 1 && exists|i: int| uv_at_name(self@, *name, i) && *(r->Some_0) == (#[trigger] self@[i]).1
//@end
//@fn src/ast/ty.rs UnionVariants::ty_by_tag
//@ spec ensures r is None ==> uv_no_tag(self@, tag), r is Some ==> self@.len() >= 1 && exists|i: int| uv_at_tag(self@, tag, i) && *(r->Some_0) == (#[trigger] self@[i]).1
//@end
//@fn src/ast/ty.rs UnionVariants::ty_by_pos
//@ spec ensures r is None ==> pos >= self@.len(), r is Some ==> pos < self@.len() && *(r->Some_0) == self@[pos as int].1
//@end
//@fn src/ast/ty.rs UnionVariants::tag_by_name
//@ spec ensures r is None ==> uv_no_name(self@, *name), r is Some ==> self@.len() >= 1 && exists|i: int| uv_at_name(self@, *name, i) && (r->Some_0) == (#[trigger] self@[i]).0.tag
//@end
//@fn src/ast/ty.rs UnionVariants::name_by_tag
//@ spec ensures r is None ==> uv_no_tag(self@, tag), r is Some ==> self@.len() >= 1 && exists|i: int| uv_at_tag(self@, tag, i) && *(r->Some_0) == (#[trigger] self@[i]).0.name
//@end
//@fn src/ast/ty.rs UnionVariants::name_by_pos
//@ spec ensures r is None ==> pos >= self@.len(), r is Some ==> pos < self@.len() && *(r->Some_0) == self@[pos as int].0.name
//@end
//@fn src/ast/ty.rs UnionVariants::unwrap_first
//@ spec ensures *r == self@[0].0, vm_wf(self@)
//@end
//@fn src/ast/ty.rs UnionVariants::unwrap_last
//@ spec ensures *r == self@[self@.len() - 1].0, vm_wf(self@)
//@end
}
pub open spec fn ev_at_tag(s: Seq<Variant>, tag: u8, i: int) -> bool { 0 <= i < s.len() && s[i].tag == tag }
pub open spec fn ev_no_tag(s: Seq<Variant>, tag: u8) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).tag != tag }
pub open spec fn ev_at_name(s: Seq<Variant>, n: VariantName, i: int) -> bool {
    0 <= i < s.len() && s[i].name == n && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).name != n
}
pub open spec fn ev_no_name(s: Seq<Variant>, n: VariantName) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name != n }
impl EnumVariants {
//@fn src/ast/ty.rs EnumVariants::tag_by_name
//@ spec ensures r is None ==> ev_no_name(self@, *name), r is Some ==> self@.len() >= 1 && exists|i: int| ev_at_name(self@, *name, i) && (r->Some_0) == (#[trigger] self@[i]).tag
//@end
//@fn src/ast/ty.rs EnumVariants::name_by_tag
//@ spec ensures r is None ==> ev_no_tag(self@, tag), r is Some ==> self@.len() >= 1 && exists|i: int| ev_at_tag(self@, tag, i) && *(r->Some_0) == (#[trigger] self@[i]).name
//@end
//@fn src/ast/ty.rs EnumVariants::has_tag
//@ spec ensures r <==> !ev_no_tag(self@, tag)
//@end
//@fn src/ast/ty.rs EnumVariants::has_name
//@ spec ensures r <==> !ev_no_name(self@, *name)
//@end
//@fn src/ast/ty.rs EnumVariants::by_tag
//@ spec ensures r is None ==> ev_no_tag(self@, tag), r is Some ==> self@.len() >= 1 && exists|i: int| ev_at_tag(self@, tag, i) && *(r->Some_0) == (#[trigger] self@[i])
//@end
//@fn src/ast/ty.rs EnumVariants::by_name
//@ spec ensures r is None ==> ev_no_name(self@, *name), r is Some ==> self@.len() >= 1 && exists|i: int| ev_at_name(self@, *name, i) && *(r->Some_0) == (#[trigger] self@[i])
//@end
}
pub open spec fn nf_at_name<R>(s: Seq<Field<R>>, n: FieldName, i: int) -> bool {
    0 <= i < s.len() && s[i].name == n && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).name != n
}
pub open spec fn nf_no_name<R>(s: Seq<Field<R>>, n: FieldName) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name != n }
impl<Ref: TypeRef> NamedFields<Ref> {
//@fn src/ast/ty.rs NamedFields::ty_by_pos
//@ spec ensures r is None ==> pos >= self@.len(), r is Some ==> pos < self@.len() && *(r->Some_0) == self@[pos as int].ty
//@end
//@fn src/ast/ty.rs NamedFields::ty_by_name
//@ spec ensures r is None ==> nf_no_name(self@, *name), r is Some ==> self@.len() >= 1 && exists|i: int| nf_at_name(self@, *name, i) && *(r->Some_0) == (#[trigger] self@[i]).ty
//@end
}
impl<Ref: TypeRef> UnnamedFields<Ref> {
//@fn src/ast/ty.rs UnnamedFields::ty_by_pos
//@ spec ensures r is None ==> pos >= self@.len(), r is Some ==> pos < self@.len() && *(r->Some_0) == self@[pos as int]
//@end
}
