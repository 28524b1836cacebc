// ---------------------------------------------------------------------------------------------
// Type systems (src/typesys): types under contract.
// ---------------------------------------------------------------------------------------------
/// 32 bytes; equality and order are those of the bytes.
#[verifier::external_body] #[derive(Debug, Copy)] pub struct SemId { b: [u8; 32] }
impl Clone for SemId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl SClone for SemId { open spec fn sclone(&self) -> Self { *self } }
impl PartialEq for SemId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq for SemId {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for SemId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self == o }
}
impl TypeRef for SemId { open spec fn spec_as_ty(&self) -> Option<&Ty<Self>> { None } fn as_ty(&self) -> Option<&Ty<Self>> { None } }
/// derived
impl Clone for Ty<SemId> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// The components of a type in declaration order (variants by tag): their number and the component at `i`.
pub open spec fn comp_len<R>(t: Ty<R>) -> int {
    match t {
        Ty::Union(v) => v@.len() as int,
        Ty::Struct(f) => f@.len() as int,
        Ty::Tuple(f) => f@.len() as int,
        Ty::Array(_, _) | Ty::List(_, _) | Ty::Set(_, _) => 1,
        Ty::Map(_, _, _) => 2,
        Ty::Primitive(_) | Ty::Enum(_) | Ty::UnicodeChar => 0,
    }
}
pub open spec fn comp_ref<R>(t: Ty<R>, i: int) -> R {
    match t {
        Ty::Union(v) => v@[i].1,
        Ty::Struct(f) => f@[i].ty,
        Ty::Tuple(f) => f@[i],
        Ty::Array(x, _) => x,
        Ty::List(x, _) => x,
        Ty::Set(x, _) => x,
        Ty::Map(k, v, _) => if i == 0 { k } else { v },
        _ => arbitrary(),
    }
}
/// `t` references `id` directly.
#[verifier::opaque]
pub open spec fn refers<R>(t: Ty<R>, id: R) -> bool { exists|i: int| 0 <= i < comp_len(t) && #[trigger] comp_ref(t, i) == id }
impl<R> Ty<R> {
    // Assumed here; the C06 unit proves that the iterator yields exactly the components in order.
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VIter<(&'a R, Option<ItemCase>)>)
        ensures r.rem() == r.all(), r.pos() == 0, r.all().len() == comp_len(*self), forall|i: int| #![trigger r.all()[i]] #![trigger comp_ref(*self, i)] 0 <= i < comp_len(*self) ==> *r.all()[i].0 == comp_ref(*self, i) { unimplemented!() }
    pub fn type_refs<'a>(&'a self) -> (r: VIter<(&'a R, Option<ItemCase>)>)
        ensures r.rem() == r.all(), r.pos() == 0, r.all().len() == comp_len(*self), forall|i: int| #![trigger r.all()[i]] #![trigger comp_ref(*self, i)] 0 <= i < comp_len(*self) ==> *r.all()[i].0 == comp_ref(*self, i) { self.iter() }
}
//@item src/typesys/type_sys.rs UnknownType
//@item src/typesys/type_sys.rs TypeSystem
/// The types a system holds.
pub type Tys = Map<SemId, Ty<SemId>>;
impl TypeSystem {
 pub open spec fn view(&self) -> Tys { self.0@ }
//@fn src/typesys/type_sys.rs TypeSystem::get
//@ ret r
//@ spec ensures r is Some <==> self@.contains_key(sem_id), r is Some ==> *(r->Some_0) == self@[sem_id]
//@end
}
