// ---------------------------------------------------------------------------------------------
// Lookup of types and restricted strings (src/typesys/type_sys.rs, src/value/typify.rs, src/ast/ty.rs)
// ---------------------------------------------------------------------------------------------
/// `&Ty::UNIT`
#[verifier::external_body]
pub fn verif_unit_ty() -> (r: &'static Ty<SemId>) ensures *r == (Ty::<SemId>::Primitive(Primitive { code: 0 })) { unimplemented!() }
/// References by id hold no definition (`TypeRef::as_ty` of `SemId` is the default), so looking into the first field finds none.
pub fn verif_inner_char_enum(f: &UnnamedFields<SemId>) -> (r: bool) ensures !r { false }
/// `(a..=b).contains(&x)`
pub fn verif_between(a: u8, b: u8, x: &u8) -> (r: bool) ensures r == (a <= *x <= b) { a <= *x && *x <= b }
/// `std::slice::split_first`, `str::is_ascii` of bytes, `iter().all`
#[verifier::external_body]
pub fn verif_split_first(b: &[u8]) -> (r: Option<(&u8, &[u8])>) ensures match r { None => b@.len() == 0, Some((x, s)) => b@.len() > 0 && *x == b@[0] && s@ == b@.skip(1) } { unimplemented!() }
#[verifier::external_body]
pub fn verif_ascii(b: &[u8]) -> (r: bool) ensures r == ascii(b@) { unimplemented!() }
impl<'a> VIntoIter for &'a [u8] {
    type VItem = &'a u8;
    open spec fn vseq(self) -> Seq<&'a u8> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a u8>) -> bool { forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    #[verifier::external_body]
    fn viter(self) -> VIter<&'a u8> { unimplemented!() }
}
impl<'a> VIntoIter for &'a UnnamedFields<SemId> {
    type VItem = &'a SemId;
    open spec fn vseq(self) -> Seq<&'a SemId> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a SemId>) -> bool { 1 <= self@.len() <= 255 && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    fn viter(self) -> VIter<&'a SemId> { self.iter() }
}
impl<'a> VIntoIter for &'a NamedFields<SemId> {
    type VItem = &'a Field<SemId>;
    open spec fn vseq(self) -> Seq<&'a Field<SemId>> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a Field<SemId>>) -> bool { 1 <= self@.len() <= 255 && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    fn viter(self) -> VIter<&'a Field<SemId>> { self.iter() }
}
#[verifier::external]
impl std::fmt::Debug for UnknownType { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl Ty<SemId> {
//@fn src/ast/ty.rs Ty::is_char_enum
//@ ret r
//@ subst fields.first().and_then(Ref::as_ty).map(Self::is_char_enum).unwrap_or_default() ==> verif_inner_char_enum(fields)
//@ subst ?(32..=127).contains(&variant.tag) ==> verif_between(32, 127, &variant.tag)
//@ subst ?. all ==> . all_
//@ closure 1 -> (__r: bool) ensures __r == (32 <= variant.tag <= 127)
//@ spec ensures r == char_enum(*self)
//@end
}
/// The types of a tuple of two, which decide whether it is a restricted string, are defined.
pub open spec fn known(m: Tys, f: Seq<SemId>) -> bool { f.len() == 2 ==> find_ty(m, f[0]) is Some && match find_ty(m, f[1]) { None => false, Some(Ty::List(i, _)) => find_ty(m, i) is Some, _ => true } }
pub proof fn lemma_chars_ascii(m: Tys, id: SemId, b: Seq<u8>)
    requires char_enum_id(m, id), chars_of(m, id, b) ensures ascii(b)
{
    if let Some(Ty::Enum(vs)) = find_ty(m, id) {
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]) < 0x80 by {
            assert(is_tag(vs, b[i]));
            let j = choose|j: int| 0 <= j < vs@.len() && (#[trigger] vs@[j]).tag == b[i];
            assert(vs@[j].tag <= 127);
        }
    }
}
/// Restricted strings are ASCII.
pub proof fn lemma_rs_ascii(m: Tys, f: Seq<SemId>, b: Seq<u8>)
    requires rs_conf(m, f, b) ensures forall|s: Seq<u8>| #![trigger chars_of(m, f[0], s)] #![trigger ascii(s)] s.len() == 1 && s[0] == b[0] ==> chars_of(m, f[0], s) && ascii(s), ascii(b.skip(1)), ascii(b)
{
    lemma_chars_ascii(m, f[0], seq![b[0]]); lemma_chars_ascii(m, rs_rest(m, f), b.skip(1));
    assert(seq![b[0]][0] < 0x80);
    assert forall|s: Seq<u8>| #![trigger chars_of(m, f[0], s)] #![trigger ascii(s)] s.len() == 1 && s[0] == b[0] implies chars_of(m, f[0], s) && ascii(s) by { assert(s =~= seq![b[0]]); }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]) < 0x80 by { if i > 0 { assert(b[i] == b.skip(1)[i - 1]); } }
}
impl TypeSystem {
    // derived wrapper operation
    pub fn as_inner(&self) -> (r: &MediumOrdMap<SemId, Ty<SemId>>) ensures r@ == self@ { &self.0 }
//@fn src/value/typify.rs TypeSystem::find
//@ ret r
//@ subst Some(&Ty::UNIT) ==> Some(verif_unit_ty())
//@ closure 1 -> (__r: bool) ensures __r == (*(__a0.0) == sem_id)
//@ closure 2 -> (__r: &'_ Ty<SemId>) ensures __r == __a0.1
//@ spec ensures match r { Some(t) => find_ty(self@, sem_id) == Some(*t), None => find_ty(self@, sem_id) is None }
//@end
//@fn src/typesys/type_sys.rs TypeSystem::rstring_sizing
//@ ret r
//@ subst ?fields[0] ==> *fields.at(0)
//@ subst ?fields[1] ==> *fields.at(1)
//@ spec requires fields@.len() >= 2
//@ spec ensures match r { Ok(x) => find_ty(self@, fields@[1]) is Some && match find_ty(self@, fields@[1])->Some_0 { Ty::List(i, z) => x == Some((i, plus1(z))), _ => x is None }, Err(_) => find_ty(self@, fields@[1]) is None }
//@end
//@fn src/typesys/type_sys.rs TypeSystem::is_rstring
//@ ret r
//@ subst ?fields[0] ==> *fields.at(0)
//@ subst ?fields[1] ==> *fields.at(1)
//@ spec ensures r is Ok ==> r->Ok_0 == rstring(self@, fields@), rstring(self@, fields@) ==> r is Ok, known(self@, fields@) ==> r is Ok
//@end
//@fn src/typesys/type_sys.rs TypeSystem::is_made_of
//@ ret r
//@ subst ?string.is_ascii() ==> verif_ascii(string)
//@ subst ?string.iter() ==> string.viter()
//@ subst ?. all ==> . all_
//@ closure 1 -> (__r: bool) ensures __r == is_tag(*variants, *ch)
//@ spec ensures r ==> chars_of(self@, char_id, string@) && ascii(string@), chars_of(self@, char_id, string@) && ascii(string@) ==> r
//@end
//@fn src/typesys/type_sys.rs TypeSystem::is_rstring_val
//@ sigsub string: &str ==> string: &String
//@ ret r
//@ subst ?fields[0] ==> *fields.at(0)
//@ subst ?fields[1] ==> *fields.at(1)
//@ subst ?string.as_bytes().split_first() ==> verif_split_first(string.as_bytes())
//@ spec ensures r ==> rs_conf(self@, fields@, string@), rs_conf(self@, fields@, string@) ==> r
//@ at start
 proof { if rs_conf(self@, fields@, string@) { lemma_rs_ascii(self@, fields@, string@); } }
//@end
}
