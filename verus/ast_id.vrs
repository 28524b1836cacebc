// ---------------------------------------------------------------------------------------------
// C01: semantic ids of types (src/ast/id.rs, src/ast/ty.rs)
// ---------------------------------------------------------------------------------------------
/// The code of a class.
pub open spec fn cls_code(c: Cls) -> u8 {
    match c { Cls::Primitive => 0, Cls::Unicode => 1, Cls::AsciiStr => 2, Cls::Enum => 3, Cls::Union => 4, Cls::Struct => 5, Cls::Tuple => 6, Cls::Array => 7, Cls::List => 8, Cls::Set => 9, Cls::Map => 10 }
}
pub open spec fn ty_cls<R>(t: Ty<R>) -> Cls {
    match t { Ty::Primitive(_) => Cls::Primitive, Ty::Enum(_) => Cls::Enum, Ty::Union(_) => Cls::Union, Ty::Struct(_) => Cls::Struct, Ty::Tuple(_) => Cls::Tuple, Ty::Array(_, _) => Cls::Array, Ty::UnicodeChar => Cls::Unicode, Ty::List(_, _) => Cls::List, Ty::Set(_, _) => Cls::Set, Ty::Map(_, _, _) => Cls::Map }
}
impl SemCommit for Cls {
    open spec fn commits(&self) -> Seq<u8> { seq![cls_code(*self)] }
//@fn src/ast/id.rs <Cls as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { assert([cls_code(*self)]@ =~= seq![cls_code(*self)]); }
//@end
}
impl SemCommit for Variant {
    open spec fn commits(&self) -> Seq<u8> { name_code(self.name.bytes()) + seq![self.tag] }
//@fn src/ast/id.rs <Variant as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { assert([self.tag]@ =~= seq![self.tag]); assert(__h0 + name_code(self.name.bytes()) + seq![self.tag] =~= __h0 + (name_code(self.name.bytes()) + seq![self.tag])); }
//@end
}
pub open spec fn sizing_code(s: Sizing) -> Seq<u8> { vstd::bytes::spec_u64_to_le_bytes(s.min) + vstd::bytes::spec_u64_to_le_bytes(s.max) }
impl SemCommit for Sizing {
    open spec fn commits(&self) -> Seq<u8> { sizing_code(*self) }
//@fn src/ast/id.rs <Sizing as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
//@ subst . to_le_bytes ( ) ==> .verif_le()
//@ subst ?. extend ==> . verif_extend
//@end
}
impl<Ref: TypeRef + SemCommit> SemCommit for Field<Ref> {
    open spec fn commits(&self) -> Seq<u8> { name_code(self.name.bytes()) + self.ty.commits() }
//@fn src/ast/id.rs <Field as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { assert(__h0 + name_code(self.name.bytes()) + self.ty.commits() =~= __h0 + self.commits()); }
//@end
}
impl<'a> VIntoIter for &'a EnumVariants {
    type VItem = &'a Variant;
    open spec fn vseq(self) -> Seq<&'a Variant> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a Variant>) -> bool { vs_wf(self@) && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    fn viter(self) -> VIter<&'a Variant> { let ghost __v = self.vseq(); let ghost __w = self.vfacts(__v); self.iter() }
}
impl<'a, R> VIntoIter for &'a UnionVariants<R> {
    type VItem = (&'a Variant, &'a R);
    open spec fn vseq(self) -> Seq<(&'a Variant, &'a R)> { ref_pairs(self@) }
    open spec fn vfacts(self, s: Seq<(&'a Variant, &'a R)>) -> bool { vm_wf(self@) && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> s[i] == (&self@[i].0, &self@[i].1) }
    fn viter(self) -> VIter<(&'a Variant, &'a R)> { let ghost __v = self.vseq(); let ghost __w = self.vfacts(__v); self.iter() }
}
impl<'a, R> VIntoIter for &'a NamedFields<R> {
    type VItem = &'a Field<R>;
    open spec fn vseq(self) -> Seq<&'a Field<R>> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a Field<R>>) -> bool { 1 <= self@.len() <= 255 && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    fn viter(self) -> VIter<&'a Field<R>> { let ghost __v = self.vseq(); let ghost __w = self.vfacts(__v); self.iter() }
}
impl<'a, R> VIntoIter for &'a UnnamedFields<R> {
    type VItem = &'a R;
    open spec fn vseq(self) -> Seq<&'a R> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a R>) -> bool { 1 <= self@.len() <= 255 && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    fn viter(self) -> VIter<&'a R> { let ghost __v = self.vseq(); let ghost __w = self.vfacts(__v); self.iter() }
}
impl SemCommit for EnumVariants {
    open spec fn commits(&self) -> Seq<u8> { flat(codes(self@)) }
//@fn src/ast/id.rs <EnumVariants as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { lemma_codes_ends(self@, __h0); }
//@ loop 1
 hasher.consumed() == __h0 + flat(codes(self@.take(__it1.pos()))), __all1.len() == self@.len(),
   forall|i: int| #![trigger __all1[i]] 0 <= i < self@.len() ==> *__all1[i] == self@[i],
//@ at at loop 1 start
 proof { lemma_codes_next(self@, __it1.pos() - 1, __h0);  }
//@end
}
/// A variant and its type.
impl<Ref: TypeRef + SemCommit> SemCommit for (Variant, Ref) {
    open spec fn commits(&self) -> Seq<u8> { name_code(self.0.name.bytes()) + seq![self.0.tag] + self.1.commits() }
    #[verifier::external_body]
    fn sem_commit<H: CommitConsume>(&self, hasher: &mut H) { unimplemented!() }
}
impl<Ref: TypeRef + SemCommit> SemCommit for UnionVariants<Ref> {
    open spec fn commits(&self) -> Seq<u8> { flat(codes(self@)) }
//@fn src/ast/id.rs <UnionVariants as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { lemma_codes_ends(self@, __h0); }
//@ loop 1
 hasher.consumed() == __h0 + flat(codes(self@.take(__it1.pos()))), __all1.len() == self@.len(),
   forall|i: int| #![trigger __all1[i]] 0 <= i < self@.len() ==> *__all1[i].0 == self@[i].0 && *__all1[i].1 == self@[i].1,
//@ at at loop 1 start
 proof { lemma_codes_next(self@, __it1.pos() - 1, __h0); let __v = self@[__it1.pos() - 1]; assert(hasher.consumed() + __v.0.commits() + __v.1.commits() =~= hasher.consumed() + __v.commits()); }
//@end
}
impl<Ref: TypeRef + SemCommit> SemCommit for NamedFields<Ref> {
    open spec fn commits(&self) -> Seq<u8> { flat(codes(self@)) }
//@fn src/ast/id.rs <NamedFields as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { lemma_codes_ends(self@, __h0); }
//@ loop 1
 hasher.consumed() == __h0 + flat(codes(self@.take(__it1.pos()))), __all1.len() == self@.len(),
   forall|i: int| #![trigger __all1[i]] 0 <= i < self@.len() ==> *__all1[i] == self@[i],
//@ at at loop 1 start
 proof { lemma_codes_next(self@, __it1.pos() - 1, __h0);  }
//@end
}
impl<Ref: TypeRef + SemCommit> SemCommit for UnnamedFields<Ref> {
    open spec fn commits(&self) -> Seq<u8> { flat(codes(self@)) }
//@fn src/ast/id.rs <UnnamedFields as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { lemma_codes_ends(self@, __h0); }
//@ loop 1
 hasher.consumed() == __h0 + flat(codes(self@.take(__it1.pos()))), __all1.len() == self@.len(),
   forall|i: int| #![trigger __all1[i]] 0 <= i < self@.len() ==> *__all1[i] == self@[i],
//@ at at loop 1 start
 proof { lemma_codes_next(self@, __it1.pos() - 1, __h0);  }
//@end
}
/// What follows the class.
pub open spec fn ty_body<R: SemCommit + TypeRef>(t: Ty<R>) -> Seq<u8> {
    match t {
        Ty::Primitive(p) => seq![p.code],
        Ty::Enum(v) => flat(codes(v@)),
        Ty::Union(v) => flat(codes(v@)),
        Ty::Tuple(v) => flat(codes(v@)),
        Ty::Struct(v) => flat(codes(v@)),
        Ty::Array(x, n) => x.commits() + le16(n),
        Ty::UnicodeChar => Seq::empty(),
        Ty::List(x, s) => x.commits() + sizing_code(s),
        Ty::Set(x, s) => x.commits() + sizing_code(s),
        Ty::Map(k, x, s) => k.commits() + x.commits() + sizing_code(s),
    }
}
pub proof fn lemma_ty_steps<R: SemCommit + TypeRef>(t: Ty<R>, h: Seq<u8>)
    ensures ({
        let c = seq![cls_code(ty_cls(t))];
        &&& h + c + ty_body(t) == h + (c + ty_body(t))
        &&& match t {
            Ty::Primitive(p) => [p.code]@ == seq![p.code],
            Ty::UnicodeChar => h + c + Seq::empty() == h + c,
            Ty::Array(x, n) => h + c + x.commits() + le16(n) == h + c + ty_body(t),
            Ty::List(x, s) => h + c + x.commits() + sizing_code(s) == h + c + ty_body(t),
            Ty::Set(x, s) => h + c + x.commits() + sizing_code(s) == h + c + ty_body(t),
            Ty::Map(k, x, s) => h + c + k.commits() + x.commits() + sizing_code(s) == h + c + ty_body(t),
            _ => true,
        }
    })
{
    let c = seq![cls_code(ty_cls(t))];
    assert(h + c + ty_body(t) =~= h + (c + ty_body(t)));
    match t {
        Ty::Primitive(p) => { assert([p.code]@ =~= seq![p.code]); }
        Ty::UnicodeChar => { assert(h + c + Seq::empty() =~= h + c); }
        Ty::Array(x, n) => { assert(h + c + x.commits() + le16(n) =~= h + c + ty_body(t)); }
        Ty::List(x, s) => { assert(h + c + x.commits() + sizing_code(s) =~= h + c + ty_body(t)); }
        Ty::Set(x, s) => { assert(h + c + x.commits() + sizing_code(s) =~= h + c + ty_body(t)); }
        Ty::Map(k, x, s) => { assert(h + c + k.commits() + x.commits() + sizing_code(s) =~= h + c + ty_body(t)); }
        _ => {}
    }
}
impl<Ref: TypeRef> Ty<Ref> {
//@fn src/ast/ty.rs Ty::cls
//@ ret r
//@ spec ensures r == ty_cls(*self)
//@end
//@fn src/ast/ty.rs Ty::as_wrapped_ty
//@ ret r
//@ spec ensures r is Some ==> self is Tuple && self->Tuple_0@.len() == 1 && self->Tuple_0@[0].spec_as_ty() == r, r is None ==> self is Tuple && self->Tuple_0@.len() == 1 ==> self->Tuple_0@[0].spec_as_ty() is None
//@end
}
impl<Ref: TypeRef + SemCommit> SemCommit for Ty<Ref> {
    open spec fn commits(&self) -> Seq<u8> { seq![cls_code(ty_cls(*self))] + ty_body(*self) }
//@fn src/ast/id.rs <Ty as SemCommit>::sem_commit
//@ subst ?. to_le_bytes ( ) ==> .verif_le()
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 proof { lemma_ty_steps(*self, __h0); }
//@end
}
//@item src/ast/id.rs SEM_ID_TAG
/// What is hashed for a type: its tag twice, its name if it has one, its commitment.
pub open spec fn preimage<R: SemCommit + TypeRef>(t: Ty<R>, name: Option<TypeName>) -> Seq<u8> {
    let tag = sha256(SEM_ID_TAG@);
    tag + tag + (match name { Some(n) => name_code(n.bytes()), None => Seq::empty() }) + t.commits()
}
pub open spec fn deref_name(o: Option<&TypeName>) -> Option<TypeName> { match o { Some(n) => Some(*n), None => None } }
impl<Ref: TypeRef + SemCommit> Ty<Ref> {
//@fn src/ast/id.rs Ty::sem_id_inner
//@ ret r
//@ spec ensures r.bytes() == sha256(preimage(*self, deref_name(name)))
//@ at start
 proof { let t = sha256(SEM_ID_TAG@); assert(Seq::<u8>::empty() + t + t =~= t + t); assert(t + t + Seq::empty() =~= t + t); }
//@end
}
// ---------------------------------------------------------------------------------------------
// Equal bytes mean equal definitions.
// ---------------------------------------------------------------------------------------------
/// The components are given by 32 bytes (the semantic ids they have).
pub open spec fn by_id<R: SemCommit + TypeRef>(t: Ty<R>) -> bool { forall|i: int| 0 <= i < comp_len(t) ==> (#[trigger] comp_ref(t, i)).commits().len() == 32 }
/// Same class, names, tags, order and sizes, and components with the same ids.
pub open spec fn same_def<A: SemCommit + TypeRef, B: SemCommit + TypeRef>(a: Ty<A>, b: Ty<B>) -> bool {
    &&& comp_len(a) == comp_len(b)
    &&& forall|i: int| #![trigger comp_ref(a, i)] #![trigger comp_ref(b, i)] 0 <= i < comp_len(a) ==> comp_ref(a, i).commits() == comp_ref(b, i).commits()
    &&& match (a, b) {
        (Ty::Primitive(p), Ty::Primitive(q)) => p == q,
        (Ty::Enum(v), Ty::Enum(w)) => v@ == w@,
        (Ty::UnicodeChar, Ty::UnicodeChar) => true,
        (Ty::Union(v), Ty::Union(w)) => forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() ==> v@[i].0 == w@[i].0,
        (Ty::Struct(v), Ty::Struct(w)) => forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() ==> v@[i].name == w@[i].name,
        (Ty::Tuple(v), Ty::Tuple(w)) => true,
        (Ty::Array(_, n), Ty::Array(_, m)) => n == m,
        (Ty::List(_, n), Ty::List(_, m)) => n == m,
        (Ty::Set(_, n), Ty::Set(_, m)) => n == m,
        (Ty::Map(_, _, n), Ty::Map(_, _, m)) => n == m,
        _ => false,
    }
}
pub proof fn lemma_u16_inj(a: u16, b: u16)
    ensures le16(a).len() == 2, le16(a) == le16(b) ==> a == b
{
    let (x, y) = (le16(a), le16(b));
    assert(x[0] == (a & 0xff) as u8 && x[1] == ((a >> 8) & 0xff) as u8);
    assert(y[0] == (b & 0xff) as u8 && y[1] == ((b >> 8) & 0xff) as u8);
    assert((a & 0xff) as u8 == (b & 0xff) as u8 && ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8 ==> a == b) by (bit_vector);
}
pub proof fn lemma_sizing_inj(a: Sizing, b: Sizing)
    ensures sizing_code(a).len() == 16, sizing_code(a) == sizing_code(b) ==> a == b
{
    vstd::bytes::lemma_auto_spec_u64_to_from_le_bytes();
    let (x, y) = (vstd::bytes::spec_u64_to_le_bytes(a.min), vstd::bytes::spec_u64_to_le_bytes(b.min));
    let (u, v) = (vstd::bytes::spec_u64_to_le_bytes(a.max), vstd::bytes::spec_u64_to_le_bytes(b.max));
    assert(x.len() == 8 && y.len() == 8 && u.len() == 8 && v.len() == 8);
    if x + u == y + v { lemma_apart_len(x, y); lemma_cancel(x, y, u, v); }
}
pub proof fn lemma_variant_apart(a: Variant, b: Variant)
    ensures a.commits().len() > 0, apart(a.commits(), b.commits()), a.commits() == b.commits() ==> a == b
{
    broadcast use variant_name_len, variant_name_ext;
    assert(a.name.bytes().len() <= 255 && b.name.bytes().len() <= 255);
    lemma_name_apart(a.name.bytes(), b.name.bytes());
    lemma_apart_cat(name_code(a.name.bytes()), seq![a.tag], name_code(b.name.bytes()), seq![b.tag]);
    if a.commits() == b.commits() {
        lemma_cancel(name_code(a.name.bytes()), name_code(b.name.bytes()), seq![a.tag], seq![b.tag]);
        assert(seq![a.tag][0] == a.tag && seq![b.tag][0] == b.tag);
    }
}
pub proof fn lemma_union_apart<A: SemCommit + TypeRef, B: SemCommit + TypeRef>(a: (Variant, A), b: (Variant, B))
    requires a.1.commits().len() == 32, b.1.commits().len() == 32
    ensures a.commits().len() > 0, apart(a.commits(), b.commits()), a.commits() == b.commits() ==> a.0 == b.0 && a.1.commits() == b.1.commits()
{
    lemma_variant_apart(a.0, b.0);
    lemma_apart_cat(a.0.commits(), a.1.commits(), b.0.commits(), b.1.commits());
    assert(a.commits() == a.0.commits() + a.1.commits() && b.commits() == b.0.commits() + b.1.commits());
    if a.commits() == b.commits() { lemma_cancel(a.0.commits(), b.0.commits(), a.1.commits(), b.1.commits()); }
}
pub proof fn lemma_field_apart<A: SemCommit + TypeRef, B: SemCommit + TypeRef>(a: Field<A>, b: Field<B>)
    requires a.ty.commits().len() == 32, b.ty.commits().len() == 32
    ensures a.commits().len() > 0, apart(a.commits(), b.commits()), a.commits() == b.commits() ==> a.name == b.name && a.ty.commits() == b.ty.commits()
{
    broadcast use field_name_len, field_name_ext;
    assert(a.name.bytes().len() <= 255 && b.name.bytes().len() <= 255);
    lemma_name_apart(a.name.bytes(), b.name.bytes());
    let (x, y) = (name_code(a.name.bytes()), name_code(b.name.bytes()));
    lemma_apart_cat(x, a.ty.commits(), y, b.ty.commits());
    if a.commits() == b.commits() { lemma_cancel(x, y, a.ty.commits(), b.ty.commits()); }
}
pub proof fn lemma_same_def<A: SemCommit + TypeRef, B: SemCommit + TypeRef>(a: Ty<A>, b: Ty<B>)
    requires by_id(a), by_id(b), a.commits() == b.commits()
    ensures same_def(a, b)
{
    let (ca, cb) = (seq![cls_code(ty_cls(a))], seq![cls_code(ty_cls(b))]);
    lemma_apart_len(ca, cb);
    lemma_cancel(ca, cb, ty_body(a), ty_body(b));
    assert(ca[0] == cb[0]);
    match (a, b) {
        (Ty::Primitive(p), Ty::Primitive(q)) => { assert(seq![p.code][0] == seq![q.code][0]); }
        (Ty::Enum(v), Ty::Enum(w)) => {
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] codes(v@)[i]).len() > 0 by { lemma_variant_apart(v@[i], v@[i]); }
            assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] codes(w@)[i]).len() > 0 by { lemma_variant_apart(w@[i], w@[i]); }
            assert forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < w@.len() implies apart(#[trigger] codes(v@)[i], #[trigger] codes(w@)[j]) by { lemma_variant_apart(v@[i], w@[j]); }
            lemma_flat_inj(codes(v@), codes(w@));
            assert(codes(v@).len() == v@.len() && codes(w@).len() == w@.len());
            assert forall|i: int| 0 <= i < v@.len() implies v@[i] == w@[i] by { assert(codes(v@)[i] == codes(w@)[i]); lemma_variant_apart(v@[i], w@[i]); }
            assert(v@ =~= w@);
        }
        (Ty::Union(v), Ty::Union(w)) => {
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).1.commits().len() == 32 by { assert(comp_ref(a, i).commits().len() == 32); }
            assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] w@[i]).1.commits().len() == 32 by { assert(comp_ref(b, i).commits().len() == 32); }
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] codes(v@)[i]).len() > 0 by { lemma_union_apart(v@[i], v@[i]); }
            assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] codes(w@)[i]).len() > 0 by { lemma_union_apart(w@[i], w@[i]); }
            assert forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < w@.len() implies apart(#[trigger] codes(v@)[i], #[trigger] codes(w@)[j]) by { lemma_union_apart(v@[i], w@[j]); }
            lemma_flat_inj(codes(v@), codes(w@));
            assert(codes(v@).len() == v@.len() && codes(w@).len() == w@.len());
            assert forall|i: int| 0 <= i < v@.len() implies v@[i].0 == w@[i].0 && v@[i].1.commits() == w@[i].1.commits() by { assert(codes(v@)[i] == codes(w@)[i]); lemma_union_apart(v@[i], w@[i]); }
        }
        (Ty::Struct(v), Ty::Struct(w)) => {
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).ty.commits().len() == 32 by { assert(comp_ref(a, i).commits().len() == 32); }
            assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] w@[i]).ty.commits().len() == 32 by { assert(comp_ref(b, i).commits().len() == 32); }
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] codes(v@)[i]).len() > 0 by { lemma_field_apart(v@[i], v@[i]); }
            assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] codes(w@)[i]).len() > 0 by { lemma_field_apart(w@[i], w@[i]); }
            assert forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < w@.len() implies apart(#[trigger] codes(v@)[i], #[trigger] codes(w@)[j]) by { lemma_field_apart(v@[i], w@[j]); }
            lemma_flat_inj(codes(v@), codes(w@));
            assert(codes(v@).len() == v@.len() && codes(w@).len() == w@.len());
            assert forall|i: int| 0 <= i < v@.len() implies v@[i].name == w@[i].name && v@[i].ty.commits() == w@[i].ty.commits() by { assert(codes(v@)[i] == codes(w@)[i]); lemma_field_apart(v@[i], w@[i]); }
        }
        (Ty::Tuple(v), Ty::Tuple(w)) => {
            assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] codes(v@)[i]).len() == 32 by { assert(comp_ref(a, i).commits().len() == 32); }
            assert forall|i: int| 0 <= i < w@.len() implies (#[trigger] codes(w@)[i]).len() == 32 by { assert(comp_ref(b, i).commits().len() == 32); }
            assert forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < w@.len() implies apart(#[trigger] codes(v@)[i], #[trigger] codes(w@)[j]) by { lemma_apart_len(codes(v@)[i], codes(w@)[j]); }
            lemma_flat_inj(codes(v@), codes(w@));
            assert(codes(v@).len() == v@.len() && codes(w@).len() == w@.len());
            assert forall|i: int| 0 <= i < v@.len() implies v@[i].commits() == w@[i].commits() by { assert(codes(v@)[i] == codes(w@)[i]); }
        }
        (Ty::Array(x, n), Ty::Array(y, m)) => {
            assert(comp_ref(a, 0) == x && comp_ref(b, 0) == y);
            lemma_apart_len(x.commits(), y.commits()); lemma_u16_inj(n, m);
            lemma_cancel(x.commits(), y.commits(), le16(n), le16(m));
        }
        (Ty::List(x, n), Ty::List(y, m)) => { assert(comp_ref(a, 0) == x && comp_ref(b, 0) == y); lemma_apart_len(x.commits(), y.commits()); lemma_sizing_inj(n, m); lemma_cancel(x.commits(), y.commits(), sizing_code(n), sizing_code(m)); }
        (Ty::Set(x, n), Ty::Set(y, m)) => { assert(comp_ref(a, 0) == x && comp_ref(b, 0) == y); lemma_apart_len(x.commits(), y.commits()); lemma_sizing_inj(n, m); lemma_cancel(x.commits(), y.commits(), sizing_code(n), sizing_code(m)); }
        (Ty::Map(k, x, n), Ty::Map(l, y, m)) => {
            assert(comp_ref(a, 0) == k && comp_ref(b, 0) == l && comp_ref(a, 1) == x && comp_ref(b, 1) == y);
            assert(k.commits() + x.commits() + sizing_code(n) =~= k.commits() + (x.commits() + sizing_code(n)));
            assert(l.commits() + y.commits() + sizing_code(m) =~= l.commits() + (y.commits() + sizing_code(m)));
            lemma_apart_len(k.commits(), l.commits()); lemma_sizing_inj(n, m);
            lemma_cancel(k.commits(), l.commits(), x.commits() + sizing_code(n), y.commits() + sizing_code(m));
            lemma_apart_len(x.commits(), y.commits());
            lemma_cancel(x.commits(), y.commits(), sizing_code(n), sizing_code(m));
        }
        _ => {}
    }
}
/// Two definitions, both named or both unnamed, which are fed to the hash alike, are alike.
pub proof fn lemma_preimage<A: SemCommit + TypeRef, B: SemCommit + TypeRef>(a: Ty<A>, n: Option<TypeName>, b: Ty<B>, m: Option<TypeName>)
    requires by_id(a), by_id(b), n is Some <==> m is Some, preimage(a, n) == preimage(b, m)
    ensures n == m, same_def(a, b)
{
    broadcast use type_name_len, type_name_ext;
    let t = sha256(SEM_ID_TAG@) + sha256(SEM_ID_TAG@);
    lemma_apart_len(t, t);
    if let (Some(x), Some(y)) = (n, m) {
        let (p, q) = (name_code(x.bytes()), name_code(y.bytes()));
        assert(t + p + a.commits() =~= t + (p + a.commits())); assert(t + q + b.commits() =~= t + (q + b.commits()));
        lemma_cancel(t, t, p + a.commits(), q + b.commits());
        assert(x.bytes().len() <= 255 && y.bytes().len() <= 255);
        lemma_name_apart(x.bytes(), y.bytes());
        lemma_cancel(p, q, a.commits(), b.commits());
    } else {
        assert(t + Seq::empty() =~= t);
        lemma_cancel(t, t, a.commits(), b.commits());
    }
    lemma_same_def(a, b);
}
/// Components given by semantic ids are told apart by their bytes.
pub proof fn lemma_same_ids(a: Ty<SemId>, b: Ty<SemId>)
    requires same_def(a, b)
    ensures by_id(a), by_id(b), forall|i: int| #![trigger comp_ref(a, i)] 0 <= i < comp_len(a) ==> comp_ref(a, i) == comp_ref(b, i)
{ broadcast use sem_id_len, sem_id_ext; }
/// References of libraries: none of them hands out a definition (`as_ty` keeps its default), so nothing is unwrapped.
pub trait LibSubref: TypeRef + SemCommit { proof fn no_ty(&self) ensures self.spec_as_ty() is None; }
impl Ty<SemId> {
//@fn src/ast/id.rs Ty<SemId>::sem_id_unnamed
//@ ret r
//@ spec ensures r.bytes() == sha256(preimage(*self, None)) decreases 0int
//@end
}
impl<Ref: LibSubref> Ty<Ref> {
//@fn src/ast/id.rs Ty<Ref>::sem_id_named
//@ ret r
//@ spec ensures r.bytes() == sha256(preimage(*self, Some(*name)))
//@end
//@fn src/ast/id.rs Ty<Ref>::sem_id_unnamed
//@ name sem_id_unnamed_lib
//@ ret r
//@ subst sem_id_unnamed ==> sem_id_unnamed_lib
//@ spec ensures r.bytes() == sha256(preimage(*self, None)) decreases 0int
//@ at start
 proof { if self is Tuple && self->Tuple_0@.len() == 1 { self->Tuple_0@[0].no_ty(); } }
//@end
}
/// What the ids of any two definitions over semantic ids tell.
pub fn client_ids(a: &Ty<SemId>, b: &Ty<SemId>) -> (r: (SemId, SemId))
    ensures
        *a == *b ==> r.0 == r.1,
        r.0 == r.1 && !(forall|i: int| 0 <= i < comp_len(*a) ==> comp_ref(*a, i) == #[trigger] comp_ref(*b, i)) ==> collision(preimage(*a, None), preimage(*b, None)),
        r.0 == r.1 && !same_def(*a, *b) ==> collision(preimage(*a, None), preimage(*b, None)),
{
    broadcast use sem_id_len, sem_id_ext;
    let (x, y) = (a.sem_id_unnamed(), b.sem_id_unnamed());
    proof { if preimage(*a, None) == preimage(*b, None) { lemma_preimage(*a, None, *b, None); lemma_same_ids(*a, *b); } }
    (x, y)
}
/// Two inputs with the same hash.
pub open spec fn collision(a: Seq<u8>, b: Seq<u8>) -> bool { a != b && sha256(a) == sha256(b) }
/// The same for named definitions of libraries, the components of which are given by ids.
pub fn client_named_ids<A: LibSubref, B: LibSubref>(a: &Ty<A>, n: &TypeName, b: &Ty<B>, m: &TypeName) -> (r: (SemId, SemId))
    requires by_id(*a), by_id(*b)
    ensures
        r.0 == r.1 && !(*n == *m && same_def(*a, *b)) ==> collision(preimage(*a, Some(*n)), preimage(*b, Some(*m))),
        *n == *m && a.commits() == b.commits() ==> r.0 == r.1,
{
    broadcast use sem_id_ext;
    let (x, y) = (a.sem_id_named(n), b.sem_id_named(m));
    proof { if preimage(*a, Some(*n)) == preimage(*b, Some(*m)) { lemma_preimage(*a, Some(*n), *b, Some(*m)); } }
    (x, y)
}
pub fn client_unnamed_lib_ids<A: LibSubref, B: LibSubref>(a: &Ty<A>, b: &Ty<B>) -> (r: (SemId, SemId))
    requires by_id(*a), by_id(*b)
    ensures
        r.0 == r.1 && !same_def(*a, *b) ==> collision(preimage(*a, None), preimage(*b, None)),
        a.commits() == b.commits() ==> r.0 == r.1,
{
    broadcast use sem_id_ext;
    let (x, y) = (a.sem_id_unnamed_lib(), b.sem_id_unnamed_lib());
    proof { if preimage(*a, None) == preimage(*b, None) { lemma_preimage(*a, None, *b, None); } }
    (x, y)
}
