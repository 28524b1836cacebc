// ---------------------------------------------------------------------------------------------
// C02: ids of libraries and type systems (src/typelib/id.rs, src/typesys/id.rs)
// ---------------------------------------------------------------------------------------------
//@item src/typelib/type_lib.rs TypeLib ;; TinyOrdSet<Dependency> ==> TinyDepSet ;; TypeMap ==> TypeMap<TypeName, Ty<LibRef>> ;; ExternTypes ==> ExternTypes
conf_map!(TinyOrdMap, 0, 255);
conf_map!(SmallOrdMap, 0, 65535);
pub type ExternTypes = TinyOrdMap<LibName, SmallOrdMap<SemId, TypeName>>;
macro_rules! id_standin { ($t:ident, $lax:ident, $ax:ident) => { verus! {
    impl $t {
        pub uninterp spec fn bytes(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
        #[verifier::external_body]
        pub fn from_byte_array(d: Digest32) -> (r: Self) ensures r.bytes() == d.b@ { unimplemented!() }
    }
    pub broadcast axiom fn $lax(a: $t) ensures #[trigger] a.bytes().len() == 32;
    pub broadcast axiom fn $ax(a: $t, b: $t) ensures #[trigger] a.bytes() == #[trigger] b.bytes() ==> a == b;
} } }
id_standin!(TypeLibId, lib_id_len, lib_id_ext);
/// 32 bytes
#[verifier::external_body] #[derive(Debug, Copy)] pub struct TypeSysId { b: [u8; 32] }
impl Clone for TypeSysId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
id_standin!(TypeSysId, sys_id_len, sys_id_ext);
/// amplify's 24-bit integer.
pub struct U24 { pub v: u32 }
pub open spec fn le24(x: u32) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8] }
impl VLe for U24 { type Out = [u8; 3]; open spec fn le(self) -> Seq<u8> { le24(self.v) } open spec fn out(o: [u8; 3]) -> Seq<u8> { o@ } #[verifier::external_body] fn verif_le(self) -> [u8; 3] { unimplemented!() } }
impl TinyDepSet {
    #[verifier::external_body]
    pub fn len_u8(&self) -> (r: u8) ensures r == self@.len(), self.seq().len() == self@.len(), lists_deps(self@, self.seq()) { unimplemented!() }
}
impl<K, V> TypeMap<K, V> {
    #[verifier::external_body]
    pub fn len_u16(&self) -> (r: u16) ensures r == self.seq().len(), lists_map(self@, self.seq()) { unimplemented!() }
}
impl TypeSystem {
    // Deref to the map
    #[verifier::external_body]
    pub fn len_u24(&self) -> (r: U24) ensures r.v == self.0.seq().len(), r.v < 0x1000000, lists_map(self@, self.0.seq()) { unimplemented!() }
    pub fn keys(&self) -> (r: VIter<&SemId>) ensures r.fresh(ref_keys(self.0.seq())), lists_map(self@, self.0.seq()),
        forall|i: int| #![trigger self.0.seq()[i]] #![trigger r.rem()[i]] 0 <= i < self.0.seq().len() ==> *r.rem()[i] == self.0.seq()[i].0 && *r.all()[i] == self.0.seq()[i].0 { self.0.keys() }
}
impl SemCommit for TypeLibId {
    open spec fn commits(&self) -> Seq<u8> { self.bytes() }
//@fn src/typelib/id.rs <TypeLibId as SemCommit>::sem_commit
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@end
}
impl SemCommit for Dependency {
    open spec fn commits(&self) -> Seq<u8> { self.id.bytes() }
//@fn src/typelib/id.rs <Dependency as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
//@end
}
/// The semantic ids (their bytes) of the definitions, in the order of their names.
pub open spec fn named_ids(s: Seq<(TypeName, Ty<LibRef>)>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| sha256(preimage(s[i].1, Some(s[i].0)))) }
pub proof fn lemma_named_next(s: Seq<(TypeName, Ty<LibRef>)>, i: int, o: Seq<u8>)
    requires 0 <= i < s.len() ensures o + flat(named_ids(s.take(i + 1))) == o + flat(named_ids(s.take(i))) + sha256(preimage(s[i].1, Some(s[i].0)))
{ let n = named_ids(s.take(i + 1)); assert(n.drop_last() =~= named_ids(s.take(i))); assert(n.last() == sha256(preimage(s[i].1, Some(s[i].0)))); assert(o + flat(n) =~= o + flat(named_ids(s.take(i))) + n.last()); }
pub proof fn lemma_named_ends(s: Seq<(TypeName, Ty<LibRef>)>, o: Seq<u8>)
    ensures o + flat(named_ids(s.take(0))) == o, s.take(s.len() as int) == s
{ assert(named_ids(s.take(0)).len() == 0); assert(o + flat(named_ids(s.take(0))) =~= o); assert(s.take(s.len() as int) =~= s); }
pub open spec fn lib_bytes(name: Seq<u8>, deps: Seq<Seq<u8>>, types: Seq<Seq<u8>>) -> Seq<u8> {
    name_code(name) + seq![deps.len() as u8] + flat(deps) + le16(types.len() as u16) + flat(types)
}
impl SemCommit for TypeLib {
    open spec fn commits(&self) -> Seq<u8> { lib_bytes(self.name.bytes(), codes(self.dependencies.seq()), named_ids(self.types.seq())) }
//@fn src/typelib/id.rs <TypeLib as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ subst . to_le_bytes ( ) ==> .verif_le()
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 let ghost __d = self.dependencies.seq(); let ghost __t = self.types.seq();
 let ghost __h1 = __h0 + name_code(self.name.bytes()) + seq![__d.len() as u8];
 let ghost __h2 = __h1 + flat(codes(__d)) + le16(__t.len() as u16);
 proof {
   assert([__d.len() as u8]@ =~= seq![__d.len() as u8]);
   lemma_codes_ends(__d, __h1); lemma_named_ends(__t, __h2);
   assert(__h2 + flat(named_ids(__t)) =~= __h0 + self.commits());
 }
//@ loop 1
 hasher.consumed() == __h1 + flat(codes(__d.take(__it1.pos()))), __all1.len() == __d.len(),
   forall|i: int| #![trigger __all1[i]] 0 <= i < __d.len() ==> *__all1[i] == __d[i],
//@ at at loop 1 start
 proof { lemma_codes_next(__d, __it1.pos() - 1, __h1); }
//@ loop 2
 hasher.consumed() == __h2 + flat(named_ids(__t.take(__it2.pos()))), __all2.len() == __t.len(),
   forall|i: int| #![trigger __all2[i]] 0 <= i < __t.len() ==> *__all2[i].0 == __t[i].0 && *__all2[i].1 == __t[i].1,
//@ at at loop 2 start
 proof { lemma_named_next(__t, __it2.pos() - 1, __h2); }
//@ at after loop 2
 proof { assert(__t.take(__t.len() as int) == __t); assert(hasher.consumed() == __h2 + flat(named_ids(__t))); }
//@end
}
//@item src/typelib/id.rs LIB_ID_TAG
pub open spec fn tagged(tag: Seq<u8>, s: Seq<u8>) -> Seq<u8> { let t = sha256(tag); t + t + s }
pub proof fn lemma_tagged(tag: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures tagged(tag, a) == tagged(tag, b) ==> a == b, ({ let t = sha256(tag); Seq::<u8>::empty() + t + t == t + t })
{
    let t = sha256(tag); lemma_apart_len(t + t, t + t);
    if tagged(tag, a) == tagged(tag, b) { lemma_cancel(t + t, t + t, a, b); }
    assert(Seq::<u8>::empty() + t + t =~= t + t);
}
impl TypeLib {
//@fn src/typelib/id.rs TypeLib::id
//@ ret r
//@ spec ensures r.bytes() == sha256(tagged(LIB_ID_TAG@, self.commits()))
//@ at start
 proof { lemma_tagged(LIB_ID_TAG@, Seq::empty(), Seq::empty()); }
//@end
}
pub open spec fn sys_ids(s: Seq<(SemId, Ty<SemId>)>) -> Seq<SemId> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn sys_bytes(ids: Seq<SemId>) -> Seq<u8> { le24(ids.len() as u32) + flat(codes(ids)) }
impl SemCommit for TypeSystem {
    open spec fn commits(&self) -> Seq<u8> { sys_bytes(sys_ids(self.0.seq())) }
//@fn src/typesys/id.rs <TypeSystem as SemCommit>::sem_commit
//@ sig fn sem_commit(&self, hasher: &mut impl CommitConsume) ==> fn sem_commit<H: CommitConsume>(&self, hasher: &mut H)
//@ subst . to_le_bytes ( ) ==> .verif_le()
//@ at start
 proof { link_bytes(); } let ghost __c = self.commits();
 let ghost __h0 = hasher.consumed();
 let ghost __i = sys_ids(self.0.seq());
 let ghost __h1 = __h0 + le24(__i.len() as u32);
 proof { lemma_codes_ends(__i, __h1); assert(__h1 + flat(codes(__i)) =~= __h0 + self.commits()); }
//@ loop 1
 hasher.consumed() == __h1 + flat(codes(__i.take(__it1.pos()))), __all1.len() == __i.len(),
   forall|i: int| #![trigger __all1[i]] 0 <= i < __i.len() ==> *__all1[i] == __i[i],
//@ at at loop 1 start
 proof { lemma_codes_next(__i, __it1.pos() - 1, __h1); }
//@end
}
//@item src/typesys/id.rs TYPESYS_ID_TAG
impl TypeSystem {
//@fn src/typesys/id.rs TypeSystem::id
//@ ret r
//@ spec ensures r.bytes() == sha256(tagged(TYPESYS_ID_TAG@, self.commits()))
//@ at start
 proof { lemma_tagged(TYPESYS_ID_TAG@, Seq::empty(), Seq::empty()); }
//@end
}
/// The sorted containers list what they hold in the order of the keys: equal contents are listed alike.
pub open spec fn firsts<K, V>(s: Seq<(K, V)>) -> Seq<K> { Seq::new(s.len(), |i: int| s[i].0) }
pub axiom fn type_map_sorted<K, V>(a: &TypeMap<K, V>, b: &TypeMap<K, V>) ensures lists_map(a@, a.seq()), lists_map(b@, b.seq()), a@.dom() == b@.dom() ==> firsts(a.seq()) == firsts(b.seq());
pub axiom fn sys_map_sorted<K, V>(a: &MediumOrdMap<K, V>, b: &MediumOrdMap<K, V>) ensures lists_map(a@, a.seq()), lists_map(b@, b.seq()), a@.dom() == b@.dom() ==> firsts(a.seq()) == firsts(b.seq());
pub axiom fn dep_set_sorted(a: &TinyDepSet, b: &TinyDepSet) ensures lists_deps(a@, a.seq()), lists_deps(b@, b.seq()), a@ == b@ ==> codes(a.seq()) == codes(b.seq());
pub axiom fn sha256_len(s: Seq<u8>) ensures sha256(s).len() == 32;
pub proof fn lemma_flat_len(s: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == 32 ensures flat(s).len() == 32 * s.len() decreases s.len()
{ if s.len() > 0 { assert(s.last().len() == 32); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).len() == 32 by { assert(s[i].len() == 32); } lemma_flat_len(s.drop_last()); } }
pub proof fn lemma_flat32(s: Seq<Seq<u8>>, t: Seq<Seq<u8>>)
    requires flat(s) == flat(t), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == 32, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() == 32
    ensures s == t
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < t.len() implies apart(#[trigger] s[i], #[trigger] t[j]) by { lemma_apart_len(s[i], t[j]); }
    lemma_flat_inj(s, t);
}
pub proof fn lemma_lib_bytes(n: Seq<u8>, d: Seq<Seq<u8>>, t: Seq<Seq<u8>>, m: Seq<u8>, e: Seq<Seq<u8>>, u: Seq<Seq<u8>>)
    requires lib_bytes(n, d, t) == lib_bytes(m, e, u), n.len() <= 255, m.len() <= 255, d.len() <= 255, e.len() <= 255,
        forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len() == 32, forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).len() == 32,
        forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() == 32, forall|i: int| 0 <= i < u.len() ==> (#[trigger] u[i]).len() == 32,
    ensures n == m, d == e, t == u
{
    let (a1, b1) = (seq![d.len() as u8], seq![e.len() as u8]);
    let (a3, b3) = (le16(t.len() as u16) + flat(t), le16(u.len() as u16) + flat(u));
    assert(lib_bytes(n, d, t) =~= name_code(n) + (a1 + (flat(d) + a3))); assert(lib_bytes(m, e, u) =~= name_code(m) + (b1 + (flat(e) + b3)));
    lemma_name_apart(n, m); lemma_cancel(name_code(n), name_code(m), a1 + (flat(d) + a3), b1 + (flat(e) + b3));
    lemma_apart_len(a1, b1); lemma_cancel(a1, b1, flat(d) + a3, flat(e) + b3);
    assert(a1[0] == b1[0]);
    lemma_flat_len(d); lemma_flat_len(e);
    lemma_apart_len(flat(d), flat(e)); lemma_cancel(flat(d), flat(e), a3, b3);
    lemma_flat32(d, e);
    let (x, y) = (le16(t.len() as u16), le16(u.len() as u16));
    lemma_apart_len(x, y); lemma_cancel(x, y, flat(t), flat(u));
    lemma_flat32(t, u);
}
/// Same name, same dependencies, same semantic ids of the types.
pub open spec fn same_lib(a: TypeLib, b: TypeLib) -> bool {
    a.name == b.name && a.dependencies@ == b.dependencies@ && named_ids(a.types.seq()) == named_ids(b.types.seq())
}
pub proof fn lemma_same_lib(a: TypeLib, b: TypeLib)
    ensures a.commits() == b.commits() <==> same_lib(a, b)
{
    broadcast use lib_name_len, lib_name_ext, lib_id_len, lib_id_ext;
    dep_set_sorted(&a.dependencies, &b.dependencies);
    a.dependencies.bounds(); b.dependencies.bounds();
    let (d, e) = (codes(a.dependencies.seq()), codes(b.dependencies.seq()));
    let (t, u) = (named_ids(a.types.seq()), named_ids(b.types.seq()));
    if a.commits() == b.commits() {
        assert(a.name.bytes().len() <= 255 && b.name.bytes().len() <= 255);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).len() == 32 by { sha256_len(preimage(a.types.seq()[i].1, Some(a.types.seq()[i].0))); }
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).len() == 32 by { sha256_len(preimage(b.types.seq()[i].1, Some(b.types.seq()[i].0))); }
        lemma_lib_bytes(a.name.bytes(), d, t, b.name.bytes(), e, u);
        assert forall|k: TypeLibId| #[trigger] a.dependencies@.contains(k) <==> b.dependencies@.contains(k) by {
            if a.dependencies@.contains(k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] a.dependencies.seq()[i]).id == k; assert(d[i] == e[i]); assert(b.dependencies.seq()[i].id == k); }
            if b.dependencies@.contains(k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] b.dependencies.seq()[i]).id == k; assert(d[i] == e[i]); assert(a.dependencies.seq()[i].id == k); }
        }
        assert(a.dependencies@ =~= b.dependencies@);
    }
}
/// Two libraries have the same id exactly if name, dependencies and semantic ids of the types are the same (or a collision was found).
pub fn client_lib_ids(a: &TypeLib, b: &TypeLib) -> (r: (TypeLibId, TypeLibId))
    ensures same_lib(*a, *b) ==> r.0 == r.1, r.0 == r.1 && !same_lib(*a, *b) ==> collision(tagged(LIB_ID_TAG@, a.commits()), tagged(LIB_ID_TAG@, b.commits())),
        a.name == b.name && a.dependencies@ == b.dependencies@ && a.types@ == b.types@ ==> r.0 == r.1,
{
    broadcast use lib_id_ext;
    let (x, y) = (a.id(), b.id());
    proof {
        lemma_tagged(LIB_ID_TAG@, a.commits(), b.commits()); lemma_same_lib(*a, *b);
        if a.types@ == b.types@ {
            type_map_sorted(&a.types, &b.types);
            let (s, t) = (a.types.seq(), b.types.seq());
            assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(firsts(s)[i] == firsts(t)[i]); assert(a.types@[s[i].0] == s[i].1); assert(b.types@[t[i].0] == t[i].1); }
            assert(firsts(s).len() == s.len() && firsts(t).len() == t.len());
            assert(s =~= t);
        }
    }
    (x, y)
}
pub proof fn lemma_same_sys(a: TypeSystem, b: TypeSystem)
    ensures a.commits() == b.commits() <==> a@.dom() == b@.dom()
{
    broadcast use sem_id_len, sem_id_ext;
    sys_map_sorted(&a.0, &b.0);
    let (i, j) = (sys_ids(a.0.seq()), sys_ids(b.0.seq()));
    assert(i =~= firsts(a.0.seq())); assert(j =~= firsts(b.0.seq()));
    if a.commits() == b.commits() {
        lemma_apart_len(le24(i.len() as u32), le24(j.len() as u32));
        lemma_cancel(le24(i.len() as u32), le24(j.len() as u32), flat(codes(i)), flat(codes(j)));
        lemma_flat32(codes(i), codes(j));
        assert(codes(i).len() == i.len() && codes(j).len() == j.len());
        assert forall|n: int| 0 <= n < i.len() implies i[n] == j[n] by { assert(codes(i)[n] == codes(j)[n]); }
        assert forall|k: SemId| a@.dom().contains(k) <==> b@.dom().contains(k) by {
            if a@.contains_key(k) { let n = choose|n: int| 0 <= n < i.len() && (#[trigger] a.0.seq()[n]).0 == k; assert(i[n] == j[n]); assert(b.0.seq()[n].0 == k); }
            if b@.contains_key(k) { let n = choose|n: int| 0 <= n < i.len() && (#[trigger] b.0.seq()[n]).0 == k; assert(i[n] == j[n]); assert(a.0.seq()[n].0 == k); }
        }
        assert(a@.dom() =~= b@.dom());
    }
}
/// Two systems have the same id exactly if they hold the same semantic ids (or a collision was found).
pub fn client_sys_ids(a: &TypeSystem, b: &TypeSystem) -> (r: (TypeSysId, TypeSysId))
    ensures a@.dom() == b@.dom() ==> r.0 == r.1, r.0 == r.1 && a@.dom() != b@.dom() ==> collision(tagged(TYPESYS_ID_TAG@, a.commits()), tagged(TYPESYS_ID_TAG@, b.commits())),
{
    broadcast use sys_id_ext;
    let (x, y) = (a.id(), b.id());
    proof { lemma_tagged(TYPESYS_ID_TAG@, a.commits(), b.commits()); lemma_same_sys(*a, *b); }
    (x, y)
}
/// `Symbols` play no part in the id.
#[verifier::external_body]
pub struct Symbols { v: Vec<u8> }
//@item src/typesys/symbols.rs SymbolicSys
impl SymbolicSys {
    pub closed spec fn tys(&self) -> TypeSystem { self.types }
//@fn src/typesys/symbols.rs SymbolicSys::id
//@ ret r
//@ spec ensures r.bytes() == sha256(tagged(TYPESYS_ID_TAG@, self.tys().commits()))
//@end
}
impl<K, V> MediumOrdMap<K, V> {
    // inserts one entry after the other
    #[verifier::external_body]
    pub fn extend(&mut self, o: Self) -> (r: Result<(), ConfinementError>) ensures r is Ok ==> final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
}
impl TypeSystem {
//@fn src/typesys/type_sys.rs TypeSystem::extend
//@ sigsub confinement::Error ==> ConfinementError
//@ ret r
//@ spec ensures r is Ok ==> final(self)@ == old(self)@.union_prefer_right(other@)
//@end
}
/// Merging in either order, and merging again what is already there, gives the same id.
pub fn client_merge(a: &mut TypeSystem, b: &mut TypeSystem, a1: TypeSystem, b1: TypeSystem) -> (r: Option<(TypeSysId, TypeSysId)>)
    requires old(a)@ == a1@, old(b)@ == b1@
    ensures r is Some ==> r->Some_0.0 == r->Some_0.1
{
    broadcast use sys_id_ext;
    if a.extend(b1).is_err() { return None; }
    if b.extend(a1).is_err() { return None; }
    proof { assert(a@.dom() =~= b@.dom()); }
    Some(client_sys_ids(a, b))
}
impl Dependency {
//@fn src/typelib/type_lib.rs <Dependency as From<&TypeLib>>::from
//@ name from_lib
//@ sig fn from(lib: &TypeLib) -> Self ==> fn from_lib(lib: &TypeLib) -> (r: Self)
//@ spec ensures r.id.bytes() == sha256(tagged(LIB_ID_TAG@, lib.commits())), r.name == lib.name
//@end
}
impl Dependency {
//@fn src/typelib/type_lib.rs Dependency::with
//@ ret r
//@ spec ensures r.id == id, r.name == name
//@end
}
pub open spec fn offers(l: TypeLib, id: SemId) -> bool { exists|n: TypeName| #[trigger] l.types@.contains_key(n) && id.bytes() == sha256(preimage(l.types@[n], Some(n))) }
impl TypeLib {
//@fn src/typelib/type_lib.rs TypeLib::to_dependency
//@ ret r
//@ spec ensures r.id.bytes() == sha256(tagged(LIB_ID_TAG@, self.commits())), r.name == self.name
//@end
//@fn src/typelib/type_lib.rs TypeLib::to_dependency_types
//@ ret r
//@ subst .collect() ==> .collect::<HashSet<SemId>>()
//@ closure 1
 -> (__r: SemId) ensures __r.bytes() == sha256(preimage(*__a0.1, Some(*__a0.0)))
//@ spec ensures r.0.id.bytes() == sha256(tagged(LIB_ID_TAG@, self.commits())), r.0.name == self.name, forall|id: SemId| #[trigger] r.1@.contains(id) <==> offers(*self, id)
//@ at start
 broadcast use {sem_id_ext, vstd::seq_lib::group_to_multiset_ensures};
 let ghost __t = self.types.seq();
//@ at after let types
 proof {
   assert forall|id: SemId| #[trigger] types@.contains(id) implies offers(*self, id) by {
     let j = choose|j: int| 0 <= j < __t.len() && id.bytes() == sha256(preimage((#[trigger] __t[j]).1, Some(__t[j].0)));
     assert(self.types@.contains_key(__t[j].0));
   }
   assert forall|id: SemId| offers(*self, id) implies #[trigger] types@.contains(id) by {
     let n = choose|n: TypeName| #[trigger] self.types@.contains_key(n) && id.bytes() == sha256(preimage(self.types@[n], Some(n)));
     let j = choose|j: int| 0 <= j < __t.len() && (#[trigger] __t[j]).0 == n;
     assert(__t[j].1 == self.types@[n]);
   }
 }
//@end
}
