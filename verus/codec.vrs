// ---------------------------------------------------------------------------------------------
// C19: binary form of union definitions (src/ast/encoding.rs)
// ---------------------------------------------------------------------------------------------
/// What can be the component of an encoded definition: cloning gives an equal reference.
pub trait CodecRef: TypeRef {
    /// the strict encoding of the reference
    spec fn enc(self) -> Seq<u8>;
    fn clone(&self) -> (r: Self) ensures r == *self;
}
//@item src/ast/encoding.rs VariantInfo ;; ;; struct VariantInfo<Ref: TypeRef> ==> struct VariantInfo<Ref>
/// The bytes of a map from tags: the number of entries, then each tag, name (with its length) and type.
pub open spec fn entry_bytes<Ref: CodecRef>(e: (u8, VariantInfo<Ref>)) -> Seq<u8> { seq![e.0] + seq![e.1.name.bytes().len() as u8] + e.1.name.bytes() + e.1.ty.enc() }
pub open spec fn entries_bytes<Ref: CodecRef>(s: Seq<(u8, VariantInfo<Ref>)>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { entry_bytes(s[0]) + entries_bytes(s.subrange(1, s.len() as int)) }
}
pub open spec fn map_bytes<Ref: CodecRef>(s: Seq<(u8, VariantInfo<Ref>)>) -> Seq<u8> { seq![s.len() as u8] + entries_bytes(s) }
/// Tags ascend.
pub open spec fn tag_map<V>(s: Seq<(u8, V)>) -> bool { s.len() <= 255 && forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
/// The variants as entries of a map from tags, and back.
pub open spec fn entries<Ref>(v: Seq<(Variant, Ref)>) -> Seq<(u8, VariantInfo<Ref>)> { Seq::new(v.len(), |i: int| (v[i].0.tag, VariantInfo { name: v[i].0.name, ty: v[i].1 })) }
pub open spec fn is_entries<Ref>(v: Seq<(Variant, Ref)>, s: Seq<(u8, VariantInfo<Ref>)>) -> bool {
    v.len() == s.len() && forall|i: int| #![trigger v[i]] #![trigger s[i]] 0 <= i < v.len() ==> s[i].0 == v[i].0.tag && s[i].1.name == v[i].0.name && s[i].1.ty == v[i].1
}
pub proof fn lemma_entries<Ref>(v: Seq<(Variant, Ref)>, s: Seq<(u8, VariantInfo<Ref>)>) requires is_entries(v, s) ensures s == entries(v)
{ assert(s =~= entries(v)); }
pub proof fn lemma_entries_inj<Ref>(v: Seq<(Variant, Ref)>, w: Seq<(Variant, Ref)>) requires entries(v) == entries(w) ensures v == w
{
    assert(v.len() == entries(v).len() && w.len() == entries(w).len());
    assert forall|i: int| 0 <= i < v.len() implies v[i] == w[i] by { assert(entries(v)[i] == entries(w)[i]); assert(v[i].0.name == w[i].0.name); assert(v[i].0.tag == w[i].0.tag); }
    assert(v =~= w);
}

/// amplify's `TinyOrdMap` keyed by tags, in ascending order.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct TinyOrdMap<K, V> { v: Vec<(K, V)> }
impl<V> TinyOrdMap<u8, V> {
    pub uninterp spec fn view(&self) -> Seq<(u8, V)>;
    #[verifier::external_body]
    pub fn try_from_iter(it: VIter<(u8, V)>) -> (r: Result<Self, ConfinementError>)
        ensures tag_map(it.rem()) ==> r is Ok && (r->Ok_0)@ == it.rem() { unimplemented!() }
}
impl<Ref: CodecRef> TinyOrdMap<u8, VariantInfo<Ref>> {
    // the codec of maps (strict_encoding) with the derived codec of `VariantInfo`
    #[verifier::external_body]
    pub fn strict_decode(reader: &mut Reader) -> (r: Result<Self, DecodeError>)
        ensures r is Ok ==> tag_map((r->Ok_0)@) && old(reader)@ == map_bytes((r->Ok_0)@) + final(reader)@,
            forall|s: Seq<(u8, VariantInfo<Ref>)>, tail: Seq<u8>| tag_map(s) && old(reader)@ == #[trigger] (map_bytes(s) + tail) ==> r is Ok && (r->Ok_0)@ == s && final(reader)@ == tail { unimplemented!() }
}
impl<V> VIntoIter for TinyOrdMap<u8, V> {
    type VItem = (u8, V);
    open spec fn vseq(self) -> Seq<(u8, V)> { self@ }
    open spec fn vfacts(self, s: Seq<(u8, V)>) -> bool { self@.len() <= 255 && tag_map(self@) }
    #[verifier::external_body]
    fn viter(self) -> VIter<(u8, V)> { unimplemented!() }
}
/// The bytes not yet read.
#[verifier::external_body] pub struct Reader { v: Vec<u8> }
impl Reader { pub uninterp spec fn view(&self) -> Seq<u8>; }
/// The bytes written.
#[verifier::external_body] pub struct Writer { v: Vec<u8> }
impl Writer {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_newtype<Ref: CodecRef>(self, value: &TinyOrdMap<u8, VariantInfo<Ref>>) -> (r: Result<Writer, IoError>) ensures r is Ok ==> (r->Ok_0)@ == self@ + map_bytes(value@) { unimplemented!() }
    #[verifier::external_body]
    pub fn in_memory() -> (r: Writer) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn unbox(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
impl Reader {
    #[verifier::external_body]
    pub fn in_memory(v: Vec<u8>) -> (r: Reader) ensures r@ == v@ { unimplemented!() }
}
#[derive(Debug)] pub struct IoError;
#[derive(Debug)] #[allow(non_camel_case_types)]
pub enum DecodeError { RepeatedMapValue, RepeatedSetValue, BrokenMapOrder, BrokenSetOrder, DataIntegrityError(String), Confinement(ConfinementError), Other }
impl DecodeError { pub fn from(e: ConfinementError) -> (r: Self) { DecodeError::Confinement(e) } }
impl<Ref> UnionVariants<Ref> {
    #[verifier::external_body]
    pub fn try_from(t: VarTree<Ref>) -> (r: Result<Self, ConfinementError>) ensures r is Ok <==> 1 <= t@.len() <= 255, r is Ok ==> (r->Ok_0)@ == t@ { unimplemented!() }
}
impl<Ref: CodecRef> UnionVariants<Ref> {
//@fn src/ast/encoding.rs <UnionVariants<Ref> as StrictEncode>::strict_encode
//@ sig fn strict_encode<W: TypedWrite>(&self, writer: W) -> io::Result<W> ==> pub fn strict_encode(&self, writer: Writer) -> (r: Result<Writer, IoError>)
//@ subst ?writer.write_newtype::<Self>(&fields) ==> writer.write_newtype(&fields)
//@ spec ensures r is Ok ==> (r->Ok_0)@ == writer@ + map_bytes(entries(self@))
//@ closure 1 -> (__r: (u8, VariantInfo<Ref>)) ensures __r.0 == __a0.0.tag && __r.1.name == __a0.0.name && __r.1.ty == *__a0.1
//@ at start
 let ghost __v = self@;
 proof { assert(vm_wf(self@)) by { broadcast use variant_map_wf; assert(self.0@ == self@); } assert(tag_map(entries(__v))); }
//@ at after let fields
 proof { assert(fields@ =~= entries(__v)); }
//@end
//@fn src/ast/encoding.rs <UnionVariants<Ref> as StrictDecode>::strict_decode
//@ sig fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> ==> pub fn strict_decode(reader: &mut Reader) -> (r: Result<Self, DecodeError>)
//@ subst ?BTreeMap::new ==> VarTree::new
//@ spec ensures r is Ok ==> names_differ((r->Ok_0)@) && old(reader)@ == map_bytes(entries((r->Ok_0)@)) + final(reader)@,
    forall|v: Seq<(Variant, Ref)>, tail: Seq<u8>| vm_wf(v) && names_differ(v) && old(reader)@ == #[trigger] (map_bytes(entries(v)) + tail) ==> r is Ok && (r->Ok_0)@ == v && final(reader)@ == tail
//@ at after let read
 let ghost __m = read@; let ghost __tail = reader@; let ghost __old = *old(reader);
 proof {
  assert(tag_map(__m));
  // the bytes determine what is read
  assert forall|v: Seq<(Variant, Ref)>, tail: Seq<u8>| vm_wf(v) && names_differ(v) && __old@ == #[trigger] (map_bytes(entries(v)) + tail) implies __m == entries(v) && __tail == tail by { assert(tag_map(entries(v))); }
 }
//@ at before loop 1
 proof { assert(__m == read@); }
//@ loop 1
 __all1 == __m, tag_map(__m), reader@ == __tail, __old == *old(reader), __old@ == map_bytes(__m) + __tail,
 inner@.len() == __it1.pos(), names_differ(inner@),
 forall|i: int| #![trigger inner@[i]] #![trigger __m[i]] 0 <= i < __it1.pos() ==> __m[i].0 == inner@[i].0.tag && __m[i].1.name == inner@[i].0.name && __m[i].1.ty == inner@[i].1,
 forall|i: int| 0 <= i < __it1.pos() ==> names@.contains((#[trigger] __m[i]).1.name),
 forall|n: VariantName| #[trigger] names@.contains(n) ==> exists|i: int| 0 <= i < __it1.pos() && (#[trigger] __m[i]).1.name == n,
 forall|v: Seq<(Variant, Ref)>, tail: Seq<u8>| vm_wf(v) && names_differ(v) && __old@ == #[trigger] (map_bytes(entries(v)) + tail) ==> __m == entries(v) && __tail == tail,
//@ at at loop 1 start
 let ghost __i = inner@.len() as int;
 proof {
  assert forall|v: Seq<(Variant, Ref)>, tail: Seq<u8>| vm_wf(v) && names_differ(v) && __old@ == #[trigger] (map_bytes(entries(v)) + tail) implies !names@.contains(info.name) by {
   if names@.contains(info.name) { let j = choose|j: int| 0 <= j < __i && (#[trigger] __m[j]).1.name == info.name; assert(v[j].0.name == v[__i].0.name); }
  }
 }
//@ at after loop 1
 proof {
  lemma_entries(inner@, __m);
  assert forall|v: Seq<(Variant, Ref)>, tail: Seq<u8>| vm_wf(v) && names_differ(v) && __old@ == #[trigger] (map_bytes(entries(v)) + tail) implies v == inner@ by { lemma_entries_inj(v, inner@); }
 }
//@end
/// A definition is encoded as the map of its tags, and encoding then decoding gives it back.
pub fn client_round_trip(u: UnionVariants<Ref>) -> (r: Option<UnionVariants<Ref>>)
    requires names_differ(u@)
    ensures r is Some ==> (r->Some_0)@ == u@
{
    proof { assert(vm_wf(u@)) by { broadcast use variant_map_wf; assert(u.0@ == u@); } }
    match u.strict_encode(Writer::in_memory()) {
        Err(_) => None,
        Ok(w) => {
            let mut rd = Reader::in_memory(w.unbox());
            proof { assert(rd@ =~= map_bytes(entries(u@)) + Seq::<u8>::empty()); }
            let d = UnionVariants::<Ref>::strict_decode(&mut rd);
            assert(d is Ok);
            match d { Ok(d) => Some(d), Err(_) => None }
        }
    }
}
/// What is decoded encodes to the bytes it was decoded from.
pub fn client_canonical(b: Vec<u8>) {
    let mut rd = Reader::in_memory(b);
    if let Ok(u) = UnionVariants::<Ref>::strict_decode(&mut rd) {
        if let Ok(w) = u.strict_encode(Writer::in_memory()) {
            assert(w@ =~= map_bytes(entries(u@)));
            assert(b@ == w@ + rd@);
        }
    }
}
}
