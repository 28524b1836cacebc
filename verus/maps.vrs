// ---------------------------------------------------------------------------------------------
// Stand-ins for std's and amplify's maps and sets (assumed contracts).  Keys are compared by their
// Ord / Hash implementations, assumed to agree with equality (derived for the keys used here).
// ---------------------------------------------------------------------------------------------
/// `s` lists the entries of `m`, each key once.
pub open spec fn lists_map<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
/// `s` lists the members of `m`, each once.
pub open spec fn lists_set<K>(m: Set<K>, s: Seq<K>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])
    &&& forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) != (#[trigger] s[j])
}
macro_rules! map_standin { ($t:ident) => { verus! {
    #[verifier::external_body]
    #[verifier::accept_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct $t<K, V> { v: Vec<(K, V)> }
    impl<K, V> $t<K, V> {
        pub uninterp spec fn view(&self) -> Map<K, V>;
        /// the entries in the order of the keys
        pub uninterp spec fn seq(&self) -> Seq<(K, V)>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *(r->Some_0) == self@[*k] { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
        pub open spec fn spec_contains_key(&self, k: &K) -> bool { self@.contains_key(*k) }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>) ensures r.fresh(ref_pairs(self.seq())), lists_map(self@, self.seq()),
            forall|i: int| #![trigger self.seq()[i]] #![trigger r.rem()[i]] 0 <= i < self.seq().len() ==> r.rem()[i] == (&self.seq()[i].0, &self.seq()[i].1) && r.all()[i] == (&self.seq()[i].0, &self.seq()[i].1) { unimplemented!() }
        #[verifier::external_body]
        pub fn keys<'a>(&'a self) -> (r: VIter<&'a K>) ensures r.fresh(ref_keys(self.seq())), lists_map(self@, self.seq()),
            forall|i: int| #![trigger self.seq()[i]] #![trigger r.rem()[i]] 0 <= i < self.seq().len() ==> *r.rem()[i] == self.seq()[i].0 && *r.all()[i] == self.seq()[i].0 { unimplemented!() }
        #[verifier::external_body]
        pub fn values<'a>(&'a self) -> (r: VIter<&'a V>) ensures r.fresh(ref_vals(self.seq())), lists_map(self@, self.seq()),
            forall|i: int| #![trigger self.seq()[i]] #![trigger r.rem()[i]] 0 <= i < self.seq().len() ==> *r.rem()[i] == self.seq()[i].1 && *r.all()[i] == self.seq()[i].1 { unimplemented!() }
    }
    impl<'a, K, V> VIntoIter for &'a $t<K, V> {
        type VItem = (&'a K, &'a V);
        open spec fn vseq(self) -> Seq<(&'a K, &'a V)> { ref_pairs(self.seq()) }
        open spec fn vfacts(self, s: Seq<(&'a K, &'a V)>) -> bool { lists_map(self@, self.seq()) && forall|i: int| #![trigger self.seq()[i]] #![trigger s[i]] 0 <= i < self.seq().len() ==> s[i] == (&self.seq()[i].0, &self.seq()[i].1) }
        #[verifier::external_body]
        fn viter(self) -> VIter<(&'a K, &'a V)> { unimplemented!() }
    }
    impl<K, V> VIntoIter for $t<K, V> {
        type VItem = (K, V);
        open spec fn vseq(self) -> Seq<(K, V)> { self.seq() }
        open spec fn vfacts(self, s: Seq<(K, V)>) -> bool { lists_map(self@, s) }
        #[verifier::external_body]
        fn viter(self) -> VIter<(K, V)> { unimplemented!() }
    }
} } }
macro_rules! std_map { ($t:ident) => { map_standin!($t); verus! {
    impl<K, V> VCollect<(K, V)> for $t<K, V> { open spec fn collected(self, s: Seq<(K, V)>) -> bool { collects(self@, s) } }
    impl<K, V> $t<K, V> {
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r is Some <==> old(self)@.contains_key(k), r is Some ==> r->Some_0 == old(self)@[k] { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k), r is Some ==> r->Some_0 == old(self)@[*k] { unimplemented!() }
    }
} } }
/// The last of the entries with the same key counts.
pub open spec fn collects<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && m[k] == s[i].1
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0)
    &&& forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0) ==> m[(#[trigger] s[i]).0] == s[i].1
}
macro_rules! conf_map { ($t:ident, $min:expr, $max:expr) => { map_standin!($t); verus! {
    impl<K, V> $t<K, V> {
        pub open spec fn in_bounds(m: Map<K, V>) -> bool { $min <= m.dom().len() <= $max }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Result<Option<V>, ConfinementError>)
            ensures r is Ok ==> final(self)@ == old(self)@.insert(k, v) && (r->Ok_0 is Some <==> old(self)@.contains_key(k)),
                r is Err <==> old(self)@.dom().len() >= $max { unimplemented!() }
        #[verifier::external_body]
        pub fn from_checked(m: BTreeMap<K, V>) -> (r: Self) requires Self::in_bounds(m@) ensures r@ == m@ { unimplemented!() }
        #[verifier::external_body]
        pub fn try_from(m: BTreeMap<K, V>) -> (r: Result<Self, ConfinementError>) ensures r is Ok <==> Self::in_bounds(m@), r is Ok ==> (r->Ok_0)@ == m@ { unimplemented!() }
        #[verifier::external_body]
        pub fn try_from_iter<I: VIntoIter<VItem = (K, V)>>(it: I) -> (r: Result<Self, ConfinementError>)
            ensures it.vfacts(it.vseq()), r is Ok ==> collects((r->Ok_0)@, it.vseq()) && Self::in_bounds((r->Ok_0)@),
                r is Err ==> exists|m: Map<K, V>| #[trigger] collects(m, it.vseq()) && !Self::in_bounds(m) { unimplemented!() }
        #[verifier::external_body]
        pub fn release(self) -> (r: BTreeMap<K, V>) ensures r@ == self@, Self::in_bounds(r@) { unimplemented!() }
        #[verifier::external_body]
        pub proof fn bounds(&self) ensures Self::in_bounds(self@) { }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Result<Option<V>, ConfinementError>)
            ensures r is Err <==> old(self)@.contains_key(*k) && old(self)@.dom().len() <= $min, r is Err ==> final(self)@ == old(self)@,
                r is Ok ==> final(self)@ == old(self)@.remove(*k) && r->Ok_0 == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    }
    impl<K, V> Clone for $t<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
} } }
std_map!(BTreeMap);
std_map!(HashMap);
conf_map!(MediumOrdMap, 0, 16777215);
macro_rules! set_standin { ($t:ident) => { verus! {
    #[verifier::external_body]
    #[verifier::accept_recursive_types(K)]
    pub struct $t<K> { v: Vec<K> }
    impl<K> $t<K> {
        pub uninterp spec fn view(&self) -> Set<K>;
        pub uninterp spec fn seq(&self) -> Seq<K>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a K>) ensures r is Some <==> self@.contains(*k), r is Some ==> *(r->Some_0) == *k { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
        pub open spec fn spec_contains(&self, k: &K) -> bool { self@.contains(*k) }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ == Set::<K>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn iter<'a>(&'a self) -> (r: VIter<&'a K>) ensures r.fresh(refs(self.seq())), lists_set(self@, self.seq()),
            forall|i: int| #![trigger self.seq()[i]] #![trigger r.rem()[i]] 0 <= i < self.seq().len() ==> *r.rem()[i] == self.seq()[i] && *r.all()[i] == self.seq()[i] { unimplemented!() }
    }
    impl<'a, K> VIntoIter for &'a $t<K> {
        type VItem = &'a K;
        open spec fn vseq(self) -> Seq<&'a K> { refs(self.seq()) }
        open spec fn vfacts(self, s: Seq<&'a K>) -> bool { lists_set(self@, self.seq()) && forall|i: int| #![trigger self.seq()[i]] #![trigger s[i]] 0 <= i < self.seq().len() ==> *s[i] == self.seq()[i] }
        #[verifier::external_body]
        fn viter(self) -> VIter<&'a K> { unimplemented!() }
    }
    impl<K> VIntoIter for $t<K> {
        type VItem = K;
        open spec fn vseq(self) -> Seq<K> { self.seq() }
        open spec fn vfacts(self, s: Seq<K>) -> bool { lists_set(self@, s) }
        #[verifier::external_body]
        fn viter(self) -> VIter<K> { unimplemented!() }
    }
} } }
macro_rules! std_set { ($t:ident) => { set_standin!($t); verus! {
    impl<K> $t<K> {
        #[verifier::external_body]
        pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn pop_first(&mut self) -> (r: Option<K>)
            ensures r is None ==> old(self)@ == Set::<K>::empty() && final(self)@ == old(self)@, r is Some ==> old(self)@.contains(r->Some_0) && final(self)@ == old(self)@.remove(r->Some_0) { unimplemented!() }
        #[verifier::external_body]
        pub fn pop_last(&mut self) -> (r: Option<K>)
            ensures r is None ==> old(self)@ == Set::<K>::empty() && final(self)@ == old(self)@, r is Some ==> old(self)@.contains(r->Some_0) && final(self)@ == old(self)@.remove(r->Some_0) { unimplemented!() }
        #[verifier::external_body]
        pub fn extend(&mut self, it: VIter<K>)
            ensures forall|k: K| #![trigger old(self)@.contains(k)] #![trigger final(self)@.contains(k)] final(self)@.contains(k) <==> old(self)@.contains(k) || it.rem().contains(k) { unimplemented!() }
    }
    impl<K> VCollect<K> for $t<K> { open spec fn collected(self, s: Seq<K>) -> bool { self@ == s.to_set() } }
} } }
macro_rules! conf_set { ($t:ident, $min:expr, $max:expr) => { set_standin!($t); verus! {
    impl<K> $t<K> {
        #[verifier::external_body]
        pub fn push(&mut self, k: K) -> (r: Result<(), ConfinementError>) ensures r is Ok ==> final(self)@ == old(self)@.insert(k), r is Err ==> old(self)@.len() >= $max { unimplemented!() }
        #[verifier::external_body]
        pub fn try_from_iter(it: VIter<K>) -> (r: Result<Self, ConfinementError>)
            ensures r is Ok ==> (r->Ok_0)@ == it.rem().to_set(), r is Err <==> !($min <= it.rem().to_set().len() <= $max) { unimplemented!() }
    }
} } }
std_set!(BTreeSet);
std_set!(HashSet);
conf_set!(MediumOrdSet, 0, 16777215);
conf_set!(SmallOrdSet, 0, 65535);
