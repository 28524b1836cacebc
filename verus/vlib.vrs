// ---------------------------------------------------------------------------------------------
// Stand-ins for std / amplify containers and iterators.  Everything marked external_body is an
// ASSUMED contract of code outside /repo (listed as trusted base in the evidence).
// ---------------------------------------------------------------------------------------------
pub open spec fn ceq<T>(a: T, b: T) -> bool { a == b }

#[verifier::external_body]
pub fn verif_unreached<T>() -> (r: T) requires false { unimplemented!() }
/// A call that may happen only where the contract lets the function refuse; it does not return.
#[verifier::external_body]
pub fn verif_refuse(Ghost(c): Ghost<bool>) -> ! requires c { unimplemented!() }
#[verifier::external_body]
pub fn verif_assert(c: bool) requires c { unimplemented!() }
#[verifier::external_body]
pub fn verif_string() -> (r: String) { unimplemented!() }
pub trait VDefault: Sized { spec fn dflt(self) -> bool; fn vdefault() -> (r: Self) ensures r.dflt(); }
impl<T> VDefault for Vec<T> { open spec fn dflt(self) -> bool { self@ == Seq::<T>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { Vec::new() } }

/// Iterator over a finite sequence `all()`, standing at `pos()`.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VIter<T> { v: Vec<T> }
impl<T> VIter<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    /// the items not yet yielded
    pub uninterp spec fn rem(&self) -> Seq<T>;
    pub open spec fn fresh(&self, s: Seq<T>) -> bool { self.all() == s && self.rem() == s && self.pos() == 0 }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            0 <= old(self).pos() <= old(self).all().len(),
            final(self).rem() == old(self).all().skip(final(self).pos()),
            match r {
                Some(x) => old(self).pos() < old(self).all().len() && x == old(self).all()[old(self).pos()]
                    && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|x: &T| f.requires((x,)),
        ensures
            r is Some ==> exists|i: int| 0 <= i < self.rem().len() && r->Some_0 == #[trigger] self.rem()[i] && f.ensures((&r->Some_0,), true)
                && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.rem()[j],), false),
            r is None ==> forall|j: int| 0 <= j < self.rem().len() ==> f.ensures((&#[trigger] self.rem()[j],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|x: T| f.requires((x,)),
        ensures match r {
            Some(i) => 0 <= i < self.rem().len() && f.ensures((self.rem()[i as int],), true)
                && forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] self.rem()[j],), false),
            None => forall|j: int| 0 <= j < self.rem().len() ==> f.ensures((#[trigger] self.rem()[j],), false),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: T| f.requires((x,)),
        ensures
            r ==> exists|i: int| 0 <= i < self.rem().len() && f.ensures((#[trigger] self.rem()[i],), true),
            !r ==> forall|j: int| 0 <= j < self.rem().len() ==> f.ensures((#[trigger] self.rem()[j],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all_<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: T| f.requires((x,)),
        ensures
            !r ==> exists|i: int| 0 <= i < self.rem().len() && f.ensures((#[trigger] self.rem()[i],), false),
            r ==> forall|j: int| 0 <= j < self.rem().len() ==> f.ensures((#[trigger] self.rem()[j],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|x: T| f.requires((x,)),
        ensures r.pos() == 0, r.rem() == r.all(), r.all().len() == self.rem().len(),
            forall|j: int| #![trigger r.all()[j]] #![trigger self.rem()[j]] 0 <= j < self.rem().len() ==> f.ensures((self.rem()[j],), r.all()[j]),
    { unimplemented!() }
    /// Items kept and their positions, in order.
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VIter<T>)
        requires forall|x: &T| f.requires((x,)),
        ensures r.pos() == 0, r.rem() == r.all(),
            forall|i: int| 0 <= i < r.all().len() ==> self.rem().contains(#[trigger] r.all()[i]) && f.ensures((&r.all()[i],), true),
            forall|j: int| 0 <= j < self.rem().len() ==> r.all().contains(#[trigger] self.rem()[j]) || f.ensures((&self.rem()[j],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(self, n: usize) -> (r: Option<T>)
        ensures r == (if n < self.rem().len() { Some(self.rem()[n as int]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all() == self.rem().take(if n < self.rem().len() { n as int } else { self.rem().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all() == self.rem().skip(if n < self.rem().len() { n as int } else { self.rem().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: VIntoIter<VItem = T>>(self, o: I) -> (r: VIter<T>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all() == self.rem() + o.vseq(), o.vfacts(o.vseq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all().len() == self.rem().len(), self.rem().len() <= usize::MAX,
            forall|j: int| #![trigger r.all()[j]] #![trigger self.rem()[j]] 0 <= j < self.rem().len() ==> r.all()[j] == (j as usize, self.rem()[j]) { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<I: VIntoIter>(self, o: I) -> (r: VIter<(T, I::VItem)>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all().len() == (if self.rem().len() <= o.vseq().len() { self.rem().len() } else { o.vseq().len() }), o.vfacts(o.vseq()),
            forall|j: int| #![trigger r.all()[j]] #![trigger self.rem()[j]] #![trigger o.vseq()[j]] 0 <= j < r.all().len() ==> r.all()[j] == (self.rem()[j], o.vseq()[j]) { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures r == (if self.rem().len() > 0 { Some(self.rem().last()) } else { None }) { unimplemented!() }
    /// The first item for which the function gives something.
    #[verifier::external_body]
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|x: T| f.requires((x,)),
        ensures
            r is Some ==> exists|i: int| 0 <= i < self.rem().len() && f.ensures((#[trigger] self.rem()[i],), r)
                && forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] self.rem()[j],), None),
            r is None ==> forall|j: int| 0 <= j < self.rem().len() ==> f.ensures((#[trigger] self.rem()[j],), None),
    { unimplemented!() }
    /// What the function gives for the items, in order, without the absent ones.
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|x: T| f.requires((x,)),
        ensures r.pos() == 0, r.rem() == r.all(),
            forall|i: int| 0 <= i < r.all().len() ==> exists|j: int| 0 <= j < self.rem().len() && f.ensures((#[trigger] self.rem()[j],), Some(#[trigger] r.all()[i])),
            forall|j: int| 0 <= j < self.rem().len() ==> f.ensures((#[trigger] self.rem()[j],), None) || exists|i: int| 0 <= i < r.all().len() && f.ensures((self.rem()[j],), Some(#[trigger] r.all()[i])),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VCollect<T>>(self) -> (r: C) ensures r.collected(self.rem()) { unimplemented!() }
    pub fn iter(self) -> (r: VIter<T>) ensures r == self { self }
    pub fn into_iter(self) -> (r: VIter<T>) ensures r == self { self }
}
impl<'a, T: Copy> VIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIter<T>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all().len() == self.rem().len(), forall|j: int| #![auto] 0 <= j < self.rem().len() ==> r.all()[j] == *self.rem()[j]
    { unimplemented!() }
}
impl<'a, T: SClone> VIter<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>)
        ensures r.pos() == 0, r.rem() == r.all(), r.all().len() == self.rem().len(),
            forall|j: int| #![trigger r.all()[j]] #![trigger self.rem()[j]] 0 <= j < self.rem().len() ==> r.all()[j] == self.rem()[j].sclone()
    { unimplemented!() }
}
pub trait VCollect<T>: Sized { spec fn collected(self, s: Seq<T>) -> bool; }
impl<T> VCollect<T> for Vec<T> { open spec fn collected(self, s: Seq<T>) -> bool { self@ == s } }

pub trait VIntoIter: Sized {
    type VItem;
    spec fn vseq(self) -> Seq<Self::VItem>;
    /// extra facts about the sequence in the other trigger direction
    spec fn vfacts(self, s: Seq<Self::VItem>) -> bool;
    fn viter(self) -> (r: VIter<Self::VItem>)
        ensures r.fresh(self.vseq()), self.vfacts(r.all());
}
impl<T> VIntoIter for VIter<T> {
    type VItem = T;
    open spec fn vseq(self) -> Seq<T> { self.rem() }
    open spec fn vfacts(self, s: Seq<T>) -> bool { true }
    #[verifier::external_body]
    fn viter(self) -> VIter<T> { self }
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VIntoIter for &'a Vec<T> {
    type VItem = &'a T;
    open spec fn vseq(self) -> Seq<&'a T> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a T>) -> bool { forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    #[verifier::external_body]
    fn viter(self) -> VIter<&'a T> { unimplemented!() }
}
/// Iteration over the sequence a container holds.
pub trait VecIter<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>)
        ensures r.fresh(refs(self.vv())), r.pos() == 0,
            forall|i: int| #![trigger self.vv()[i]] #![trigger r.rem()[i]] 0 <= i < self.vv().len() ==> *r.rem()[i] == self.vv()[i] && *r.all()[i] == self.vv()[i];
    fn v_into_iter(self) -> (r: VIter<T>) ensures r.fresh(self.vv());
}
impl<T> VecIter<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type VItem = T;
    open spec fn vseq(self) -> Seq<T> { self@ }
    open spec fn vfacts(self, s: Seq<T>) -> bool { true }
    #[verifier::external_body]
    fn viter(self) -> VIter<T> { unimplemented!() }
}

/// amplify `Confined<Vec<T>, 1, 255>` (`NonEmptyVec<T, 255>`).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct NEVec<T> { v: Vec<T> }
pub broadcast axiom fn ne_vec_len<T>(v: &NEVec<T>) ensures 1 <= #[trigger] v@.len() <= 255;
impl<T> NEVec<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), 1 <= r <= 255 { unimplemented!() }
    #[verifier::external_body]
    pub fn len_u8(&self) -> (r: u8) ensures r == self@.len(), 1 <= r <= 255 { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(x) => 0 <= i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<&T>) ensures r is Some, *(r->Some_0) == self@[0], self@.len() >= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: Option<&T>) ensures r is Some, *(r->Some_0) == self@[self@.len() - 1], self@.len() >= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len(), ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures !r, self@.len() >= 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VIter<&T>) ensures r.fresh(refs(self@)), 1 <= self@.len() <= 255,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIter<&T>) ensures r.fresh(refs(self@)), 1 <= self@.len() <= 255,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a NEVec<T> {
    type VItem = &'a T;
    open spec fn vseq(self) -> Seq<&'a T> { refs(self@) }
    open spec fn vfacts(self, s: Seq<&'a T>) -> bool { 1 <= self@.len() <= 255 && forall|i: int| #![trigger self@[i]] #![trigger s[i]] 0 <= i < self@.len() ==> *s[i] == self@[i] }
    #[verifier::external_body]
    fn viter(self) -> VIter<&'a T> { unimplemented!() }
}
impl<T> VIntoIter for NEVec<T> {
    type VItem = T;
    open spec fn vseq(self) -> Seq<T> { self@ }
    open spec fn vfacts(self, s: Seq<T>) -> bool { 1 <= self@.len() <= 255 }
    #[verifier::external_body]
    fn viter(self) -> VIter<T> { unimplemented!() }
}

/// `Option::<&T>::cloned` for a `T` whose clone equals the original.
#[verifier::external_body]
pub fn verif_cloned<T>(o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None }) { unimplemented!() }
/// Specification twin of `Clone::clone` for types whose clone equals the original.
pub trait SClone: Sized { spec fn sclone(&self) -> Self; }
/// amplify `Confined<Vec<T>, 0, 65535>` (`SmallVec<T>`).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SVec<T> { v: Vec<T> }
#[derive(Debug)]
pub struct ConfinementError;
impl<T> SVec<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 65535 { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) -> (r: Result<(), ConfinementError>)
        ensures r is Ok <==> old(self)@.len() < 65535, r is Ok ==> final(self)@ == old(self)@.push(x), r is Err ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VIter<&T>) ensures r.fresh(refs(self@)), self@.len() <= 65535,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIter<&T>) ensures r.fresh(refs(self@)), self@.len() <= 65535,
            forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i] && *r.all()[i] == self@[i] { unimplemented!() }
}
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

// combinators of std which vstd does not specify
pub assume_specification<T, F: FnOnce() -> Option<T>> [std::option::Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T> [std::option::Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U> [std::option::Option::<T>::and] (o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures r == (if o is Some { p } else { None });
pub assume_specification<T, P: FnOnce(&T) -> bool> [std::option::Option::<T>::filter] (o: Option<T>, f: P) -> (r: Option<T>)
    requires o matches Some(x) ==> f.requires((&x,)),
    ensures o is None ==> r is None, r is Some ==> r == o && f.ensures((&o->0,), true), o is Some && r is None ==> f.ensures((&o->0,), false);
pub assume_specification<T, U, F: FnOnce(T) -> U> [std::option::Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> r == d, o matches Some(x) ==> f.ensures((x,), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [std::option::Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)), o is None ==> d.requires(()),
    ensures o is None ==> d.ensures((), r), o matches Some(x) ==> f.ensures((x,), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [std::option::Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> !r, o matches Some(x) ==> f.ensures((x,), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [std::option::Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,)),
    ensures o is None ==> r, o matches Some(x) ==> f.ensures((x,), r);
pub assume_specification<T, U> [std::option::Option::<T>::zip] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [std::result::Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o matches Ok(x) ==> f.requires((x,)),
    ensures o matches Err(e) ==> r == Err::<U, E>(e), o matches Ok(x) ==> f.ensures((x,), r);
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G>> [std::result::Result::<T, E>::or_else] (o: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires o matches Err(x) ==> f.requires((x,)),
    ensures o matches Ok(e) ==> r == Ok::<T, G>(e), o matches Err(x) ==> f.ensures((x,), r);
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T> [std::result::Result::<T, E>::unwrap_or_else] (o: Result<T, E>, f: F) -> (r: T)
    requires o matches Err(x) ==> f.requires((x,)),
    ensures o matches Ok(x) ==> r == x, o matches Err(x) ==> f.ensures((x,), r);
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [std::result::Result::<T, E>::map_or] (o: Result<T, E>, d: U, f: F) -> (r: U)
    requires o matches Ok(x) ==> f.requires((x,)),
    ensures o is Err ==> r == d, o matches Ok(x) ==> f.ensures((x,), r);
pub assume_specification<T, E, F: FnOnce(T) -> bool> [std::result::Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
    requires o matches Ok(x) ==> f.requires((x,)),
    ensures o is Err ==> !r, o matches Ok(x) ==> f.ensures((x,), r);
pub assume_specification<T, E> [std::option::Option::<Result<T, E>>::transpose] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub assume_specification<T> [std::option::Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { None => None, Some(x) => x });
pub assume_specification<T> [bool::then_some] (b: bool, x: T) -> (r: Option<T>)
    ensures r == (if b { Some(x) } else { None });
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
