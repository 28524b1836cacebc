// ---------------------------------------------------------------------------------------------
// Translation of type definitions from one kind of reference to another (src/ast/translate.rs)
// ---------------------------------------------------------------------------------------------
/// `ast::Translate`: what a successful and a failed translation mean is stated per kind of reference.
pub trait Translate<To: Sized>: Sized {
    type Context;
    type Builder;
    type Error;
    /// what is translated is well-formed
    spec fn sound(self) -> bool;
    spec fn translated(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, r: To) -> bool;
    spec fn failed(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, e: Self::Error) -> bool;
    fn translate(self, builder: &mut Self::Builder, ctx: &Self::Context) -> (r: Result<To, Self::Error>)
        requires self.sound()
        ensures r is Ok ==> self.translated(*old(builder), *ctx, *final(builder), r->Ok_0), r is Err ==> self.failed(*old(builder), *ctx, *final(builder), r->Err_0);
}
/// The components are translated one after the other, each where the previous one ended.
pub open spec fn chain_upto<R: Translate<To>, To>(s: Seq<R>, b0: R::Builder, ctx: R::Context, out: Seq<To>, chain: Seq<R::Builder>, n: int) -> bool {
    &&& 0 <= n <= s.len() && chain.len() == n + 1 && chain[0] == b0 && out.len() == n
    &&& forall|i: int| #![trigger out[i]] #![trigger s[i]] 0 <= i < n ==> s[i].translated(chain[i], ctx, chain[i + 1], out[i])
}
#[verifier::opaque]
pub open spec fn seq_translated<R: Translate<To>, To>(s: Seq<R>, b0: R::Builder, ctx: R::Context, b1: R::Builder, out: Seq<To>) -> bool {
    exists|chain: Seq<R::Builder>| #[trigger] chain_upto(s, b0, ctx, out, chain, s.len() as int) && chain.last() == b1
}
#[verifier::opaque]
pub open spec fn seq_failed<R: Translate<To>, To>(s: Seq<R>, b0: R::Builder, ctx: R::Context, b1: R::Builder, e: R::Error) -> bool {
    exists|chain: Seq<R::Builder>, out: Seq<To>, k: int| #[trigger] chain_upto(s, b0, ctx, out, chain, k) && k < s.len() && s[k].failed(chain.last(), ctx, b1, e)
}
pub open spec fn uno<R>(x: R) -> Seq<R> { seq![x] }
pub open spec fn duo<R>(x: R, y: R) -> Seq<R> { seq![x, y] }
/// The components in declaration order (variants by tag).
pub open spec fn comps<R>(t: Ty<R>) -> Seq<R> {
    match t {
        Ty::Union(v) => seconds(v@),
        Ty::Struct(f) => field_tys(f@),
        Ty::Tuple(f) => f@,
        Ty::Array(x, _) | Ty::List(x, _) | Ty::Set(x, _) => uno(x),
        Ty::Map(k, v, _) => duo(k, v),
        Ty::Primitive(_) | Ty::Enum(_) | Ty::UnicodeChar => Seq::empty(),
    }
}
pub proof fn lemma_comps<R>(t: Ty<R>)
    ensures comps(t).len() == comp_len(t), forall|i: int| #![trigger comps(t)[i]] #![trigger comp_ref(t, i)] 0 <= i < comp_len(t) ==> comps(t)[i] == comp_ref(t, i)
{}
/// Same class, names, tags, order and sizes; the components may differ.
pub open spec fn same_shape<A, B>(a: Ty<A>, b: Ty<B>) -> bool {
    match (a, b) {
        (Ty::Primitive(p), Ty::Primitive(q)) => p == q,
        (Ty::Enum(v), Ty::Enum(w)) => v == w,
        (Ty::UnicodeChar, Ty::UnicodeChar) => true,
        (Ty::Union(v), Ty::Union(w)) => same_keys(v, w),
        (Ty::Struct(v), Ty::Struct(w)) => same_names(v, w),
        (Ty::Tuple(v), Ty::Tuple(w)) => v@.len() == w@.len(),
        (Ty::Array(_, n), Ty::Array(_, m)) => n == m,
        (Ty::List(_, n), Ty::List(_, m)) => n == m,
        (Ty::Set(_, n), Ty::Set(_, m)) => n == m,
        (Ty::Map(_, _, n), Ty::Map(_, _, m)) => n == m,
        _ => false,
    }
}
pub open spec fn same_keys<A, B>(v: UnionVariants<A>, w: UnionVariants<B>) -> bool {
    v@.len() == w@.len() && forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() ==> v@[i].0 == w@[i].0
}
pub open spec fn same_names<A, B>(v: NamedFields<A>, w: NamedFields<B>) -> bool {
    v@.len() == w@.len() && forall|i: int| #![trigger v@[i]] #![trigger w@[i]] 0 <= i < v@.len() ==> v@[i].name == w@[i].name
}
pub open spec fn seconds<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn ident_seq<R>(s: Seq<R>) -> Seq<R> { s }
pub open spec fn field_tys<R>(s: Seq<Field<R>>) -> Seq<R> { Seq::new(s.len(), |i: int| s[i].ty) }
/// Variant names are pairwise different (what the order of `Variant` demands of the keys of a map).
pub open spec fn names_differ<R>(s: Seq<(Variant, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.name != (#[trigger] s[j]).0.name }

/// `BTreeMap` keyed by `Variant`.
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct VarTree<R> { v: Vec<(Variant, R)> }
impl<R> VarTree<R> {
    pub uninterp spec fn view(&self) -> Seq<(Variant, R)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(Variant, R)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Variant, v: R) -> (r: Option<R>)
        ensures (forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] old(self)@[i]).0.tag < k.tag && old(self)@[i].0.name != k.name) ==> final(self)@ == old(self)@.push((k, v)) && r is None { unimplemented!() }
}
impl<R> VariantMap<R> {
    #[verifier::external_body]
    pub fn from_checked(t: VarTree<R>) -> (r: Self) requires 1 <= t@.len() <= 255 ensures r@ == t@ { unimplemented!() }
    pub fn into(self) -> (r: UnionVariants<R>) ensures r@ == self@ { UnionVariants(self) }
}
impl<R> NamedFields<R> {
    #[verifier::external_body]
    pub fn try_from(v: Vec<Field<R>>) -> (r: Result<Self, ConfinementError>) ensures 1 <= v@.len() <= 255 ==> r is Ok, r is Ok ==> (r->Ok_0)@ == v@ { unimplemented!() }
}
impl<R> UnnamedFields<R> {
    #[verifier::external_body]
    pub fn try_from(v: Vec<R>) -> (r: Result<Self, ConfinementError>) ensures 1 <= v@.len() <= 255 ==> r is Ok, r is Ok ==> (r->Ok_0)@ == v@ { unimplemented!() }
}
impl<R> VIntoIter for UnionVariants<R> {
    type VItem = (Variant, R);
    open spec fn vseq(self) -> Seq<(Variant, R)> { self@ }
    open spec fn vfacts(self, s: Seq<(Variant, R)>) -> bool { vm_wf(self@) }
    #[verifier::external_body]
    fn viter(self) -> VIter<(Variant, R)> { unimplemented!() }
}
impl<R> VIntoIter for NamedFields<R> {
    type VItem = Field<R>;
    open spec fn vseq(self) -> Seq<Field<R>> { self@ }
    open spec fn vfacts(self, s: Seq<Field<R>>) -> bool { 1 <= self@.len() <= 255 }
    #[verifier::external_body]
    fn viter(self) -> VIter<Field<R>> { unimplemented!() }
}
impl<R> VIntoIter for UnnamedFields<R> {
    type VItem = R;
    open spec fn vseq(self) -> Seq<R> { self@ }
    open spec fn vfacts(self, s: Seq<R>) -> bool { 1 <= self@.len() <= 255 }
    #[verifier::external_body]
    fn viter(self) -> VIter<R> { unimplemented!() }
}
pub open spec fn all_sound<R: Translate<To>, To>(s: Seq<R>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sound() }

impl<Ref: Translate<ToRef>, ToRef> Translate<UnionVariants<ToRef>> for UnionVariants<Ref> {
    type Builder = <Ref as Translate<ToRef>>::Builder;
    type Context = <Ref as Translate<ToRef>>::Context;
    type Error = <Ref as Translate<ToRef>>::Error;
    open spec fn sound(self) -> bool { names_differ(self@) && all_sound::<Ref, ToRef>(seconds(self@)) }
    open spec fn translated(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, r: UnionVariants<ToRef>) -> bool {
        same_keys(self, r) && seq_translated(seconds(self@), b0, ctx, b1, seconds(r@))
    }
    open spec fn failed(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, e: Self::Error) -> bool { seq_failed::<Ref, ToRef>(seconds(self@), b0, ctx, b1, e) }
//@fn src/ast/translate.rs <UnionVariants<Ref> as Translate<UnionVariants<ToRef>>>::translate
//@ subst ?BTreeMap::new ==> VarTree::new
//@ subst ?Confined::from_checked ==> VariantMap::from_checked
//@ at start
 let ghost __s = seconds(self@); let ghost __v = self@; let ghost __b0 = *builder;
 let ghost mut __chain: Seq<Self::Builder> = seq![*builder]; let ghost mut __out: Seq<ToRef> = Seq::empty();
 proof { reveal(seq_translated); reveal(seq_failed); }
 // names what the contract of the trait stands for here
 let ghost __w = (self.sound(), |b1: Self::Builder, r: UnionVariants<ToRef>| self.translated(*builder, *ctx, b1, r), |b1: Self::Builder, e: Self::Error| self.failed(*builder, *ctx, b1, e));
//@ loop 1
 __v == self@, __b0 == *old(builder), __all1 == __v, __s == seconds(__v), vm_wf(__v), names_differ(__v), all_sound::<Ref, ToRef>(__s), __out == seconds(variants@), variants@.len() == __it1.pos(),
 chain_upto(__s, __b0, *ctx, __out, __chain, __it1.pos()), __chain.last() == *builder,
 forall|i: int| #![trigger variants@[i]] #![trigger __v[i]] 0 <= i < __it1.pos() ==> variants@[i].0 == __v[i].0,
//@ at at loop 1 start
 let ghost __i = __out.len() as int;
 proof { reveal(seq_failed); assert(chain_upto(__s, __b0, *ctx, __out, __chain, __i)); assert(__s[__i] == __v[__i].1); assert(__s[__i].sound()); }
//@ at at loop 1 end
 proof {
 __chain = __chain.push(*builder); __out = seconds(variants@);
 assert(__out.len() == __i + 1);
 assert(__s[__i].translated(__chain[__i], *ctx, __chain[__i + 1], __out[__i]));
 }
//@end
}
impl<Ref: Translate<ToRef>, ToRef> Translate<NamedFields<ToRef>> for NamedFields<Ref> {
    type Builder = <Ref as Translate<ToRef>>::Builder;
    type Context = <Ref as Translate<ToRef>>::Context;
    type Error = <Ref as Translate<ToRef>>::Error;
    open spec fn sound(self) -> bool { all_sound::<Ref, ToRef>(field_tys(self@)) }
    open spec fn translated(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, r: NamedFields<ToRef>) -> bool {
        same_names(self, r) && seq_translated(field_tys(self@), b0, ctx, b1, field_tys(r@))
    }
    open spec fn failed(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, e: Self::Error) -> bool { seq_failed::<Ref, ToRef>(field_tys(self@), b0, ctx, b1, e) }
//@fn src/ast/translate.rs <NamedFields<Ref> as Translate<NamedFields<ToRef>>>::translate
//@ at start
 let ghost __s = field_tys(self@); let ghost __v = self@; let ghost __b0 = *builder;
 let ghost mut __chain: Seq<Self::Builder> = seq![*builder]; let ghost mut __out: Seq<ToRef> = Seq::empty();
 proof { reveal(seq_translated); reveal(seq_failed); }
 // names what the contract of the trait stands for here
 let ghost __w = (self.sound(), |b1: Self::Builder, r: NamedFields<ToRef>| self.translated(*builder, *ctx, b1, r), |b1: Self::Builder, e: Self::Error| self.failed(*builder, *ctx, b1, e));
//@ loop 1
 __v == self@, __b0 == *old(builder), __all1 == __v, __s == field_tys(__v), 1 <= __v.len() <= 255, all_sound::<Ref, ToRef>(__s), __out == field_tys(fields@), fields@.len() == __it1.pos(),
 chain_upto(__s, __b0, *ctx, __out, __chain, __it1.pos()), __chain.last() == *builder,
 forall|i: int| #![trigger fields@[i]] #![trigger __v[i]] 0 <= i < __it1.pos() ==> fields@[i].name == __v[i].name,
//@ at at loop 1 start
 let ghost __i = __out.len() as int;
 proof { reveal(seq_failed); assert(chain_upto(__s, __b0, *ctx, __out, __chain, __i)); assert(__s[__i] == __v[__i].ty); assert(__s[__i].sound()); }
//@ at at loop 1 end
 proof {
 __chain = __chain.push(*builder); __out = field_tys(fields@);
 assert(__out.len() == __i + 1);
 assert(__s[__i].translated(__chain[__i], *ctx, __chain[__i + 1], __out[__i]));
 }
//@end
}
impl<Ref: Translate<ToRef>, ToRef> Translate<UnnamedFields<ToRef>> for UnnamedFields<Ref> {
    type Builder = <Ref as Translate<ToRef>>::Builder;
    type Context = <Ref as Translate<ToRef>>::Context;
    type Error = <Ref as Translate<ToRef>>::Error;
    open spec fn sound(self) -> bool { all_sound::<Ref, ToRef>(ident_seq(self@)) }
    open spec fn translated(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, r: UnnamedFields<ToRef>) -> bool {
        self@.len() == r@.len() && seq_translated(ident_seq(self@), b0, ctx, b1, ident_seq(r@))
    }
    open spec fn failed(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, e: Self::Error) -> bool { seq_failed::<Ref, ToRef>(ident_seq(self@), b0, ctx, b1, e) }
//@fn src/ast/translate.rs <UnnamedFields<Ref> as Translate<UnnamedFields<ToRef>>>::translate
//@ at start
 let ghost __s = ident_seq(self@); let ghost __v = self@; let ghost __b0 = *builder;
 let ghost mut __chain: Seq<Self::Builder> = seq![*builder]; let ghost mut __out: Seq<ToRef> = Seq::empty();
 proof { reveal(seq_translated); reveal(seq_failed); }
 // names what the contract of the trait stands for here
 let ghost __w = (self.sound(), |b1: Self::Builder, r: UnnamedFields<ToRef>| self.translated(*builder, *ctx, b1, r), |b1: Self::Builder, e: Self::Error| self.failed(*builder, *ctx, b1, e));
//@ loop 1
 __v == self@, __b0 == *old(builder), __all1 == __v, __s == ident_seq(__v), 1 <= __v.len() <= 255, all_sound::<Ref, ToRef>(__s), __out == ident_seq(fields@), fields@.len() == __it1.pos(),
 chain_upto(__s, __b0, *ctx, __out, __chain, __it1.pos()), __chain.last() == *builder,
 
//@ at at loop 1 start
 let ghost __i = __out.len() as int;
 proof { reveal(seq_failed); assert(chain_upto(__s, __b0, *ctx, __out, __chain, __i)); assert(__s[__i] == __v[__i]); assert(__s[__i].sound()); }
//@ at at loop 1 end
 proof {
 __chain = __chain.push(*builder); __out = ident_seq(fields@);
 assert(__out.len() == __i + 1);
 assert(__s[__i].translated(__chain[__i], *ctx, __chain[__i + 1], __out[__i]));
 }
//@end
}
/// One component after the other: what the steps of a translation amount to.
pub proof fn lemma_chain0<R: Translate<To>, To>(b0: R::Builder, ctx: R::Context)
    ensures seq_translated(Seq::<R>::empty(), b0, ctx, b0, Seq::<To>::empty())
{
    reveal(seq_translated);
    assert(chain_upto(Seq::<R>::empty(), b0, ctx, Seq::<To>::empty(), seq![b0], 0));
}
pub broadcast proof fn lemma_chain1<R: Translate<To>, To>(x: R, b0: R::Builder, ctx: R::Context, b1: R::Builder, r: To)
    requires #[trigger] x.translated(b0, ctx, b1, r) ensures seq_translated(uno(x), b0, ctx, b1, uno(r))
{
    reveal(seq_translated);
    let chain = seq![b0, b1];
    assert(chain_upto(uno(x), b0, ctx, uno(r), chain, 1));
}
pub broadcast proof fn lemma_chain2<R: Translate<To>, To>(x: R, y: R, b0: R::Builder, ctx: R::Context, b1: R::Builder, b2: R::Builder, r: To, s: To)
    requires #[trigger] x.translated(b0, ctx, b1, r), #[trigger] y.translated(b1, ctx, b2, s) ensures seq_translated(duo(x, y), b0, ctx, b2, duo(r, s))
{
    reveal(seq_translated);
    let chain = seq![b0, b1, b2];
    assert(chain_upto(duo(x, y), b0, ctx, duo(r, s), chain, 2));
}
pub broadcast proof fn lemma_fail1<R: Translate<To>, To>(x: R, b0: R::Builder, ctx: R::Context, b1: R::Builder, e: R::Error)
    requires #[trigger] <R as Translate<To>>::failed(x, b0, ctx, b1, e) ensures seq_failed::<R, To>(uno(x), b0, ctx, b1, e), forall|y: R| #[trigger] seq_failed::<R, To>(duo(x, y), b0, ctx, b1, e)
{
    reveal(seq_failed);
    assert(chain_upto(uno(x), b0, ctx, Seq::<To>::empty(), seq![b0], 0));
    assert forall|y: R| #[trigger] seq_failed::<R, To>(duo(x, y), b0, ctx, b1, e) by { assert(chain_upto(duo(x, y), b0, ctx, Seq::<To>::empty(), seq![b0], 0)); }
}
pub broadcast proof fn lemma_fail2<R: Translate<To>, To>(x: R, y: R, b0: R::Builder, ctx: R::Context, b1: R::Builder, b2: R::Builder, r: To, e: R::Error)
    requires #[trigger] x.translated(b0, ctx, b1, r), #[trigger] y.failed(b1, ctx, b2, e) ensures seq_failed::<R, To>(duo(x, y), b0, ctx, b2, e)
{
    reveal(seq_failed);
    assert(chain_upto(duo(x, y), b0, ctx, uno(r), seq![b0, b1], 1));
}
pub open spec fn union_names_differ<R>(t: Ty<R>) -> bool { t is Union ==> names_differ((t->Union_0)@) }
impl<Ref: Translate<ToRef>, ToRef> Translate<Ty<ToRef>> for Ty<Ref> {
    type Builder = <Ref as Translate<ToRef>>::Builder;
    type Context = <Ref as Translate<ToRef>>::Context;
    type Error = <Ref as Translate<ToRef>>::Error;
    open spec fn sound(self) -> bool { union_names_differ(self) && all_sound::<Ref, ToRef>(comps(self)) }
    open spec fn translated(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, r: Ty<ToRef>) -> bool {
        same_shape(self, r) && seq_translated(comps(self), b0, ctx, b1, comps(r))
    }
    open spec fn failed(self, b0: Self::Builder, ctx: Self::Context, b1: Self::Builder, e: Self::Error) -> bool { seq_failed::<Ref, ToRef>(comps(self), b0, ctx, b1, e) }
//@fn src/ast/translate.rs <Ty<Ref> as Translate<Ty<ToRef>>>::translate
//@ at start
 broadcast use {lemma_chain1, lemma_chain2, lemma_fail1, lemma_fail2};
 proof { lemma_chain0::<Ref, ToRef>(*builder, *ctx); assert(comps(self).len() > 0 ==> comps(self)[0].sound()); assert(comps(self).len() > 1 ==> comps(self)[1].sound()); }
 let ghost __w = (self.sound(), |b1: Self::Builder, r: Ty<ToRef>| self.translated(*builder, *ctx, b1, r), |b1: Self::Builder, e: Self::Error| self.failed(*builder, *ctx, b1, e));
//@end
}
// Two containers with the same entries are equal.
pub broadcast axiom fn ne_vec_ext<T>(a: NEVec<T>, b: NEVec<T>) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn variant_map_ext<R>(a: VariantMap<R>, b: VariantMap<R>) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// Definitions of the same structure with the same components are equal.
pub proof fn lemma_same_def<A>(f: Ty<A>, g: Ty<A>)
    requires same_shape(f, g), comps(f) == comps(g) ensures f == g
{
    broadcast use {ne_vec_ext, variant_map_ext};
    let cf = comps(f); let cg = comps(g);
    match f {
        Ty::Union(_) => {
            let (a, b) = (f->Union_0, g->Union_0);
            assert forall|i: int| 0 <= i < a@.len() implies a@[i] == b@[i] by { assert(seconds(a@)[i] == seconds(b@)[i]); }
            assert(a@ =~= b@);
            assert(a.0@ == b.0@);
        }
        Ty::Struct(_) => {
            let (a, b) = (f->Struct_0, g->Struct_0);
            assert forall|i: int| 0 <= i < a@.len() implies a@[i] == b@[i] by { assert(field_tys(a@)[i] == field_tys(b@)[i]); }
            assert(a@ =~= b@);
            assert(a.0@ == b.0@);
        }
        Ty::Tuple(_) => { assert((f->Tuple_0).0@ == (g->Tuple_0).0@); assert(f == g); }
        Ty::Map(..) => { assert(cf[0] == cg[0]); assert(cf[1] == cg[1]); assert(f == g); }
        Ty::Array(..) => { assert(cf[0] == cg[0]); assert(f == g);}
        Ty::List(..) => { assert(cf[0] == cg[0]); assert(f == g);}
        Ty::Set(..) => { assert(cf[0] == cg[0]); assert(f == g);}
        Ty::Primitive(_) => { assert(f == g);}
        Ty::Enum(_) => { assert(f == g);}
        _ => { assert(f == g);}
    }
}
