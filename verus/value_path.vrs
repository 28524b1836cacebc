// ---------------------------------------------------------------------------------------------
// C09: value paths (src/value/path.rs)
// ---------------------------------------------------------------------------------------------
/// amplify `TinyBlob` / `TinyString`
#[verifier::external_body] pub struct TinyBlob { v: Vec<u8> }
impl TinyBlob { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct TinyString { v: String }
impl TinyString { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub fn verif_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn verif_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@item src/value/path.rs KeyStep
impl Clone for KeyStep { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item src/value/path.rs Step
impl Clone for Step { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item src/value/path.rs PathError
/// The key step names this map key.
pub open spec fn key_matches(k: KeyStep, v: StrictVal) -> bool {
    match (k, v) {
        (KeyStep::Number(no), StrictVal::Enum(EnumTag::Ord(tag))) => no == tag,
        (KeyStep::Number(no), StrictVal::Number(StrictNum::Uint(n))) => no == n,
        (KeyStep::TinyBlob(a), StrictVal::Bytes(b)) => a@ == b@,
        (KeyStep::TinyString(a), StrictVal::String(b)) => a@ == b@,
        _ => false,
    }
}
impl KeyStep {
    pub open spec fn spec_has_match(&self, val: &StrictVal) -> bool { key_matches(*self, *val) }
//@fn src/value/path.rs KeyStep::has_match
//@ ret r
//@ subst ?blob1.as_slice() == blob2.as_slice() ==> verif_bytes_eq(blob1.as_slice(), blob2.as_slice())
//@ subst ?s1.as_str() == s2.as_str() ==> verif_str_eq(s1.as_str(), s2.as_str())
//@ spec ensures r == key_matches(*self, *val)
//@end
}
/// `u` is what the step denotes in `v`.
pub open spec fn denotes(v: StrictVal, s: Step, u: StrictVal) -> bool {
    match (v, s) {
        (StrictVal::Tuple(f), Step::UnnamedField(no)) => no < f@.len() && u == f@[no as int],
        (StrictVal::Struct(f), Step::NamedField(name)) => f@.len() >= 0 && exists|i: int| 0 <= i < f@.len() && (#[trigger] f@[i]).0 == name && u == f@[i].1,
        (StrictVal::List(f), Step::Index(i)) => i < f@.len() && u == f@[i as int],
        (StrictVal::Set(f), Step::Index(i)) => i < f@.len() && u == f@[i as int],
        (StrictVal::Map(f), Step::Key(k)) => f@.len() >= 0 && exists|i: int| 0 <= i < f@.len() && key_matches(k, (#[trigger] f@[i]).0) && u == f@[i].1
            && forall|j: int| 0 <= j < i ==> !key_matches(k, (#[trigger] f@[j]).0),
        _ => false,
    }
}
/// The step denotes nothing in `v`, and this error says so.
pub open spec fn refused(v: StrictVal, s: Step, e: PathError) -> bool {
    match (v, s) {
        (StrictVal::Tuple(f), Step::UnnamedField(no)) => no >= f@.len() && e == PathError::FieldNoOutOfBounds(no, f@.len() as usize),
        (StrictVal::Struct(f), Step::NamedField(name)) => (forall|i: int| 0 <= i < f@.len() ==> (#[trigger] f@[i]).0 != name) && e == PathError::UnknownFieldName(name),
        (StrictVal::List(f), Step::Index(i)) => i >= f@.len() && e == PathError::CollectionIndexOutOfBounds(i, f@.len() as usize),
        (StrictVal::Set(f), Step::Index(i)) => i >= f@.len() && e == PathError::CollectionIndexOutOfBounds(i, f@.len() as usize),
        (StrictVal::Map(f), Step::Key(k)) => (forall|i: int| 0 <= i < f@.len() ==> !key_matches(k, (#[trigger] f@[i]).0)) && e == PathError::UnknownKey(k),
        _ => e == PathError::TypeMismatch(s, v),
    }
}
pub open spec fn one_step(v: StrictVal, s: Step) -> Option<StrictVal> {
    if exists|u: StrictVal| denotes(v, s, u) { Some(choose|u: StrictVal| denotes(v, s, u)) } else { None }
}
pub open spec fn walk<'p>(v: StrictVal, p: Seq<&'p Step>, n: nat) -> Option<StrictVal>
    decreases n
{ if n == 0 { Some(v) } else { match walk(v, p, (n - 1) as nat) { None => None, Some(w) => one_step(w, *p[n - 1]) } } }
/// `u` is reached from `v` by the first `n` steps.
pub open spec fn reaches<'p>(v: StrictVal, p: Seq<&'p Step>, n: nat, u: StrictVal) -> bool { walk(v, p, n) == Some(u) }
pub open spec fn fails_at<'p>(v: StrictVal, p: Seq<&'p Step>, e: PathError) -> bool {
    exists|k: nat, w: StrictVal| k < p.len() && #[trigger] reaches(v, p, k, w) && refused(w, *p[k as int], e)
}
pub proof fn lemma_denotes_unique(v: StrictVal, s: Step, a: StrictVal, b: StrictVal)
    requires denotes(v, s, a), denotes(v, s, b) ensures a == b
{
    broadcast use ix_map_wf;
    match (v, s) {
        (StrictVal::Struct(f), Step::NamedField(name)) => {
            assert(ix_wf(f@));
            let i = choose|i: int| 0 <= i < f@.len() && (#[trigger] f@[i]).0 == name && a == f@[i].1;
            let j = choose|i: int| 0 <= i < f@.len() && (#[trigger] f@[i]).0 == name && b == f@[i].1;
            if i < j { assert(f@[i].0 != f@[j].0); } else if j < i { assert(f@[j].0 != f@[i].0); }
        }
        (StrictVal::Map(f), Step::Key(k)) => {
            let i = choose|i: int| 0 <= i < f@.len() && key_matches(k, (#[trigger] f@[i]).0) && a == f@[i].1 && forall|j: int| 0 <= j < i ==> !key_matches(k, (#[trigger] f@[j]).0);
            let j = choose|i: int| 0 <= i < f@.len() && key_matches(k, (#[trigger] f@[i]).0) && b == f@[i].1 && forall|j: int| 0 <= j < i ==> !key_matches(k, (#[trigger] f@[j]).0);
            if i < j { assert(key_matches(k, f@[i].0)); } else if j < i { assert(key_matches(k, f@[j].0)); }
        }
        _ => {}
    }
}
pub proof fn lemma_one_step(v: StrictVal, s: Step, u: StrictVal)
    requires denotes(v, s, u) ensures one_step(v, s) == Some(u)
{ lemma_denotes_unique(v, s, u, choose|u: StrictVal| denotes(v, s, u)); }
/// A step is either denoting or refused.
pub proof fn lemma_refused_excl(v: StrictVal, s: Step, u: StrictVal, e: PathError)
    requires denotes(v, s, u), refused(v, s, e) ensures false
{}
/// Failing and reaching the end exclude each other.
pub proof fn lemma_outcome<'p>(v: StrictVal, p: Seq<&'p Step>, u: StrictVal, e: PathError)
    requires reaches(v, p, p.len(), u), fails_at(v, p, e) ensures false
{
    let (k, w) = choose|k: nat, w: StrictVal| k < p.len() && #[trigger] reaches(v, p, k, w) && refused(w, *p[k as int], e);
    lemma_walk_none(v, p, k, p.len());
    if walk(v, p, (k + 1) as nat) is Some { let x = choose|u: StrictVal| denotes(w, *p[k as int], u); lemma_refused_excl(w, *p[k as int], x, e); }
}
pub proof fn lemma_walk_none<'p>(v: StrictVal, p: Seq<&'p Step>, k: nat, n: nat)
    requires k < n ensures walk(v, p, n) is Some ==> walk(v, p, (k + 1) as nat) is Some decreases n
{ if k + 1 < n { lemma_walk_none(v, p, k, (n - 1) as nat); } }
/// Resolving a concatenated path equals resolving its parts one after the other.
pub proof fn lemma_walk_concat<'p>(v: StrictVal, a: Seq<&'p Step>, b: Seq<&'p Step>, n: nat)
    requires n <= b.len()
    ensures walk(v, a + b, a.len() + n) == (match walk(v, a, a.len()) { Some(u) => walk(u, b, n), None => None })
    decreases n
{
    if n == 0 { lemma_walk_prefix(v, a, b, a.len()); }
    else { lemma_walk_concat(v, a, b, (n - 1) as nat); assert((a + b)[a.len() + n - 1] == b[n - 1]); }
}
pub proof fn lemma_walk_prefix<'p>(v: StrictVal, a: Seq<&'p Step>, b: Seq<&'p Step>, n: nat)
    requires n <= a.len() ensures walk(v, a + b, n) == walk(v, a, n) decreases n
{ if n > 0 { lemma_walk_prefix(v, a, b, (n - 1) as nat); assert((a + b)[n - 1] == a[n - 1]); } }
impl StrictVal {
//@fn src/value/path.rs StrictVal::at_path
//@ sig fn at_path<'p>(&self, path: impl IntoIterator<Item = &'p Step>,) -> Result<&StrictVal, PathError> ==> pub fn at_path<'v, 'p>(&'v self, path: VIter<&'p Step>) -> (r: Result<&'v StrictVal, PathError>)
//@ spec ensures r is Ok ==> reaches(*self, path.rem(), path.rem().len(), *(r->Ok_0)), r is Err ==> fails_at(*self, path.rem(), r->Err_0)
//@ veciter
//@ twin has_match
//@ loop 1
 __all1 == path.rem(), reaches(*self, __all1, __it1.pos() as nat, *val),
//@ at at loop 1 start
 let ghost __k = (__it1.pos() - 1) as nat; let ghost __v = *val; proof { assert(reaches(*self, __all1, __k, __v)); }
//@ at at loop 1 end
 proof { lemma_one_step(__v, *__all1[__k as int], *val); assert(reaches(*self, __all1, (__k + 1) as nat, *val)); }
//@end
}
