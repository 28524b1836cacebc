impl Ty<TranspileRef> {
//@fn src/typelib/symbolic.rs Ty<TranspileRef>::find_unknown
//@ sig fn find_unknown(&self, known: &impl Fn(&TypeName) -> bool) -> Option<&TypeName> ==> pub fn find_unknown<F: Fn(&TypeName) -> bool>(&self, known: &F) -> (r: Option<&TypeName>)
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec requires forall|n: &TypeName| known.requires((n,)),
//@ spec ensures r is Some ==> (exists|k: nat| #[trigger] ty_mentions(*self, *(r->Some_0), k)) && known.ensures((r->Some_0,), false),
//@ spec   r is None ==> forall|n: TypeName, k: nat| #[trigger] ty_mentions(*self, n, k) ==> known.ensures((&n,), true)
//@ loop 1
 forall|n: &TypeName| known.requires((n,)),
 __all1.len() == comp_len(*self), forall|i: int| #![trigger __all1[i]] #![trigger comp_ref(*self, i)] 0 <= i < comp_len(*self) ==> *__all1[i].0 == comp_ref(*self, i),
 forall|i: int, n: TypeName, k: nat| 0 <= i < __it1.pos() && #[trigger] mentions(comp_ref(*self, i), n, k) ==> call_ensures(*known, (&n,), true),
//@ at at loop 1 start
 let ghost __i = __it1.pos() - 1;
 proof {
  lemma_comps(*self);
  reveal(ty_mentions);
  assert(*subty == comps(*self)[__i]);
  assert forall|n: TypeName, k: nat| #[trigger] mentions(*subty, n, k) implies ty_mentions(*self, n, k) by {}
  if subty is Embedded {
   let t = *(subty->Embedded_0);
   assert forall|n: TypeName, k: nat| #[trigger] ty_mentions(t, n, k) implies mentions(*subty, n, k + 1) by {}
   assert forall|n: TypeName, k: nat| #[trigger] mentions(*subty, n, k) implies k > 0 && ty_mentions(t, n, (k - 1) as nat) by {}
  }
  if subty is Named { assert(mentions(*subty, subty->Named_0, 0)); }
 }
//@ at after loop 1
 proof {
  lemma_comps(*self);
  reveal(ty_mentions);
  assert forall|n: TypeName, k: nat| #[trigger] ty_mentions(*self, n, k) implies known.ensures((&n,), true) by {
   let i = choose|i: int| 0 <= i < comps(*self).len() && mentions(#[trigger] comps(*self)[i], n, k);
   assert(mentions(comp_ref(*self, i), n, k));
  }
 }
//@end
}
