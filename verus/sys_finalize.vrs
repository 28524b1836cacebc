pub open spec fn lacks(types: Syms, known: SemId, unknown: SemId) -> bool { types.contains_key(known) && refers(types[known].ty, unknown) && !types.contains_key(unknown) }
/// The builder has everything its libraries depend on and its types reference.
pub open spec fn complete(b: SystemBuilder) -> bool {
    (forall|k: TypeLibId| !#[trigger] b.pending_deps@.contains(k)) && forall|known: SemId, unknown: SemId| !#[trigger] lacks(b.types@, known, unknown)
}
#[verifier::opaque]
pub open spec fn names_lib(e: Seq<Error>, k: TypeLibId) -> bool { exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is AbsentImport && e[i]->AbsentImport_0.id == k }
#[verifier::opaque]
pub open spec fn names_type(e: Seq<Error>, known: SemId, unknown: SemId) -> bool { exists|i: int| 0 <= i < e.len() && #[trigger] e[i] == (Error::InnerTypeAbsent { unknown: unknown, known: known }) }
/// The error names a missing library or a missing type with a type referencing it.
pub open spec fn justified(e: Error, p: Set<TypeLibId>, types: Syms) -> bool {
    match e { Error::AbsentImport(d) => p.contains(d.id), Error::InnerTypeAbsent { unknown, known } => lacks(types, known, unknown), _ => false }
}
pub open spec fn all_justified(e: Seq<Error>, p: Set<TypeLibId>, types: Syms) -> bool { forall|i: int| 0 <= i < e.len() ==> justified(#[trigger] e[i], p, types) }
pub broadcast proof fn lemma_push_lib(e: Seq<Error>, x: Error, k: TypeLibId)
    ensures #[trigger] names_lib(e.push(x), k) <==> names_lib(e, k) || (x is AbsentImport && x->AbsentImport_0.id == k)
{
    reveal(names_lib);
    let f = e.push(x);
    assert(f[e.len() as int] == x);
    if names_lib(e, k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]) is AbsentImport && e[i]->AbsentImport_0.id == k; assert(f[i] == e[i]); }
    if names_lib(f, k) { let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is AbsentImport && f[i]->AbsentImport_0.id == k; if i < e.len() { assert(f[i] == e[i]); } }
}
pub broadcast proof fn lemma_push_type(e: Seq<Error>, x: Error, known: SemId, unknown: SemId)
    ensures #[trigger] names_type(e.push(x), known, unknown) <==> names_type(e, known, unknown) || x == (Error::InnerTypeAbsent { unknown: unknown, known: known })
{
    reveal(names_type);
    let f = e.push(x);
    assert(f[e.len() as int] == x);
    if names_type(e, known, unknown) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (Error::InnerTypeAbsent { unknown: unknown, known: known }); assert(f[i] == e[i]); }
    if names_type(f, known, unknown) { let i = choose|i: int| 0 <= i < f.len() && #[trigger] f[i] == (Error::InnerTypeAbsent { unknown: unknown, known: known }); if i < e.len() { assert(f[i] == e[i]); } }
}
pub broadcast proof fn lemma_no_lib(e: Seq<Error>, k: TypeLibId) requires e.len() == 0 ensures !#[trigger] names_lib(e, k) { reveal(names_lib); }
pub broadcast proof fn lemma_no_type(e: Seq<Error>, known: SemId, unknown: SemId) requires e.len() == 0 ensures !#[trigger] names_type(e, known, unknown) { reveal(names_type); }
broadcast group group_errors { lemma_push_lib, lemma_push_type, lemma_no_lib, lemma_no_type }
impl SystemBuilder {
//@fn src/typesys/translate.rs SystemBuilder::finalize
//@ ret r
//@ spec ensures r is Ok ==> complete(self) && assembled(r->Ok_0, self.types@) && (r->Ok_0).symbols.libs@ == self.imported_deps@,
//@ spec r is Err && !complete(self) ==> all_justified((r->Err_0)@, self.pending_deps@, self.types@)
//@ spec   && (forall|k: TypeLibId| #[trigger] self.pending_deps@.contains(k) ==> names_lib((r->Err_0)@, k))
//@ spec   && (forall|known: SemId, unknown: SemId| #[trigger] lacks(self.types@, known, unknown) ==> names_type((r->Err_0)@, known, unknown)),
//@ spec r is Err && complete(self) ==> self.types@.dom().len() > 16777215 || self.imported_deps@.len() > 65535
//@ at start
 broadcast use group_errors;
//@ at at loop 1 start
 broadcast use group_errors;
//@ at at loop 2 start
 broadcast use group_errors;
//@ at at loop 3 start
 broadcast use group_errors;
 proof { reveal(refers); }
//@ at after loop 2
 proof {
   if errors@.len() > 0 { assert(justified(errors@[0], self.pending_deps@, self.types@)); }
   assert forall|known: SemId, unknown: SemId| #[trigger] lacks(self.types@, known, unknown) implies names_type(errors@, known, unknown) by {
     let i = choose|i: int| 0 <= i < self.types.seq().len() && (#[trigger] self.types.seq()[i]).0 == known;
   }
 }
//@ at after loop 3
 proof {
   assert forall|unknown: SemId| lacks(self.types@, *sem_id, unknown) implies #[trigger] names_type(errors@, *sem_id, unknown) by {
     reveal(refers);
     let i = choose|i: int| 0 <= i < comp_len(info.ty) && #[trigger] comp_ref(info.ty, i) == unknown;
   }
 }
//@ loop 1
 all_justified(errors@, self.pending_deps@, self.types@), lists_deps(self.pending_deps@, __all1),
 forall|i: int| 0 <= i < __it1.pos() ==> names_lib(errors@, (#[trigger] __all1[i]).id),
 forall|k: TypeLibId| #[trigger] names_lib(errors@, k) ==> self.pending_deps@.contains(k),
//@ loop 2
 all_justified(errors@, self.pending_deps@, self.types@), 
 forall|k: TypeLibId| #[trigger] self.pending_deps@.contains(k) <==> names_lib(errors@, k),
 __all2.len() == self.types.seq().len(), lists_map(self.types@, self.types.seq()), forall|i: int| #![trigger self.types.seq()[i]] #![trigger __all2[i]] 0 <= i < self.types.seq().len() ==> __all2[i] == (&self.types.seq()[i].0, &self.types.seq()[i].1),
 forall|i: int, unknown: SemId| 0 <= i < __it2.pos() && lacks(self.types@, (#[trigger] self.types.seq()[i]).0, unknown) ==> #[trigger] names_type(errors@, self.types.seq()[i].0, unknown),
//@ loop 3
 all_justified(errors@, self.pending_deps@, self.types@), 
 forall|k: TypeLibId| #[trigger] self.pending_deps@.contains(k) <==> names_lib(errors@, k),
 self.types@.contains_key(*sem_id), self.types@[*sem_id] == *info, __all3.len() == comp_len(info.ty),
 forall|i: int| #![trigger __all3[i]] #![trigger comp_ref(info.ty, i)] 0 <= i < comp_len(info.ty) ==> *__all3[i].0 == comp_ref(info.ty, i),
 forall|i: int| 0 <= i < __it3.pos() && !self.types@.contains_key(#[trigger] comp_ref(info.ty, i)) ==> names_type(errors@, *sem_id, comp_ref(info.ty, i)),
 forall|i: int, unknown: SemId| 0 <= i < __it2.pos() - 1 && lacks(self.types@, (#[trigger] self.types.seq()[i]).0, unknown) ==> #[trigger] names_type(errors@, self.types.seq()[i].0, unknown),
//@end
}
