impl TypeSystem {
//@fn src/typesys/type_sys.rs TypeSystem::insert_unchecked
//@ ret r
//@ sigsub confinement::Error ==> ConfinementError
//@ spec ensures r is Ok ==> final(self)@ == old(self)@.insert(sem_id, ty) && r->Ok_0 == old(self)@.contains_key(sem_id),
//@ spec r is Err ==> old(self)@.dom().len() >= 16777215
//@ closure 1 -> (__r: bool) ensures __r == (r is Some)
//@end
#[verifier::external_body]
pub fn new() -> (r: Self) ensures r@ == Map::<SemId, Ty<SemId>>::empty() { unimplemented!() }
}
impl Symbols {
//@fn src/typesys/symbols.rs Symbols::with
//@ ret r
//@ sigsub confinement::Error ==> ConfinementError
//@ sigsub impl IntoIterator<Item = Dependency> ==> DepTree
//@ subst ?empty!() ==> MediumOrdSet::new()
//@ subst ?SmallOrdSet ==> SmallDepSet
//@ spec ensures r is Ok ==> (r->Ok_0).symbols@ == Set::<TypeSymbol>::empty() && (r->Ok_0).libs@ == libs@,
//@ spec r is Err ==> libs@.len() > 65535
//@end
//@fn src/typesys/symbols.rs Symbols::update_unchecked
//@ ret r
//@ sigsub translate::Error ==> Error
//@ subst ?translate::Error ==> Error
//@ spec ensures r is Ok ==> final(self).symbols@ == old(self).symbols@.insert(TypeSymbol { id: sem_id, fqn: orig }) && final(self).libs == old(self).libs,
//@ spec r is Err ==> old(self).symbols@.len() >= 16777215 || old(self).symbols@.contains(TypeSymbol { id: sem_id, fqn: orig })
//@end
//@fn src/typesys/symbols.rs Symbols::get
//@ ret r
//@ sigsub impl Into<TypeFqn> ==> TypeFqn
//@ subst ?spec.into() ==> spec
//@ closure 1 -> (__r: bool) ensures __r == (fqid.fqn == Some(needle))
//@ spec ensures r is Some ==> named_as(self.symbols@, *(r->Some_0), spec),
//@ spec r is None ==> forall|id: SemId| !#[trigger] named_as(self.symbols@, id, spec)
//@end
//@fn src/typesys/symbols.rs Symbols::lookup
//@ ret r
//@ closure 2 -> (__r: Option<&TypeFqn>) ensures __r == (match sym.fqn { Some(n) => Some(&n), None => None })
//@ spec ensures r is Some ==> named_as(self.symbols@, sem_id, *(r->Some_0)),
//@ spec r is None ==> (forall|x: TypeSymbol| #[trigger] self.symbols@.contains(x) ==> x.id != sem_id) || exists|x: TypeSymbol| #[trigger] self.symbols@.contains(x) && x.id == sem_id && x.fqn is None
//@end
}
impl SymbolicSys {
//@fn src/typesys/symbols.rs SymbolicSys::with
//@ ret r
//@ sigsub impl IntoIterator<Item = Dependency> ==> DepTree
//@ sigsub translate::Error ==> Error
//@ spec ensures r is Ok ==> assembled(r->Ok_0, types@) && (r->Ok_0).symbols.libs@ == libs@,
//@ spec r is Err ==> types@.dom().len() > 16777215 || libs@.len() > 65535
//@ at start
 let ghost __types = types@; let ghost __libs = libs@;
//@ loop 1
 sym.libs@ == __libs, lists_map(__types, __all1), __types == types@, __libs == libs@,
 sys@.dom().len() <= __it1.pos(), sym.symbols@.len() <= __it1.pos(),
 forall|i: int| #![trigger __all1[i]] 0 <= i < __it1.pos() ==> sys@.contains_key(__all1[i].0) && sys@[__all1[i].0] == __all1[i].1.ty && sym.symbols@.contains(sym_of(__all1[i].0, __all1[i].1)),
 forall|id: SemId| #[trigger] sys@.contains_key(id) ==> exists|i: int| 0 <= i < __it1.pos() && (#[trigger] __all1[i]).0 == id,
 forall|x: TypeSymbol| #[trigger] sym.symbols@.contains(x) ==> exists|i: int| 0 <= i < __it1.pos() && sym_of((#[trigger] __all1[i]).0, __all1[i].1) == x,
//@end
//@fn src/typesys/symbols.rs SymbolicSys::new
//@ ret r
//@ spec ensures r.types == types, r.symbols == symbols
//@end
//@fn src/typesys/symbols.rs SymbolicSys::resolve
//@ ret r
//@ sigsub impl Into<TypeFqn> ==> TypeFqn
//@ spec ensures r is Some ==> named_as(self.symbols.symbols@, *(r->Some_0), fqn),
//@ spec r is None ==> forall|id: SemId| !#[trigger] named_as(self.symbols.symbols@, id, fqn)
//@end
//@fn src/typesys/symbols.rs SymbolicSys::lookup
//@ ret r
//@ spec ensures r is Some ==> named_as(self.symbols.symbols@, sem_id, *(r->Some_0)),
//@ spec r is None ==> (forall|x: TypeSymbol| #[trigger] self.symbols.symbols@.contains(x) ==> x.id != sem_id) || exists|x: TypeSymbol| #[trigger] self.symbols.symbols@.contains(x) && x.id == sem_id && x.fqn is None
//@end
//@fn src/typesys/symbols.rs SymbolicSys::to_sem_id
//@ ret r
//@ sigsub impl Into<TypeSpec> ==> TypeSpec
//@ subst ?spec.into() ==> spec
//@ spec ensures spec is SemId ==> r == Some(spec->SemId_0),
//@ spec spec is Fqn && r is Some ==> named_as(self.symbols.symbols@, r->Some_0, spec->Fqn_0),
//@ spec spec is Fqn && r is None ==> forall|id: SemId| !#[trigger] named_as(self.symbols.symbols@, id, spec->Fqn_0)
//@end
//@fn src/typesys/symbols.rs SymbolicSys::get
//@ ret r
//@ sigsub impl Into<TypeSpec> ==> TypeSpec
//@ subst ?spec.into() ==> spec
//@ spec ensures spec is SemId ==> (r is Some <==> self.types@.contains_key(spec->SemId_0)) && (r is Some ==> *(r->Some_0) == self.types@[spec->SemId_0]),
//@ spec spec is Fqn && r is Some ==> exists|id: SemId| #[trigger] named_as(self.symbols.symbols@, id, spec->Fqn_0) && self.types@.contains_key(id) && *(r->Some_0) == self.types@[id],
//@ spec spec is Fqn && r is None ==> (forall|id: SemId| !#[trigger] named_as(self.symbols.symbols@, id, spec->Fqn_0)) || exists|o: SemId| #[trigger] named_as(self.symbols.symbols@, o, spec->Fqn_0) && !self.types@.contains_key(o)
//@end
}
/// C05 as a client sees it: an assembled system answers queries by name and id from exactly the types it was made of.
fn client_assembled(libs: DepTree, types: BTreeMap<SemId, SymTy>, id: SemId, fqn: TypeFqn) {
    let ghost m = types@;
    if let Ok(sys) = SymbolicSys::with(libs, types) {
        let name = sys.lookup(id);
        assert(name is Some <==> m.contains_key(id) && m[id].orig is Some) by { if m.contains_key(id) { assert(sys.symbols.symbols@.contains(sym_of(id, m[id]))); } }
        assert(name is Some ==> m[id].orig == Some(*(name->Some_0)));
        let found = sys.resolve(fqn.clone());
        assert(found is Some ==> m.contains_key(*(found->Some_0)) && m[*(found->Some_0)].orig == Some(fqn));
        assert(found is None ==> forall|o: SemId| #[trigger] m.contains_key(o) ==> m[o].orig != Some(fqn)) by {
            if found is None { assert forall|o: SemId| #[trigger] m.contains_key(o) implies m[o].orig != Some(fqn) by { assert(sys.symbols.symbols@.contains(sym_of(o, m[o]))); assert(!named_as(sys.symbols.symbols@, o, fqn)); } }
        }
        let ty = sys.get(TypeSpec::SemId(id));
        assert(ty is Some <==> m.contains_key(id));
        assert(ty is Some ==> *(ty->Some_0) == m[id].ty);
        let spec = TypeSpec::Fqn(fqn.clone());
        assert(spec is Fqn && spec->Fqn_0 == fqn);
        let ty = sys.get(spec);
        let ghost und = choose|o: SemId| #[trigger] named_as(sys.symbols.symbols@, o, fqn) && !sys.types@.contains_key(o);
        assert(ty is None && found is Some ==> named_as(sys.symbols.symbols@, und, fqn));
        assert forall|o: SemId| #[trigger] named_as(sys.symbols.symbols@, o, fqn) implies sys.types@.contains_key(o) by { assert(sys.symbols.symbols@.contains(TypeSymbol { id: o, fqn: Some(fqn) })); }
        assert(found is Some ==> ty is Some) by { if found is Some { assert(named_as(sys.symbols.symbols@, *(found->Some_0), fqn)); } }
        assert(ty is Some ==> found is Some);
        assert(ty is Some ==> exists|o: SemId| #[trigger] m.contains_key(o) && m[o].orig == Some(fqn) && m[o].ty == *(ty->Some_0));
    }
}
