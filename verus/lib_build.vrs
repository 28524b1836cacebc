// ---------------------------------------------------------------------------------------------
// C15: building libraries (src/typelib/symbolic.rs, transpile.rs)
// ---------------------------------------------------------------------------------------------
pub struct Sink;
#[verifier::external_body] #[verifier::accept_recursive_types(W)] pub struct StreamWriter<W> { w: W }
pub type Known = Seq<(Dependency, Option<HashSet<SemId>>)>;
/// `HashMap` keyed by `Dependency`: hashed by id; keys are the same when their ids or their names are.
/// (Entries of the same name and different ids are told apart by their hashes only: nothing is assumed of looking them up.)
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct DepMap<V> { v: Vec<(Dependency, V)> }
pub open spec fn apart<V>(s: Seq<(Dependency, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.name != (#[trigger] s[j]).0.name }
pub open spec fn ids_differ<V>(s: Seq<(Dependency, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.id != (#[trigger] s[j]).0.id }
impl<V> DepMap<V> {
    pub uninterp spec fn seq(&self) -> Seq<(Dependency, V)>;
    #[verifier::external_body]
    pub proof fn ids_apart(&self) ensures ids_differ(self.seq()) { }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: VIter<&'a Dependency>) ensures r.fresh(ref_keys(self.seq())),
        forall|i: int| #![trigger self.seq()[i]] #![trigger r.rem()[i]] 0 <= i < self.seq().len() ==> *r.rem()[i] == self.seq()[i].0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &Dependency) -> (r: Option<&'a V>)
        ensures apart(self.seq()) ==> forall|i: int| 0 <= i < self.seq().len() && (#[trigger] self.seq()[i]).0 == *k ==> r is Some && *(r->Some_0) == self.seq()[i].1 { unimplemented!() }
}
impl TinyDepSet {
    #[verifier::external_body]
    pub fn try_from_iter(it: VIter<Dependency>) -> (r: Result<Self, ConfinementError>)
        ensures r is Ok ==> (forall|k: TypeLibId| #[trigger] (r->Ok_0)@.contains(k) <==> has_dep(it.rem(), k)) && lists_deps((r->Ok_0)@, (r->Ok_0).seq()) && all_from((r->Ok_0).seq(), it.rem()),
            r is Err ==> it.rem().len() > 255 { unimplemented!() }
}
pub open spec fn all_from<A>(s: Seq<A>, t: Seq<A>) -> bool { forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i]) }
impl HashMap<LibName, Dependency> {
    #[verifier::external_body]
    pub fn into_values(self) -> (r: VIter<Dependency>) ensures r.fresh(vals_of(self.seq())), lists_map(self@, self.seq()) { unimplemented!() }
}
pub open spec fn vals_of<K, V>(s: Seq<(K, V)>) -> Seq<V> { Seq::new(s.len(), |i: int| s[i].1) }
//@item src/typelib/transpile.rs LibBuilder ;; HashMap<Dependency, Option<HashSet<SemId>>> ==> DepMap<Option<HashSet<SemId>>>
//@item src/typelib/symbolic.rs TranspileError
// --- what a library may use
pub open spec fn declared(k: Known, l: LibName) -> bool { exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0.name == l }
/// The dependency of that name provides the type, as far as it says what it provides.
pub open spec fn provides(k: Known, l: LibName, id: SemId) -> bool { exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0.name == l && (k[i].1 is Some ==> (k[i].1->Some_0)@.contains(id)) }
pub open spec fn lacks(k: Known, l: LibName, id: SemId) -> bool { exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0.name == l && k[i].1 is Some && !(k[i].1->Some_0)@.contains(id) }
pub type Ext = Map<LibName, BTreeMap<SemId, TypeName>>;
pub open spec fn uses(x: Ext, l: LibName) -> bool { x.contains_key(l) && !is_embedded(l) }
pub open spec fn all_defined(t: SymTys) -> bool { forall|n: TypeName, m: TypeName, k: nat| #![trigger t.contains_key(n), ty_mentions(t[n], m, k)] t.contains_key(n) && ty_mentions(t[n], m, k) ==> t.contains_key(m) }
pub open spec fn all_provided(k: Known, x: Ext) -> bool { forall|l: LibName, id: SemId| #![trigger x[l]@.contains_key(id)] uses(x, l) && x[l]@.contains_key(id) ==> provides(k, l, id) }
pub open spec fn is_known(k: Known, d: Dependency) -> bool { exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0 == d }
pub open spec fn deps_used(k: Known, x: Ext, d: Seq<Dependency>) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> (d.contains((#[trigger] k[i]).0) <==> uses(x, k[i].0.name))
    &&& forall|j: int| 0 <= j < d.len() ==> is_known(k, #[trigger] d[j])
}
pub open spec fn same_ext(x: Ext, e: ExternTypes) -> bool {
    &&& forall|l: LibName| #![trigger x.contains_key(l)] #![trigger e@.contains_key(l)] x.contains_key(l) <==> e@.contains_key(l)
    &&& forall|l: LibName| #[trigger] x.contains_key(l) ==> e@[l]@ == x[l]@
}
pub open spec fn built(b: LibBuilder, s: SymbolicLib) -> bool {
    &&& s.name == b.lib_name && s.types@ == b.types@ && same_ext(b.extern_types@, s.extern_types)
    &&& all_defined(b.types@) && all_provided(b.known_libs.seq(), b.extern_types@)
    &&& forall|l: LibName| uses(b.extern_types@, l) ==> declared(b.known_libs.seq(), l)
    &&& deps_used(b.known_libs.seq(), b.extern_types@, s.dependencies.seq())
}
/// One of the types added is `w`, and mentions the name.
pub open spec fn used_within(t: SymTys, w: Ty<TranspileRef>, u: TypeName) -> bool { exists|n: TypeName, k: nat| t.contains_key(n) && t[n] == w && #[trigger] ty_mentions(t[n], u, k) }
pub open spec fn missing(b: LibBuilder, e: TranspileError) -> bool {
    match e {
        TranspileError::UnknownType { unknown, within } => !b.types@.contains_key(unknown) && used_within(b.types@, within, unknown),
        TranspileError::UnknownLib(l) => uses(b.extern_types@, l) && !declared(b.known_libs.seq(), l),
        TranspileError::DependencyMissesType(l, id, n) => uses(b.extern_types@, l) && b.extern_types@[l]@.contains_key(id) && b.extern_types@[l]@[id] == n && lacks(b.known_libs.seq(), l, id),
        TranspileError::LibTooLarge(l) => b.extern_types@.contains_key(l) && b.extern_types@[l]@.dom().len() > 65535,
        TranspileError::TooManyDependencies => b.extern_types@.dom().len() > 255,
        TranspileError::TooManyTypes => b.types@.dom().len() > 0xffff_ffff_ffff_ffff,
    }
}
pub open spec fn taken(m: Map<LibName, SmallOrdMap<SemId, TypeName>>, s: Seq<(LibName, BTreeMap<SemId, TypeName>)>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0]@ == s[i].1@
    &&& forall|l: LibName| #[trigger] m.contains_key(l) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == l
}
/// The dependencies found for the names of the libraries used.
pub open spec fn found_for(k: Known, x: Ext, u: Map<LibName, Dependency>) -> bool {
    forall|l: LibName| #[trigger] u.contains_key(l) ==> uses(x, l) && exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0 == u[l] && k[i].0.name == l
}
pub proof fn lemma_collects_listed<K, V>(m: Map<K, V>, s: Seq<(K, V)>)
    requires lists_map(m, s)
    ensures forall|m2: Map<K, V>| #[trigger] collects(m2, s) ==> m2 == m
{
    assert forall|m2: Map<K, V>| #[trigger] collects(m2, s) implies m2 == m by {
        assert forall|k: K| m2.contains_key(k) == m.contains_key(k) by {
            if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; }
        }
        assert(m2 =~= m);
    }
}
/// What the dependencies found amount to.
pub proof fn lemma_used(k: Known, x: Ext, u: Map<LibName, Dependency>, s: Seq<(LibName, Dependency)>)
    requires found_for(k, x, u), forall|l: LibName| #[trigger] uses(x, l) ==> u.contains_key(l), apart(k), ids_differ(k)
    ensures u.dom().len() <= x.dom().len(), forall|l: LibName| #[trigger] uses(x, l) ==> declared(k, l),
        lists_map(u, s) ==> forall|m: Set<TypeLibId>, d: Seq<Dependency>| #[trigger] lists_deps(m, d) && (forall|id: TypeLibId| #[trigger] m.contains(id) <==> has_dep(vals_of(s), id)) && all_from(d, vals_of(s)) ==> deps_used(k, x, d)
{
    if lists_map(u, s) {
        assert forall|m: Set<TypeLibId>, d: Seq<Dependency>| #[trigger] lists_deps(m, d) && (forall|id: TypeLibId| #[trigger] m.contains(id) <==> has_dep(vals_of(s), id)) && all_from(d, vals_of(s)) implies deps_used(k, x, d) by {
            let v = vals_of(s);
            assert forall|j: int| 0 <= j < d.len() implies is_known(k, #[trigger] d[j]) && uses(x, d[j].name) by {
                assert(v.contains(d[j]));
                let q = choose|q: int| 0 <= q < v.len() && v[q] == d[j];
                assert(u.contains_key(s[q].0));
            }
            assert forall|i: int| 0 <= i < k.len() implies (d.contains((#[trigger] k[i]).0) <==> uses(x, k[i].0.name)) by {
                let dep = k[i].0;
                if uses(x, dep.name) {
                    assert(u.contains_key(dep.name));
                    let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).0 == dep.name;
                    assert(v[q] == u[dep.name]);
                    assert(u[dep.name].name == dep.name);
                    assert(v[q] == dep);
                    assert(has_dep(v, dep.id));
                    assert(m.contains(dep.id));
                    let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).id == dep.id;
                    let h = choose|h: int| 0 <= h < k.len() && (#[trigger] k[h]).0 == d[j];
                    assert(v.contains(d[j]));
                    let w = choose|w: int| 0 <= w < v.len() && v[w] == d[j];
                    assert(h == i);
                    assert(d[j] == dep);
                }
                if d.contains(dep) {
                    let j = choose|j: int| 0 <= j < d.len() && d[j] == dep;
                    assert(d[j] == dep);
                }
            }
            assert forall|j: int| 0 <= j < d.len() implies is_known(k, #[trigger] d[j]) by {
            }
        }
    }
    assert(u.dom().subset_of(x.dom())) by { assert forall|l: LibName| u.dom().contains(l) implies x.dom().contains(l) by { assert(u.contains_key(l)); } }
    vstd::set_lib::lemma_len_subset(u.dom(), x.dom());
}
impl LibBuilder {
//@fn src/typelib/symbolic.rs LibBuilder::compile_symbols
//@ ret r
//@ twin contains_key
//@ subst ?Confined::try_from_iter ==> SymTypes::try_from_iter
//@ subst ?TinyOrdSet::try_from_iter ==> TinyDepSet::try_from_iter
//@ spec requires apart(self.known_libs.seq()), self.types@ != Map::<TypeName, Ty<TranspileRef>>::empty()
//@ spec ensures r is Ok ==> built(self, r->Ok_0), r is Err ==> missing(self, r->Err_0)
//@ at start
 let ghost t0 = self.types@; let ghost x0 = self.extern_types@; let ghost k0 = self.known_libs.seq();
 broadcast use lib_name_ext;
 proof { self.known_libs.ids_apart(); }
//@ closure 4 -> (__r: Option<&Option<HashSet<SemId>>>) ensures apart(known_libs.seq()) ==> forall|i: int| 0 <= i < known_libs.seq().len() && (#[trigger] known_libs.seq()[i]).0 == *dep ==> __r is Some && *(__r->Some_0) == known_libs.seq()[i].1
//@ loop 1
 lists_map(types@, types.seq()), __all1.len() == types.seq().len(), forall|i: int| #![trigger types.seq()[i]] #![trigger __all1[i]] 0 <= i < __all1.len() ==> *__all1[i] == types.seq()[i].1,
 types == self.types, t0 == types@, forall|i: int, m: TypeName, k: nat| 0 <= i < __it1.pos() && #[trigger] ty_mentions(types.seq()[i].1, m, k) ==> types@.contains_key(m),
//@ at at loop 1 start
 proof { let i = __it1.pos() - 1; let ty = *__all1[i]; assert forall|u: TypeName, k: nat| #[trigger] ty_mentions(ty, u, k) implies used_within(t0, ty, u) by { assert(ty_mentions(t0[types.seq()[i].0], u, k)); } assert(t0[types.seq()[i].0] == ty && t0.contains_key(types.seq()[i].0)); }
//@ at before loop 2
 proof {
  assert(all_defined(t0)) by {
   assert forall|n: TypeName, m: TypeName, k: nat| #![trigger t0.contains_key(n), ty_mentions(t0[n], m, k)] t0.contains_key(n) && ty_mentions(t0[n], m, k) implies t0.contains_key(m) by {
    let i = choose|i: int| 0 <= i < types.seq().len() && (#[trigger] types.seq()[i]).0 == n;
    assert(ty_mentions(types.seq()[i].1, m, k));
   }
  }
 }
//@ loop 2
 lists_map(extern_types@, extern_types.seq()), __all2.len() == extern_types.seq().len(), forall|i: int| #![trigger extern_types.seq()[i]] #![trigger __all2[i]] 0 <= i < __all2.len() ==> *__all2[i] == extern_types.seq()[i].0,
 extern_types == self.extern_types, known_libs == self.known_libs, k0 == known_libs.seq(), apart(known_libs.seq()),
 found_for(known_libs.seq(), extern_types@, used_dependencies@),
 forall|i: int| 0 <= i < __it2.pos() ==> is_embedded((#[trigger] extern_types.seq()[i]).0) || used_dependencies@.contains_key(extern_types.seq()[i].0),
//@ at at loop 2 start
 broadcast use lib_name_ext;
 proof { assert(extern_types@.contains_key(extern_types.seq()[__it2.pos() - 1].0)); }
//@ at after loop 2
 proof {
  lemma_collects_listed(t0, types.seq());
  if t0.dom().len() == 0 { assert(t0.dom() =~= Set::empty()); assert(t0 =~= Map::empty()); }
  assert forall|l: LibName| #[trigger] uses(x0, l) implies used_dependencies@.contains_key(l) by {
   let i = choose|i: int| 0 <= i < extern_types.seq().len() && (#[trigger] extern_types.seq()[i]).0 == l;
  }
 }
//@ loop 3
 __all3.len() == self.extern_types.seq().len(), forall|i: int| #![trigger self.extern_types.seq()[i]] #![trigger __all3[i]] 0 <= i < __all3.len() ==> __all3[i] == self.extern_types.seq()[i],
 lists_map(x0, self.extern_types.seq()), x0 == self.extern_types@,
 known_libs == self.known_libs, k0 == known_libs.seq(), apart(known_libs.seq()), found_for(known_libs.seq(), x0, used_dependencies@),
 forall|l: LibName| #[trigger] uses(x0, l) ==> used_dependencies@.contains_key(l),
 forall|i: int, id: SemId| 0 <= i < __it3.pos() && uses(x0, self.extern_types.seq()[i].0) && #[trigger] self.extern_types.seq()[i].1@.contains_key(id) ==> provides(known_libs.seq(), self.extern_types.seq()[i].0, id),
 taken(type_map@, self.extern_types.seq(), __it3.pos()),
//@ at at loop 3 start
 let ghost __i3 = __it3.pos() - 1;
 let ghost d0 = dep_types@;
 proof { assert(x0.contains_key(self.extern_types.seq()[__i3].0) && x0[dep_name] == dep_types); }
//@ at at loop 4 start
 broadcast use lib_name_ext;
 proof { assert(dep_types@.contains_key(dep_types.seq()[__it4.pos() - 1].0)); if !is_embedded(dep_name) { assert(uses(x0, dep_name)); } }
//@ at after loop 4
 proof {
  assert forall|id: SemId| uses(x0, dep_name) && #[trigger] d0.contains_key(id) implies provides(k0, dep_name, id) by {
   let i = choose|i: int| 0 <= i < dep_types.seq().len() && (#[trigger] dep_types.seq()[i]).0 == id;
  }
  lemma_collects_listed(d0, dep_types.seq());
 }
//@ at after loop 3
 proof {
  let s = self.extern_types.seq();
  assert(all_provided(k0, x0)) by {
   assert forall|l: LibName, id: SemId| #![trigger x0[l]@.contains_key(id)] uses(x0, l) && x0[l]@.contains_key(id) implies provides(k0, l, id) by {
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == l;
    assert(s[i].1@.contains_key(id));
   }
  }
  assert(type_map@.dom() =~= x0.dom());
  lemma_used(k0, x0, used_dependencies@, used_dependencies.seq());
 }
//@ loop 4
 lists_map(dep_types@, dep_types.seq()), __all4.len() == dep_types.seq().len(), forall|i: int| #![trigger dep_types.seq()[i]] #![trigger __all4[i]] 0 <= i < __all4.len() ==> *__all4[i].0 == dep_types.seq()[i].0 && *__all4[i].1 == dep_types.seq()[i].1,
 x0 == self.extern_types@, x0.contains_key(dep_name), x0[dep_name] == dep_types,
 known_libs == self.known_libs, k0 == known_libs.seq(), apart(known_libs.seq()), found_for(known_libs.seq(), x0, used_dependencies@),
 forall|l: LibName| #[trigger] uses(x0, l) ==> used_dependencies@.contains_key(l),
 forall|i: int| 0 <= i < __it4.pos() ==> is_embedded(dep_name) || provides(known_libs.seq(), dep_name, (#[trigger] dep_types.seq()[i]).0),
//@end
}
// --- adding types
/// derived
impl PartialEq for Ty<TranspileRef> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ty<TranspileRef> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self == o }
}
impl SymbolRef {
//@fn src/typelib/symbolic.rs SymbolRef::with
//@ ret r
//@ spec ensures r.lib_name == lib_name, r.ty_name == ty_name, r.lib_id == lib_id, r.sem_id == sem_id
//@end
}
/// What telling the builder about a type leads to: own types are added, types of other libraries are noted as used, unnamed ones are only remembered.
pub open spec fn reported(b: LibBuilder, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>, r: LibBuilder) -> bool {
    &&& r.lib_name == b.lib_name && r.known_libs == b.known_libs
    &&& name is Some && lib == b.lib_name ==> r.types@ == b.types@.insert(name->Some_0, ty) && r.extern_types == b.extern_types && r.last_compiled == Some(TranspileRef::Named(name->Some_0))
    &&& name is Some && lib != b.lib_name ==> r.types == b.types && added(b.extern_types@, lib, sem_named(ty, name->Some_0), name->Some_0, r.extern_types@)
        && r.last_compiled is Some && r.last_compiled->Some_0 is Extern && (r.last_compiled->Some_0)->Extern_0.lib_name == lib && (r.last_compiled->Some_0)->Extern_0.ty_name == name->Some_0 && (r.last_compiled->Some_0)->Extern_0.sem_id == sem_named(ty, name->Some_0)
    &&& name is None ==> r.types == b.types && r.extern_types == b.extern_types && r.last_compiled is Some && r.last_compiled->Some_0 is Embedded && *((r.last_compiled->Some_0)->Embedded_0) == ty
}
/// A type may be reported: other libraries are among the known ones, and a name isn't given to two definitions.
pub open spec fn reportable(b: LibBuilder, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>) -> bool {
    &&& name is Some && lib != b.lib_name ==> declared(b.known_libs.seq(), lib)
    &&& name is Some && lib == b.lib_name && b.types@.contains_key(name->Some_0) ==> b.types@[name->Some_0] == ty
}
pub open spec fn added(x: Ext, l: LibName, id: SemId, n: TypeName, y: Ext) -> bool {
    &&& forall|m: LibName| #![trigger x.contains_key(m)] #![trigger y.contains_key(m)] y.contains_key(m) <==> x.contains_key(m) || m == l
    &&& forall|m: LibName| #![trigger y[m]] m != l && x.contains_key(m) ==> y[m] == x[m]
    &&& y[l]@ == (if x.contains_key(l) { x[l]@ } else { Map::empty() }).insert(id, n)
}
impl HashMap<LibName, BTreeMap<SemId, TypeName>> {
    /// `entry(lib).or_default().insert(id, name)`
    #[verifier::external_body]
    pub fn verif_add(&mut self, l: LibName, id: SemId, n: TypeName) ensures added(old(self)@, l, id, n, final(self)@) { unimplemented!() }
}
impl LibBuilder {
//@fn src/typelib/transpile.rs LibBuilder::dependency_id
//@ ret r
//@ closure 3 -> (__r: TypeLibId) requires false
//@ spec requires declared(self.known_libs.seq(), *lib_name)
//@ spec ensures exists|i: int| 0 <= i < self.known_libs.seq().len() && (#[trigger] self.known_libs.seq()[i]).0.name == *lib_name && self.known_libs.seq()[i].0.id == r
//@end
}
