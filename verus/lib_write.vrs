// ---------------------------------------------------------------------------------------------
// C15: the definitions a library builder records for the types it is given (src/typelib/transpile.rs)
// ---------------------------------------------------------------------------------------------
/// derived
impl Clone for TranspileRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for TranspileRef { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TranspileRef {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self == o }
}
impl SClone for (Option<FieldName>, TranspileRef) { open spec fn sclone(&self) -> Self { *self } }
/// strict_encoding's writers: they know which variants are declared, and whether fields are named.
#[verifier::external_body] #[verifier::accept_recursive_types(W)] #[verifier::accept_recursive_types(P)] pub struct StructWriter<W, P> { w: W, p: P }
impl<W, P> StructWriter<W, P> {
    pub uninterp spec fn tuple(&self) -> bool;
    #[verifier::external_body] pub fn is_tuple(&self) -> (r: bool) ensures r == self.tuple() { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &str) { unimplemented!() }
}
#[verifier::external_body] pub struct VariantType { _x: () }
#[verifier::external_body] #[verifier::accept_recursive_types(W)] pub struct UnionWriter<W> { w: W }
impl<W> UnionWriter<W> {
    /// the variants defined, by tag
    pub uninterp spec fn defined(&self) -> Seq<(Variant, VariantType)>;
    pub uninterp spec fn tag_of(&self, n: VariantName) -> Option<u8>;
    #[verifier::external_body] pub fn variants(&self) -> (r: &DefVariants) ensures r@ == self.defined(), tags_ascend(r@) { unimplemented!() }
    #[verifier::external_body] pub fn tag_by_name(&self, n: &VariantName) -> (r: u8) requires self.tag_of(*n) is Some ensures Some(r) == self.tag_of(*n) { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &str) { unimplemented!() }
}
/// `BTreeMap<Variant, VariantType>`
#[verifier::external_body] pub struct DefVariants { _x: () }
impl DefVariants {
    pub uninterp spec fn view(&self) -> Seq<(Variant, VariantType)>;
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VIter<&Variant>) ensures r.fresh(ref_keys(self@)),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> *r.rem()[i] == self@[i].0 && *r.all()[i] == self@[i].0 { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VIter<(&Variant, &VariantType)>) ensures r.fresh(ref_pairs(self@)),
        forall|i: int| #![trigger self@[i]] #![trigger r.rem()[i]] 0 <= i < self@.len() ==> r.rem()[i] == (&self@[i].0, &self@[i].1) && r.all()[i] == (&self@[i].0, &self@[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
impl<T> VIter<T> {
    /// `map` with a function which need not apply to anything but the items
    #[verifier::external_body]
    pub fn map_each<U, F: Fn(T) -> U>(self, f: F) -> (r: VIter<U>)
        requires forall|j: int| 0 <= j < self.rem().len() ==> f.requires((#[trigger] self.rem()[j],)),
        ensures r.pos() == 0, r.rem() == r.all(), r.all().len() == self.rem().len(),
            forall|j: int| #![trigger r.all()[j]] #![trigger self.rem()[j]] 0 <= j < self.rem().len() ==> f.ensures((self.rem()[j],), r.all()[j]),
    { unimplemented!() }
}
impl<T> NEVec<T> {
    #[verifier::external_body]
    pub fn try_from_iter(it: VIter<T>) -> (r: Result<Self, ConfinementError>)
        ensures r is Ok <==> 1 <= it.rem().len() <= 255, r is Ok ==> (r->Ok_0)@ == it.rem() { unimplemented!() }
}
impl<R> VCollect<(Variant, R)> for VarTree<R> {
    open spec fn collected(self, s: Seq<(Variant, R)>) -> bool { tags_ascend(s) ==> self@ == s }
}
impl<R> UnionVariants<R> {
    #[verifier::external_body]
    pub fn try_from(v: VarTree<R>) -> (r: Result<Self, ConfinementError>) ensures 1 <= v@.len() <= 255 ==> r is Ok, r is Ok ==> (r->Ok_0)@ == v@ { unimplemented!() }
}
/// `BTreeSet<Variant>`
#[verifier::external_body] pub struct VarSetTree { _x: () }
impl VarSetTree { pub uninterp spec fn view(&self) -> Seq<Variant>; }
impl VCollect<Variant> for VarSetTree {
    open spec fn collected(self, s: Seq<Variant>) -> bool { (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).tag < (#[trigger] s[j]).tag) ==> self@ == s }
}
impl EnumVariants {
    #[verifier::external_body]
    pub fn try_from(v: VarSetTree) -> (r: Result<Self, ConfinementError>) ensures 1 <= v@.len() <= 255 ==> r is Ok, r is Ok ==> (r->Ok_0)@ == v@ { unimplemented!() }
}
impl<Ref> NamedFields<Ref> {
//@fn src/ast/ty.rs <NamedFields<Ref> as Wrapper>::from_inner
//@ sigsub Self::Inner ==> NEVec<Field<Ref>>
//@ ret r
//@ spec ensures r@ == inner@
//@end
}
impl<Ref> UnnamedFields<Ref> {
//@fn src/ast/ty.rs <UnnamedFields<Ref> as Wrapper>::from_inner
//@ sigsub Self::Inner ==> NEVec<Ref>
//@ ret r
//@ spec ensures r@ == inner@
//@end
}
/// strict_encoding: a value tells a builder about its type, by the calls its (derived) encoding makes. The builder remembers the type last told.
pub trait StrictEncode: Sized {
    spec fn tells(&self, b: LibBuilder, r: LibBuilder) -> bool;
    /// `T::STRICT_LIB_NAME`, `T::strict_name()`
    spec fn lib_bytes() -> Seq<u8>;
    spec fn type_name() -> Option<TypeName>;
    fn verif_lib() -> (r: &'static str) ensures lit_bytes(r) == Self::lib_bytes();
    fn strict_name() -> (r: Option<TypeName>) ensures r == Self::type_name();
    fn strict_encode(&self, w: LibBuilder) -> (r: Result<LibBuilder, BuildError>)
        ensures r is Ok, self.tells(w, r->Ok_0), (r->Ok_0).last_compiled is Some, (r->Ok_0).known_libs == w.known_libs, (r->Ok_0).lib_name == w.lib_name;
}
pub trait StrictDumb: Sized { fn strict_dumb() -> (r: Self); }
#[derive(Debug)] pub struct BuildError;
#[verifier::external_body] pub fn verif_embedded(s: &str) -> (r: bool) ensures r == (lit_bytes(s) == lit_bytes(LIB_EMBEDDED)) { unimplemented!() }
#[verifier::external_body] pub fn verif_differs(s: &str, l: &LibName) -> (r: bool) ensures r == (lit_bytes(s) != l.bytes()) { unimplemented!() }
/// The type of a value, as the fields of other definitions refer to it.
pub open spec fn compiled_as<T: StrictEncode>(b: LibBuilder, v: &T, r: LibBuilder, t: TranspileRef) -> bool {
    if T::lib_bytes() == lit_bytes(LIB_EMBEDDED) || T::type_name() is None { v.tells(b, r) && r.last_compiled == Some(t) }
    else if T::lib_bytes() != b.lib_name.bytes() {
        v.tells(b, r) && r.last_compiled is Some && t is Extern && (t->Extern_0).lib_name.bytes() == T::lib_bytes() && (t->Extern_0).ty_name == T::type_name()->Some_0
        && (t->Extern_0).sem_id == ref_id(r.last_compiled->Some_0) && known_under(b.known_libs.seq(), (t->Extern_0).lib_name, (t->Extern_0).lib_id)
    } else if b.types@.contains_key(T::type_name()->Some_0) { r == b && t == TranspileRef::Named(T::type_name()->Some_0) }
    else { v.tells(b, r) && r.last_compiled == Some(t) }
}
pub open spec fn known_under(k: Known, l: LibName, id: TypeLibId) -> bool { exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]).0.name == l && k[i].0.id == id }
/// The library of the type is known.
pub open spec fn compilable<T: StrictEncode>(b: LibBuilder) -> bool {
    T::type_name() is None || T::lib_bytes() == lit_bytes(LIB_EMBEDDED) || T::lib_bytes() == b.lib_name.bytes()
    || forall|l: LibName| #[trigger] l.bytes() == T::lib_bytes() ==> declared(b.known_libs.seq(), l)
}
/// The id of a reference (C01).
pub uninterp spec fn ref_id(t: TranspileRef) -> SemId;
impl TranspileRef {
    #[verifier::external_body] pub fn id(&self) -> (r: SemId) ensures r == ref_id(*self) { unimplemented!() }
}
pub trait BuilderParent: Sized {
    spec fn compilable_by<T: StrictEncode>(self) -> bool;
    spec fn compiled_by<T: StrictEncode>(self, v: &T, r: Self, t: TranspileRef) -> bool;
    spec fn reportable_to(self, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>) -> bool;
    spec fn reported_to(self, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>, r: Self) -> bool;
    fn compile_type<T: StrictEncode>(self, value: &T) -> (r: (Self, TranspileRef)) requires self.compilable_by::<T>() ensures self.compiled_by::<T>(value, r.0, r.1);
    fn report_compiled(self, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>) -> (r: Self) requires self.reportable_to(lib, name, ty) ensures self.reported_to(lib, name, ty, r);
}
impl BuilderParent for LibBuilder {
    open spec fn compilable_by<T: StrictEncode>(self) -> bool { compilable::<T>(self) }
    open spec fn compiled_by<T: StrictEncode>(self, v: &T, r: Self, t: TranspileRef) -> bool { compiled_as::<T>(self, v, r, t) }
    open spec fn reportable_to(self, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>) -> bool { reportable(self, lib, name, ty) }
    open spec fn reported_to(self, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>, r: Self) -> bool { reported(self, lib, name, ty, r) }
//@fn src/typelib/transpile.rs <LibBuilder as BuilderParent>::report_compiled
//@ ret r
//@ subst self . extern_types . entry (lib . clone ()) . or_default () . insert (id , name . clone ()) ==> self.extern_types.verif_add(lib.clone(), id, name.clone())
//@end
//@fn src/typelib/transpile.rs <LibBuilder as BuilderParent>::compile_type
//@ ret r
//@ subst |mut me : Self| ==> |me: Self|
//@ subst me = value . strict_encode (me) ==> let me = value.strict_encode(me)
//@ subst T :: STRICT_LIB_NAME ==> T::verif_lib()
//@ subst (LIB_EMBEDDED , _) | (_ , None) => _compile (self) ==> (lib, _) if verif_embedded(lib) => _compile(self), (_, None) => _compile(self)
//@ subst ?lib != self.lib_name.as_str() ==> verif_differs(lib, &self.lib_name)
//@ closure 1 -> (__r: (Self, TranspileRef)) ensures value.tells(me, __r.0), __r.0.last_compiled == Some(__r.1), __r.0.known_libs == me.known_libs
//@end
}
impl BuilderParent for UnionBuilder {
    open spec fn compilable_by<T: StrictEncode>(self) -> bool { compilable::<T>(self.parent) }
    open spec fn compiled_by<T: StrictEncode>(self, v: &T, r: Self, t: TranspileRef) -> bool { compiled_as::<T>(self.parent, v, r.parent, t) && r == (UnionBuilder { parent: r.parent, ..self }) }
    open spec fn reportable_to(self, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>) -> bool { reportable(self.parent, lib, name, ty) }
    open spec fn reported_to(self, lib: LibName, name: Option<TypeName>, ty: Ty<TranspileRef>, r: Self) -> bool { reported(self.parent, lib, name, ty, r.parent) && r == (UnionBuilder { parent: r.parent, ..self }) }
//@fn src/typelib/transpile.rs <UnionBuilder as BuilderParent>::report_compiled
//@ ret r
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as BuilderParent>::compile_type
//@ ret r
//@end
}
//@item src/typelib/transpile.rs StructBuilder
//@item src/typelib/transpile.rs UnionBuilder ;; ;; BTreeMap<u8, TranspileRef> ==> BTreeMap<u8, TranspileRef>
/// The definition of a structure or tuple with these fields.
pub open spec fn with_fields(f: Seq<(Option<FieldName>, TranspileRef)>, tuple: bool, t: Ty<TranspileRef>) -> bool {
    if f.len() == 0 { t == Ty::<TranspileRef>::Primitive(Primitive { code: 0 }) }
    else if tuple { t matches Ty::Tuple(u) && u@.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] u@[i] == f[i].1 }
    else { t matches Ty::Struct(s) && s@.len() == f.len() && forall|i: int| 0 <= i < f.len() ==> Some((#[trigger] s@[i]).name) == f[i].0 && s@[i].ty == f[i].1 }
}
impl<P: BuilderParent> StructBuilder<P> {
//@fn src/typelib/transpile.rs StructBuilder::name
//@ ret r
//@end
//@fn src/typelib/transpile.rs StructBuilder::_build_struct
//@ veciter
//@ ret r
//@ subst ?Ty::UNIT ==> Ty::<TranspileRef>::Primitive(Primitive { code: 0 })
//@ subst ?Confined::try_from_iter ==> NEVec::try_from_iter
//@ subst ?.cloned().map ==> .cloned().map_each
//@ closure 1 -> (__r: TranspileRef) ensures __r == __a0.1
//@ closure 2 -> (__r: NEVec<TranspileRef>) requires false
//@ closure 3 -> (__r: Field<TranspileRef>) requires __a0.0 is Some ensures __r.name == __a0.0->Some_0, __r.ty == __a0.1
//@ closure 4 -> (__r: NEVec<Field<TranspileRef>>) requires false
//@ spec requires self.fields@.len() <= 255, !self.writer.tuple() ==> forall|i: int| 0 <= i < self.fields@.len() ==> (#[trigger] self.fields@[i]).0 is Some
//@ spec ensures with_fields(self.fields@, self.writer.tuple(), r)
//@end
}
/// The definition of a union with the variants declared and the contents recorded for their tags.
pub open spec fn with_variants<V>(d: Seq<(Variant, V)>, m: Map<u8, TranspileRef>, t: Ty<TranspileRef>) -> bool {
    t matches Ty::Union(u) && u@.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] u@[i]).0 == d[i].0 && u@[i].1 == m[d[i].0.tag]
}
pub open spec fn with_names<V>(d: Seq<(Variant, V)>, t: Ty<TranspileRef>) -> bool {
    t matches Ty::Enum(u) && u@.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] u@[i]) == d[i].0
}
impl UnionBuilder {
//@fn src/typelib/transpile.rs UnionBuilder::name
//@ ret r
//@end
//@fn src/typelib/transpile.rs UnionBuilder::_define_variant
//@ spec requires old(self).parent.last_compiled is Some, old(self).writer.tag_of(*name) is Some
//@ spec ensures final(self).variants@ == old(self).variants@.insert(old(self).writer.tag_of(*name)->Some_0, old(self).parent.last_compiled->Some_0),
//@ spec   final(self).writer == old(self).writer, final(self).parent == old(self).parent, final(self).lib == old(self).lib, final(self).name == old(self).name
//@end
//@fn src/typelib/transpile.rs UnionBuilder::_build_union
//@ ret r
//@ subst ?.keys().map ==> .keys().map_each
//@ subst ?.collect::<BTreeMap<_, _>>() ==> .collect::<VarTree<TranspileRef>>()
//@ closure 1 -> (__r: (Variant, TranspileRef)) requires self.variants@.contains_key(variant.tag) ensures __r.0 == *variant, __r.1 == self.variants@[variant.tag]
//@ closure 2 -> (__r: UnionVariants<TranspileRef>) requires false
//@ spec requires 1 <= self.writer.defined().len() <= 255, forall|i: int| 0 <= i < self.writer.defined().len() ==> self.variants@.contains_key((#[trigger] self.writer.defined()[i]).0.tag)
//@ spec ensures with_variants(self.writer.defined(), self.variants@, r)
//@end
//@fn src/typelib/transpile.rs UnionBuilder::_build_enum
//@ ret r
//@ subst ?.collect::<BTreeSet<_>>() ==> .collect::<VarSetTree>()
//@ closure 1 -> (__r: EnumVariants) requires false
//@ spec requires 1 <= self.writer.defined().len() <= 255
//@ spec ensures with_names(self.writer.defined(), r)
//@end
//@fn src/typelib/transpile.rs UnionBuilder::_complete_definition
//@ ret r
//@ subst ?DefineUnion::complete ==> verif_define_complete
//@ spec requires reportable(self.parent, self.lib, self.name, ty)
//@ spec ensures reported(self.parent, self.lib, self.name, ty, r.parent), r.lib == self.lib, r.name == self.name, r.variants == self.variants, same_variants(self.writer, r.writer)
//@end
//@fn src/typelib/transpile.rs UnionBuilder::_complete_write
//@ ret r
//@ subst ?WriteUnion::complete ==> verif_write_complete
//@ spec requires reportable(self.parent, self.lib, self.name, ty)
//@ spec ensures reported(self.parent, self.lib, self.name, ty, r)
//@end
//@fn src/typelib/transpile.rs UnionBuilder::from_split
//@ ret r
//@ spec ensures r == (UnionBuilder { writer: writer, ..remnant })
//@end
}
/// strict_encoding's writer of unions: adds the variant declared under the name; checks that all are defined; checks what is written.
pub open spec fn defines<V>(d: Seq<(Variant, V)>, v: Variant) -> bool { exists|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == v }
pub open spec fn defines_name<V>(d: Seq<(Variant, V)>, n: VariantName) -> bool { exists|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0.name == n }
pub open spec fn declares_more<W>(u: UnionWriter<W>, n: VariantName, r: UnionWriter<W>) -> bool {
    &&& forall|m: VariantName| #[trigger] r.tag_of(m) == u.tag_of(m)
    &&& r.defined().len() == u.defined().len() + 1 && u.tag_of(n) is Some && (forall|v: Variant| #[trigger] defines(r.defined(), v) <==> defines(u.defined(), v) || v == Variant { name: n, tag: u.tag_of(n)->Some_0 })
    &&& forall|i: int| 0 <= i < r.defined().len() ==> Some((#[trigger] r.defined()[i]).0.tag) == u.tag_of(n) || exists|j: int| 0 <= j < u.defined().len() && (#[trigger] u.defined()[j]).0 == r.defined()[i].0
}
pub open spec fn same_variants<W>(u: UnionWriter<W>, r: UnionWriter<W>) -> bool { r.defined() == u.defined() && forall|m: VariantName| #[trigger] r.tag_of(m) == u.tag_of(m) }
#[verifier::external_body] pub fn verif_define_unit(w: UnionWriter<StreamWriter<Sink>>, n: VariantName) -> (r: UnionWriter<StreamWriter<Sink>>) requires w.tag_of(n) is Some, !defines_name(w.defined(), n) ensures declares_more(w, n, r) { unimplemented!() }
#[verifier::external_body] pub fn verif_write_unit(w: UnionWriter<StreamWriter<Sink>>, n: VariantName) -> (r: Result<UnionWriter<StreamWriter<Sink>>, BuildError>) ensures r is Ok ==> same_variants(w, r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn verif_define_complete(w: UnionWriter<StreamWriter<Sink>>) -> (r: UnionWriter<StreamWriter<Sink>>) ensures same_variants(w, r), 1 <= r.defined().len() <= 255 { unimplemented!() }
#[verifier::external_body] pub fn verif_write_complete(w: UnionWriter<StreamWriter<Sink>>) -> (r: UnionWriter<StreamWriter<Sink>>) { unimplemented!() }
pub open spec fn same_but_last(b: LibBuilder, r: LibBuilder) -> bool { r.lib_name == b.lib_name && r.known_libs == b.known_libs && r.types == b.types && r.extern_types == b.extern_types }
/// Each variant defined has its content recorded.
pub open spec fn recorded(u: UnionBuilder) -> bool { forall|i: int| 0 <= i < u.writer.defined().len() ==> u.variants@.contains_key((#[trigger] u.writer.defined()[i]).0.tag) }
/// The content of the variant of that name is recorded as this definition; all else stays.
pub open spec fn records(u: UnionBuilder, n: VariantName, ty: Ty<TranspileRef>, r: UnionBuilder) -> bool {
    &&& r.variants@ == u.variants@.insert(u.writer.tag_of(n)->Some_0, r.parent.last_compiled->Some_0) && embedded(r.parent.last_compiled, ty)
    &&& declares_more(u.writer, n, r.writer) && r.lib == u.lib && r.name == u.name
    &&& same_but_last(u.parent, r.parent)
}
pub open spec fn wrote(u: UnionBuilder, r: UnionBuilder) -> bool {
    same_variants(u.writer, r.writer) && r.lib == u.lib && r.name == u.name && r.variants == u.variants && same_but_last(u.parent, r.parent)
}
pub open spec fn union_reported(u: UnionBuilder, r: LibBuilder) -> bool { exists|ty: Ty<TranspileRef>| with_variants(u.writer.defined(), u.variants@, ty) && #[trigger] reported(u.parent, u.lib, u.name, ty, r) }
pub open spec fn enum_reported(u: UnionBuilder, r: LibBuilder) -> bool { exists|ty: Ty<TranspileRef>| with_names(u.writer.defined(), ty) && #[trigger] reported(u.parent, u.lib, u.name, ty, r) }
pub open spec fn union_reportable(u: UnionBuilder) -> bool { forall|ty: Ty<TranspileRef>| with_variants(u.writer.defined(), u.variants@, ty) ==> #[trigger] reportable(u.parent, u.lib, u.name, ty) }
pub open spec fn enum_reportable(u: UnionBuilder) -> bool { forall|ty: Ty<TranspileRef>| with_names(u.writer.defined(), ty) ==> #[trigger] reportable(u.parent, u.lib, u.name, ty) }
impl UnionBuilder {
//@fn src/typelib/transpile.rs <UnionBuilder as DefineUnion>::define_unit
//@ ret r
//@ subst ?DefineUnion::define_unit ==> verif_define_unit
//@ subst ?Ty::UNIT ==> Ty::<TranspileRef>::Primitive(Primitive { code: 0 })
//@ spec requires self.writer.tag_of(name) is Some, !defines_name(self.writer.defined(), name)
//@ spec ensures records(self, name, Ty::Primitive(Primitive { code: 0 }), r), recorded(self) ==> recorded(r)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as DefineEnum>::define_variant
//@ ret r
//@ subst ?DefineEnum::define_variant ==> verif_define_unit
//@ subst ?Ty::U8 ==> Ty::<TranspileRef>::Primitive(Primitive { code: 1 })
//@ spec requires self.writer.tag_of(name) is Some, !defines_name(self.writer.defined(), name)
//@ spec ensures records(self, name, Ty::Primitive(Primitive { code: 1 }), r), recorded(self) ==> recorded(r)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as WriteUnion>::write_unit
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ subst ?WriteUnion::write_unit ==> verif_write_unit
//@ subst ?Ty::UNIT ==> Ty::<TranspileRef>::Primitive(Primitive { code: 0 })
//@ spec ensures r is Ok ==> wrote(self, r->Ok_0)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as WriteEnum>::write_variant
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ subst ?WriteEnum::write_variant ==> verif_write_unit
//@ subst ?Ty::U8 ==> Ty::<TranspileRef>::Primitive(Primitive { code: 1 })
//@ spec ensures r is Ok ==> wrote(self, r->Ok_0)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as DefineUnion>::complete
//@ name define_union_complete
//@ sigsub Self::UnionWriter ==> Self
//@ ret r
//@ spec requires recorded(self), 1 <= self.writer.defined().len() <= 255, union_reportable(self)
//@ spec ensures union_reported(self, r.parent), r.lib == self.lib, r.name == self.name, r.variants == self.variants
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as DefineEnum>::complete
//@ name define_enum_complete
//@ sigsub Self::EnumWriter ==> Self
//@ ret r
//@ spec requires 1 <= self.writer.defined().len() <= 255, enum_reportable(self)
//@ spec ensures enum_reported(self, r.parent), r.lib == self.lib, r.name == self.name, r.variants == self.variants, same_variants(self.writer, r.writer)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as WriteUnion>::complete
//@ name write_union_complete
//@ ret r
//@ spec requires recorded(self), 1 <= self.writer.defined().len() <= 255, union_reportable(self)
//@ spec ensures union_reported(self, r)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as WriteEnum>::complete
//@ name write_enum_complete
//@ ret r
//@ spec requires 1 <= self.writer.defined().len() <= 255, enum_reportable(self)
//@ spec ensures enum_reported(self, r)
//@end
}
// --- fields
#[verifier::external_body] pub struct StructRest { _x: () }
impl StructRest { pub uninterp spec fn tuple(&self) -> bool; }
impl<W, P> StructWriter<W, P> {
    pub uninterp spec fn parent(&self) -> P;
    #[verifier::external_body] pub fn into_parent_split(self) -> (r: (P, StructRest)) ensures r.0 == self.parent(), r.1.tuple() == self.tuple() { unimplemented!() }
    #[verifier::external_body] pub fn from_parent_split(p: P, rest: StructRest) -> (r: Self) ensures r.parent() == p, r.tuple() == rest.tuple() { unimplemented!() }
    #[verifier::external_body] pub fn verif_complete(self) -> (r: P) ensures r == self.parent() { unimplemented!() }
}
pub type SWriter<P> = StructWriter<StreamWriter<Sink>, P>;
pub open spec fn same_writer<P>(w: SWriter<P>, r: SWriter<P>) -> bool { r.parent() == w.parent() && r.tuple() == w.tuple() }
#[verifier::external_body] pub fn verif_define_field<T, P>(w: SWriter<P>, n: FieldName) -> (r: SWriter<P>) ensures same_writer(w, r) { unimplemented!() }
#[verifier::external_body] pub fn verif_define_item<T, P>(w: SWriter<P>) -> (r: SWriter<P>) ensures same_writer(w, r) { unimplemented!() }
#[verifier::external_body] pub fn verif_write_field<T, P>(w: SWriter<P>, n: FieldName, v: &T) -> (r: Result<SWriter<P>, BuildError>) ensures r is Ok ==> same_writer(w, r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn verif_write_item<T, P>(w: SWriter<P>, v: &T) -> (r: Result<SWriter<P>, BuildError>) ensures r is Ok ==> same_writer(w, r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn verif_complete_tuple<P>(w: SWriter<P>) -> (r: P) ensures r == w.parent() { unimplemented!() }
#[verifier::external_body] pub fn verif_complete_struct<P>(w: SWriter<P>) -> (r: P) ensures r == w.parent() { unimplemented!() }
/// A field more, of the type of the value, under that name.
pub open spec fn one_more<P: BuilderParent>(b: StructBuilder<P>, n: Option<FieldName>, r: StructBuilder<P>) -> bool {
    &&& r.lib == b.lib && r.name == b.name && r.writer.tuple() == b.writer.tuple() && r.fields@.len() == b.fields@.len() + 1
    &&& r.fields@ =~= b.fields@.push((n, r.fields@.last().1))
}
pub open spec fn field_added<T: StrictEncode, P: BuilderParent>(b: StructBuilder<P>, v: &T, n: Option<FieldName>, r: StructBuilder<P>) -> bool {
    one_more(b, n, r) && b.writer.parent().compiled_by::<T>(v, r.writer.parent(), r.fields@.last().1)
}
pub open spec fn field_defined<T: StrictEncode, P: BuilderParent>(b: StructBuilder<P>, n: Option<FieldName>, r: StructBuilder<P>) -> bool {
    one_more(b, n, r) && exists|v: T| #[trigger] b.writer.parent().compiled_by::<T>(&v, r.writer.parent(), r.fields@.last().1)
}
pub open spec fn struct_ready<P: BuilderParent>(b: StructBuilder<P>) -> bool {
    &&& b.fields@.len() <= 255 && (!b.writer.tuple() ==> forall|i: int| 0 <= i < b.fields@.len() ==> (#[trigger] b.fields@[i]).0 is Some)
    &&& forall|ty: Ty<TranspileRef>| #[trigger] with_fields(b.fields@, b.writer.tuple(), ty) ==> b.writer.parent().reportable_to(b.lib, b.name, ty)
}
pub open spec fn struct_reported<P: BuilderParent>(b: StructBuilder<P>, r: P) -> bool { exists|ty: Ty<TranspileRef>| #[trigger] with_fields(b.fields@, b.writer.tuple(), ty) && b.writer.parent().reported_to(b.lib, b.name, ty, r) }
impl<P: BuilderParent> StructBuilder<P> {
//@fn src/typelib/transpile.rs StructBuilder::with
//@ ret r
//@ spec ensures r.lib == lib, r.name == name, r.writer == writer, r.fields@.len() == 0, r.cursor == (if definer { Some(0u8) } else { None })
//@end
//@fn src/typelib/transpile.rs StructBuilder::_define_field
//@ ret r
//@ spec requires self.writer.parent().compilable_by::<T>()
//@ spec ensures field_defined::<T, P>(self, fname, r), r.cursor == self.cursor
//@end
//@fn src/typelib/transpile.rs StructBuilder::_write_field
//@ sigsub fn _write_field ==> fn _write_field<T: StrictEncode>
//@ sigsub impl StrictEncode ==> T
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ spec requires self.writer.parent().compilable_by::<T>(), self.cursor is None
//@ spec ensures r is Ok, field_added::<T, P>(self, value, fname, r->Ok_0), (r->Ok_0).cursor is None
//@end
//@fn src/typelib/transpile.rs StructBuilder::_complete_definition
//@ ret r
//@ subst ?DefineTuple::complete ==> verif_complete_tuple
//@ subst ?DefineStruct::complete ==> verif_complete_struct
//@ spec requires struct_ready(self)
//@ spec ensures struct_reported(self, r)
//@end
//@fn src/typelib/transpile.rs StructBuilder::_complete_write
//@ ret r
//@ subst ?WriteTuple::complete ==> verif_complete_tuple
//@ subst ?WriteStruct::complete ==> verif_complete_struct
//@ spec requires struct_ready(self), self.cursor is None
//@ spec ensures struct_reported(self, r)
//@end
//@fn src/typelib/transpile.rs <StructBuilder as DefineStruct>::define_field
//@ ret r
//@ subst ?DefineStruct::define_field::<T> ==> verif_define_field::<T, P>
//@ spec requires self.writer.parent().compilable_by::<T>()
//@ spec ensures field_defined::<T, P>(self, Some(name), r), r.cursor == self.cursor
//@end
//@fn src/typelib/transpile.rs <StructBuilder as DefineTuple>::define_field
//@ name define_item
//@ ret r
//@ subst ?DefineTuple::define_field::<T> ==> verif_define_item::<T, P>
//@ spec requires self.writer.parent().compilable_by::<T>()
//@ spec ensures field_defined::<T, P>(self, None, r), r.cursor == self.cursor
//@end
//@fn src/typelib/transpile.rs <StructBuilder as WriteStruct>::write_field
//@ sigsub fn write_field ==> fn write_field<T: StrictEncode>
//@ sigsub impl StrictEncode ==> T
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ subst ?WriteStruct::write_field ==> verif_write_field
//@ spec requires self.writer.parent().compilable_by::<T>(), self.cursor is None
//@ spec ensures r is Ok ==> field_added::<T, P>(self, value, Some(name), r->Ok_0) && (r->Ok_0).cursor is None
//@end
//@fn src/typelib/transpile.rs <StructBuilder as WriteTuple>::write_field
//@ name write_item
//@ sigsub fn write_field ==> fn write_field<T: StrictEncode>
//@ sigsub impl StrictEncode ==> T
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ subst ?WriteTuple::write_field ==> verif_write_item
//@ spec requires self.writer.parent().compilable_by::<T>(), self.cursor is None
//@ spec ensures r is Ok ==> field_added::<T, P>(self, value, None, r->Ok_0) && (r->Ok_0).cursor is None
//@end
}
// --- types without a definition of their own (TypedWrite for LibBuilder)
pub open spec fn embedded(t: Option<TranspileRef>, ty: Ty<TranspileRef>) -> bool { t is Some && t->Some_0 is Embedded && *(t->Some_0->Embedded_0) == ty }
/// The builder changes in nothing but the type last told, which is this definition.
pub open spec fn only_last(b: LibBuilder, ty: Ty<TranspileRef>, r: LibBuilder) -> bool { r == (LibBuilder { last_compiled: r.last_compiled, ..b }) && embedded(r.last_compiled, ty) }
/// The definition made of the type of one value.
pub open spec fn of_one<T: StrictEncode>(b: LibBuilder, v: &T, f: spec_fn(TranspileRef) -> Ty<TranspileRef>, r: LibBuilder) -> bool {
    exists|m: LibBuilder| #[trigger] v.tells(b, m) && m.last_compiled is Some && only_last(m, f(m.last_compiled->Some_0), r)
}
/// ... and of those of two values.
pub open spec fn of_two<T: StrictEncode, U: StrictEncode>(b: LibBuilder, v: &T, w: &U, f: spec_fn(TranspileRef, TranspileRef, Ty<TranspileRef>) -> bool, r: LibBuilder) -> bool {
    exists|m: LibBuilder, o: LibBuilder, n: LibBuilder| #[trigger] v.tells(b, m) && #[trigger] w.tells(o, n) && o == (LibBuilder { last_compiled: o.last_compiled, ..m })
        && m.last_compiled is Some && n.last_compiled is Some
        && r == (LibBuilder { last_compiled: r.last_compiled, ..n }) && r.last_compiled is Some && r.last_compiled->Some_0 is Embedded
        && f(m.last_compiled->Some_0, n.last_compiled->Some_0, *(r.last_compiled->Some_0->Embedded_0))
}
impl vstd::std_specs::convert::FromSpecImpl<Ty<TranspileRef>> for TranspileRef {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: Ty<TranspileRef>) -> Self { TranspileRef::Embedded(Box::new(t)) }
}
/// derived (`#[from]`)
impl From<Ty<TranspileRef>> for TranspileRef { fn from(t: Ty<TranspileRef>) -> (r: Self) { TranspileRef::Embedded(Box::new(t)) } }
#[verifier::external_body]
pub fn verif_pair(a: [TranspileRef; 2]) -> (r: UnnamedFields<TranspileRef>) ensures r@ == a@ { unimplemented!() }
impl LibBuilder {
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::register_primitive
//@ sigsub unsafe fn ==> fn
//@ ret r
//@ spec ensures only_last(self, Ty::Primitive(prim), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::register_unicode
//@ sigsub unsafe fn ==> fn
//@ ret r
//@ spec ensures only_last(self, Ty::List(TranspileRef::Embedded(Box::new(Ty::UnicodeChar)), sizing), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::register_array
//@ sigsub unsafe fn register_array ==> fn register_array<T: StrictEncode>
//@ sigsub impl StrictEncode ==> T
//@ ret r
//@ spec ensures of_one(self, ty, |t: TranspileRef| Ty::Array(t, len), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::register_list
//@ sigsub unsafe fn register_list ==> fn register_list<T: StrictEncode>
//@ sigsub impl StrictEncode ==> T
//@ ret r
//@ spec ensures of_one(self, ty, |t: TranspileRef| Ty::List(t, sizing), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::register_set
//@ sigsub unsafe fn register_set ==> fn register_set<T: StrictEncode>
//@ sigsub impl StrictEncode ==> T
//@ ret r
//@ spec ensures of_one(self, ty, |t: TranspileRef| Ty::Set(t, sizing), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::register_map
//@ sigsub unsafe fn register_map ==> fn register_map<K: StrictEncode, T: StrictEncode>
//@ sigsub key: &impl StrictEncode ==> key: &K
//@ sigsub ty: &impl StrictEncode ==> ty: &T
//@ ret r
//@ spec ensures of_two(self, key, ty, |k: TranspileRef, t: TranspileRef, d: Ty<TranspileRef>| d == Ty::Map(k, t, sizing), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::register_rstring
//@ sigsub unsafe fn register_rstring ==> fn register_rstring<C: StrictEncode, D: StrictEncode>
//@ sigsub c: &impl StrictEncode ==> c: &C
//@ sigsub c1: &impl StrictEncode ==> c1: &D
//@ ret r
//@ subst ?NonEmptyVec::from_iter_checked([ty1, list]).into() ==> verif_pair([ty1, list])
//@ spec requires sizing.min >= 1, sizing.max >= 1
//@ spec ensures of_two(self, c1, c, |a: TranspileRef, t: TranspileRef, d: Ty<TranspileRef>| restricted(a, t, sizing, d), r)
//@end
}
/// The first character, and a list of others.
pub open spec fn restricted(a: TranspileRef, t: TranspileRef, sizing: Sizing, d: Ty<TranspileRef>) -> bool {
    d matches Ty::Tuple(u) && u@.len() == 2 && u@[0] == a && embedded(Some(u@[1]), Ty::List(t, Sizing { min: (sizing.min - 1) as u64, max: (sizing.max - 1) as u64 }))
}
// --- builders for the types given
/// strict_encoding: the variants of a union or enumeration (`ALL_VARIANTS`).
pub trait StrictSum: StrictEncode {
    spec fn all_variants() -> Seq<Variant>;
    fn verif_all() -> (r: VIter<&'static (u8, &'static str)>) ensures r.fresh(r.all()), r.all().len() == Self::all_variants().len(), 1 <= r.all().len() <= 255, distinct_names(Self::all_variants()),
        forall|i: int| #![trigger r.all()[i]] #![trigger Self::all_variants()[i]] 0 <= i < r.all().len() ==> lit_bytes(r.all()[i].1) == Self::all_variants()[i].name.bytes() && r.all()[i].0 == Self::all_variants()[i].tag;
    fn variant_name(&self) -> (r: &'static str);
}
pub open spec fn distinct_names(s: Seq<Variant>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).name != (#[trigger] s[j]).name }
pub open spec fn knows_tags<T: StrictSum>(w: UnionWriter<StreamWriter<Sink>>) -> bool { forall|i: int| 0 <= i < T::all_variants().len() ==> w.tag_of((#[trigger] T::all_variants()[i]).name) == Some(T::all_variants()[i].tag) }
pub open spec fn among(s: Seq<Variant>, n: int, v: Variant) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == v }
/// The enumeration of all the variants of the type.
pub open spec fn enum_of<T: StrictSum>(ty: Ty<TranspileRef>) -> bool { ty matches Ty::Enum(u) && u@.len() == T::all_variants().len() && forall|v: Variant| #[trigger] u@.contains(v) <==> T::all_variants().contains(v) }
/// Sets of variants are equal when they list the same.
#[verifier::external_body] pub proof fn enum_ext(a: EnumVariants, b: EnumVariants) requires a@ == b@ ensures a == b { }
pub proof fn lemma_names_all<T: StrictSum, V>(d: Seq<(Variant, V)>)
    requires d.len() == T::all_variants().len(), forall|v: Variant| #[trigger] defines(d, v) <==> among(T::all_variants(), d.len() as int, v)
    ensures forall|ty: Ty<TranspileRef>| #[trigger] with_names(d, ty) ==> enum_of::<T>(ty), forall|a: Ty<TranspileRef>, b: Ty<TranspileRef>| #[trigger] with_names(d, a) && #[trigger] with_names(d, b) ==> a == b
{
    assert forall|ty: Ty<TranspileRef>| #[trigger] with_names(d, ty) implies enum_of::<T>(ty) by {
        let u = ty->Enum_0;
        assert forall|v: Variant| #[trigger] u@.contains(v) <==> T::all_variants().contains(v) by {
            if u@.contains(v) { let i = choose|i: int| 0 <= i < u@.len() && u@[i] == v; assert(d[i].0 == v); assert(defines(d, v)); }
            if T::all_variants().contains(v) {
                let i = choose|i: int| 0 <= i < T::all_variants().len() && T::all_variants()[i] == v;
                assert(among(T::all_variants(), d.len() as int, v));
                assert(defines(d, v));
                let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == v;
                assert(u@[j] == v);
            }
        }
    }
    assert forall|a: Ty<TranspileRef>, b: Ty<TranspileRef>| #[trigger] with_names(d, a) && #[trigger] with_names(d, b) implies a == b by {
        assert(a->Enum_0@ =~= b->Enum_0@);
        enum_ext(a->Enum_0, b->Enum_0);
    }
}
/// Told of a definition, of the name and library of the type, with the definition and with the value.
pub open spec fn told_twice<T: StrictSum>(b: LibBuilder, ty: Ty<TranspileRef>, r: LibBuilder) -> bool {
    exists|l: LibName, m1: LibBuilder, m2: LibBuilder, m3: LibBuilder| #![trigger reported(m1, l, T::type_name(), ty, m2), reported(m3, l, T::type_name(), ty, r)]
        l.bytes() == T::lib_bytes() && same_but_last(b, m1) && reported(m1, l, T::type_name(), ty, m2) && same_but_last(m2, m3) && reported(m3, l, T::type_name(), ty, r)
}
/// strict_encoding: the library of a type, and the writers made for it.
#[verifier::external_body] pub fn verif_lib_of<T: StrictEncode>() -> (r: LibName) ensures r.bytes() == T::lib_bytes() { unimplemented!() }
impl StructWriter<StreamWriter<Sink>, LibBuilder> {
    #[verifier::external_body] pub fn verif_tuple<T: StrictEncode>(p: LibBuilder) -> (r: Self) ensures r.parent() == p, r.tuple() { unimplemented!() }
    #[verifier::external_body] pub fn verif_structure<T: StrictEncode>(p: LibBuilder) -> (r: Self) ensures r.parent() == p, !r.tuple() { unimplemented!() }
}
impl UnionWriter<StreamWriter<Sink>> {
    #[verifier::external_body] pub fn verif_with_sum<T: StrictSum>() -> (r: Self) ensures r.defined().len() == 0, knows_tags::<T>(r) { unimplemented!() }
    #[verifier::external_body] pub fn sink() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn into_write_split(self) -> (r: (StreamWriter<Sink>, Self)) ensures same_variants(self, r.1) { unimplemented!() }
}
impl VDefault for BTreeMap<u8, TranspileRef> { open spec fn dflt(self) -> bool { self@ == Map::<u8, TranspileRef>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl BTreeMap<u8, TranspileRef> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn verif_sink() -> (r: StreamWriter<Sink>) { unimplemented!() }
#[verifier::external_body] pub fn verif_no_libs(l: LibName) -> (r: LibBuilder) { unimplemented!() }
/// The builder of a structure or tuple of type `T`, without fields.
pub open spec fn fresh_struct<T: StrictEncode>(p: LibBuilder, tuple: bool, b: StructBuilder<LibBuilder>) -> bool {
    b.lib.bytes() == T::lib_bytes() && b.name == T::type_name() && b.writer.parent() == p && b.writer.tuple() == tuple && b.fields@.len() == 0 && b.cursor is None
}
/// The builder of a union or enumeration of type `T`, without variants.
pub open spec fn fresh_union<T: StrictSum>(p: LibBuilder, b: UnionBuilder) -> bool {
    knows_tags::<T>(b.writer) && b.lib.bytes() == T::lib_bytes() && b.name == T::type_name() && b.parent == p && b.writer.defined().len() == 0 && b.variants@ == Map::<u8, TranspileRef>::empty()
}
impl UnionBuilder {
//@fn src/typelib/transpile.rs UnionBuilder::with
//@ ret r
//@ subst ?libname!(T::STRICT_LIB_NAME) ==> verif_lib_of::<T>()
//@ subst ?empty!() ==> BTreeMap::new()
//@ subst ?UnionWriter::with::<T>(StrictWriter::sink::<MAX_WRITE_COUNT>()) ==> UnionWriter::verif_with_sum::<T>()
//@ spec ensures fresh_union::<T>(parent, r)
//@end
//@fn src/typelib/transpile.rs UnionBuilder::_fork
//@ ret r
//@ subst ?LibBuilder::with(self.lib.clone(), None) ==> verif_no_libs(self.lib.clone())
//@ spec ensures r.lib == self.lib, r.name == self.name, r.variants@ == self.variants@
//@end
//@fn src/typelib/transpile.rs UnionBuilder::into_split
//@ ret r
//@ spec ensures same_variants(self.writer, r.0), r.1 == (UnionBuilder { writer: r.1.writer, ..self })
//@end
}
impl LibBuilder {
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::write_enum
//@ sigsub T: StrictEnum ==> T: StrictSum
//@ sigsub where u8: From<T> ==>
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ subst ?T::ALL_VARIANTS ==> T::verif_all()
//@ subst ?vname!(*name) ==> verif_vname(*name)
//@ subst ?vname!(value.variant_name()) ==> verif_vname(value.variant_name())
//@ subst ?DefineEnum::complete ==> UnionBuilder::define_enum_complete
//@ subst ?WriteEnum::complete ==> UnionBuilder::write_enum_complete
//@ spec requires forall|l: LibName, ty: Ty<TranspileRef>| l.bytes() == T::lib_bytes() && enum_of::<T>(ty) ==> #[trigger] reportable(self, l, T::type_name(), ty)
//@ spec ensures r is Ok ==> exists|ty: Ty<TranspileRef>| #[trigger] enum_of::<T>(ty) && told_twice::<T>(self, ty, r->Ok_0)
//@ loop 1
 __all1.len() == T::all_variants().len(), 1 <= __all1.len() <= 255, distinct_names(T::all_variants()),
 forall|i: int| #![trigger __all1[i]] #![trigger T::all_variants()[i]] 0 <= i < __all1.len() ==> lit_bytes(__all1[i].1) == T::all_variants()[i].name.bytes(),
 knows_tags::<T>(writer.writer), same_but_last(self, writer.parent), writer.lib.bytes() == T::lib_bytes(), writer.name == T::type_name(),
 writer.writer.defined().len() == __it1.pos(), forall|v: Variant| #[trigger] defines(writer.writer.defined(), v) <==> among(T::all_variants(), __it1.pos(), v),
//@ at at loop 1 start
 broadcast use variant_name_ext;
 let ghost k = __it1.pos() - 1; let ghost v0 = T::all_variants()[k]; let ghost d0 = writer.writer.defined();
 proof {
  assert(lit_bytes(__all1[k].1) == v0.name.bytes());
  if defines_name(d0, v0.name) {
   let j = choose|j: int| 0 <= j < d0.len() && (#[trigger] d0[j]).0.name == v0.name;
   assert(defines(d0, d0[j].0));
   let i = choose|i: int| 0 <= i < k && #[trigger] T::all_variants()[i] == d0[j].0;
   assert(T::all_variants()[i].name != T::all_variants()[k].name);
  }
  assert(v0 == Variant { name: v0.name, tag: v0.tag });
 }
//@ at at loop 1 end
 proof {
  let d1 = writer.writer.defined();
  assert forall|v: Variant| #[trigger] defines(d1, v) <==> among(T::all_variants(), k + 1, v) by {
   assert(defines(d0, v) <==> among(T::all_variants(), k, v));
   if among(T::all_variants(), k + 1, v) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] T::all_variants()[i] == v; if i < k { assert(among(T::all_variants(), k, v)); } }
   if v == v0 { assert(T::all_variants()[k] == v); }
   if among(T::all_variants(), k, v) { let i = choose|i: int| 0 <= i < k && #[trigger] T::all_variants()[i] == v; assert(among(T::all_variants(), k + 1, v)); }
  }
 }
//@ at after loop 1
 let ghost m1 = writer.parent; let ghost l1 = writer.lib;
 proof { lemma_names_all::<T, VariantType>(writer.writer.defined()); assert forall|ty: Ty<TranspileRef>| #[trigger] with_names(writer.writer.defined(), ty) implies reportable(self, l1, T::type_name(), ty) && reportable(writer.parent, writer.lib, writer.name, ty) by { assert(reportable(self, l1, T::type_name(), ty)); } }
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::write_union
//@ sigsub fn write_union<T: StrictUnion> ==> fn write_union<T: StrictSum, F: FnOnce(UnionBuilder) -> Result<LibBuilder, BuildError>>
//@ sigsub inner: impl FnOnce(Self::UnionDefiner) -> io::Result<Self> ==> inner: F
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ spec requires forall|b: UnionBuilder| fresh_union::<T>(self, b) ==> #[trigger] inner.requires((b,))
//@ spec ensures exists|b: UnionBuilder| fresh_union::<T>(self, b) && #[trigger] inner.ensures((b,), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::write_tuple
//@ sigsub fn write_tuple<T: StrictTuple> ==> fn write_tuple<T: StrictEncode, F: FnOnce(StructBuilder<LibBuilder>) -> Result<LibBuilder, BuildError>>
//@ sigsub inner: impl FnOnce(Self::TupleWriter) -> io::Result<Self> ==> inner: F
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ subst ?libname!(T::STRICT_LIB_NAME) ==> verif_lib_of::<T>()
//@ subst ?StructWriter::tuple::<T> ==> StructWriter::verif_tuple::<T>
//@ spec requires forall|b: StructBuilder<LibBuilder>| fresh_struct::<T>(self, true, b) ==> #[trigger] inner.requires((b,))
//@ spec ensures exists|b: StructBuilder<LibBuilder>| fresh_struct::<T>(self, true, b) && #[trigger] inner.ensures((b,), r)
//@end
//@fn src/typelib/transpile.rs <LibBuilder as TypedWrite>::write_struct
//@ sigsub fn write_struct<T: StrictStruct> ==> fn write_struct<T: StrictEncode, F: FnOnce(StructBuilder<LibBuilder>) -> Result<LibBuilder, BuildError>>
//@ sigsub inner: impl FnOnce(Self::StructWriter) -> io::Result<Self> ==> inner: F
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ ret r
//@ subst ?libname!(T::STRICT_LIB_NAME) ==> verif_lib_of::<T>()
//@ subst ?StructWriter::structure::<T> ==> StructWriter::verif_structure::<T>
//@ spec requires forall|b: StructBuilder<LibBuilder>| fresh_struct::<T>(self, false, b) ==> #[trigger] inner.requires((b,))
//@ spec ensures exists|b: StructBuilder<LibBuilder>| fresh_struct::<T>(self, false, b) && #[trigger] inner.ensures((b,), r)
//@end
}
// --- nested variants
/// strict_encoding: the variant is declared, then the fields are told to a writer of its own, whose parent is handed back.
#[verifier::external_body] pub fn verif_define_tuple(w: UnionWriter<StreamWriter<Sink>>, n: VariantName) -> (r: StructWriter<StreamWriter<Sink>, UnionWriter<StreamWriter<Sink>>>) requires w.tag_of(n) is Some, !defines_name(w.defined(), n) ensures declares_more(w, n, r.parent()) { unimplemented!() }
#[verifier::external_body] pub fn verif_write_tuple(w: UnionWriter<StreamWriter<Sink>>, n: VariantName) -> (r: Result<StructWriter<StreamWriter<Sink>, UnionWriter<StreamWriter<Sink>>>, BuildError>) ensures r is Ok ==> same_variants(w, (r->Ok_0).parent()) { unimplemented!() }
impl<P> StructWriter<StreamWriter<Sink>, P> {
    #[verifier::external_body] pub fn unnamed(p: P, tuple: bool) -> (r: Self) ensures r.parent() == p, r.tuple() == tuple { unimplemented!() }
}
/// The builder of the fields of a variant: unnamed, on top of all that is told already.
pub open spec fn nested(u: UnionBuilder, tuple: bool, b: StructBuilder<UnionBuilder>) -> bool {
    let p = b.writer.parent();
    b.lib == u.lib && b.name is None && b.fields@.len() == 0 && b.writer.tuple() == tuple && p.parent == u.parent && p.lib == u.lib && p.name == u.name && p.variants@ == u.variants@
}
pub open spec fn nested_def(u: UnionBuilder, n: VariantName, tuple: bool, b: StructBuilder<UnionBuilder>) -> bool { nested(u, tuple, b) && b.cursor == Some(0u8) && declares_more(u.writer, n, b.writer.parent().writer) }
pub open spec fn nested_write(u: UnionBuilder, tuple: bool, b: StructBuilder<UnionBuilder>) -> bool { nested(u, tuple, b) && b.cursor is None && same_variants(u.writer, b.writer.parent().writer) }
/// The fields told belong to the variant: its content is recorded as the type last told; whatever else they told the builder stays.
pub open spec fn nested_defined(u: UnionBuilder, n: VariantName, i: UnionBuilder, r: UnionBuilder) -> bool {
    &&& r.parent == i.parent && same_variants(i.writer, r.writer) && r.lib == u.lib && r.name == u.name
    &&& r.variants@ == u.variants@.insert(i.writer.tag_of(n)->Some_0, i.parent.last_compiled->Some_0)
}
pub open spec fn nested_written(u: UnionBuilder, i: UnionBuilder, r: UnionBuilder) -> bool {
    r.parent == i.parent && same_variants(i.writer, r.writer) && r.lib == u.lib && r.name == u.name && r.variants@ == u.variants@
}
pub open spec fn told_fields(u: UnionBuilder, n: VariantName, i: UnionBuilder) -> bool { i.parent.last_compiled is Some && i.writer.tag_of(n) == u.writer.tag_of(n) }
impl UnionBuilder {
//@fn src/typelib/transpile.rs <UnionBuilder as DefineUnion>::define_tuple
//@ sigsub fn define_tuple ==> fn define_tuple<F: FnOnce(StructBuilder<UnionBuilder>) -> UnionBuilder>
//@ sigsub inner: impl FnOnce(Self::TupleDefiner) -> Self ==> inner: F
//@ once define_tuple ==> verif_define_tuple
//@ ret r
//@ spec requires self.writer.tag_of(name) is Some, !defines_name(self.writer.defined(), name),
//@ spec   forall|b: StructBuilder<UnionBuilder>| nested_def(self, name, true, b) ==> #[trigger] inner.requires((b,)),
//@ spec   forall|b: StructBuilder<UnionBuilder>, i: UnionBuilder| nested_def(self, name, true, b) && #[trigger] inner.ensures((b,), i) ==> told_fields(self, name, i)
//@ spec ensures exists|b: StructBuilder<UnionBuilder>, i: UnionBuilder| nested_def(self, name, true, b) && #[trigger] inner.ensures((b,), i) && nested_defined(self, name, i, r)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as WriteUnion>::write_tuple
//@ sigsub fn write_tuple ==> fn write_tuple<F: FnOnce(StructBuilder<UnionBuilder>) -> Result<UnionBuilder, BuildError>>
//@ sigsub inner: impl FnOnce(Self::TupleWriter) -> io::Result<Self> ==> inner: F
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ once write_tuple ==> verif_write_tuple
//@ ret r
//@ spec requires forall|b: StructBuilder<UnionBuilder>| nested_write(self, true, b) ==> #[trigger] inner.requires((b,))
//@ spec ensures r is Ok ==> exists|b: StructBuilder<UnionBuilder>, i: UnionBuilder| nested_write(self, true, b) && #[trigger] inner.ensures((b,), Ok(i)) && nested_written(self, i, r->Ok_0)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as DefineUnion>::define_struct
//@ sigsub fn define_struct ==> fn define_struct<F: FnOnce(StructBuilder<UnionBuilder>) -> UnionBuilder>
//@ sigsub inner: impl FnOnce(Self::StructDefiner) -> Self ==> inner: F
//@ once define_struct ==> verif_define_tuple
//@ ret r
//@ spec requires self.writer.tag_of(name) is Some, !defines_name(self.writer.defined(), name),
//@ spec   forall|b: StructBuilder<UnionBuilder>| nested_def(self, name, false, b) ==> #[trigger] inner.requires((b,)),
//@ spec   forall|b: StructBuilder<UnionBuilder>, i: UnionBuilder| nested_def(self, name, false, b) && #[trigger] inner.ensures((b,), i) ==> told_fields(self, name, i)
//@ spec ensures exists|b: StructBuilder<UnionBuilder>, i: UnionBuilder| nested_def(self, name, false, b) && #[trigger] inner.ensures((b,), i) && nested_defined(self, name, i, r)
//@end
//@fn src/typelib/transpile.rs <UnionBuilder as WriteUnion>::write_struct
//@ sigsub fn write_struct ==> fn write_struct<F: FnOnce(StructBuilder<UnionBuilder>) -> Result<UnionBuilder, BuildError>>
//@ sigsub inner: impl FnOnce(Self::StructWriter) -> io::Result<Self> ==> inner: F
//@ sigsub io::Result<Self> ==> Result<Self, BuildError>
//@ once write_struct ==> verif_write_tuple
//@ ret r
//@ spec requires forall|b: StructBuilder<UnionBuilder>| nested_write(self, false, b) ==> #[trigger] inner.requires((b,))
//@ spec ensures r is Ok ==> exists|b: StructBuilder<UnionBuilder>, i: UnionBuilder| nested_write(self, false, b) && #[trigger] inner.ensures((b,), Ok(i)) && nested_written(self, i, r->Ok_0)
//@end
}
pub open spec fn lists<V>(s: Seq<(Dependency, V)>, d: Dependency) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == d }
pub open spec fn lists_whole<V>(s: Seq<(Dependency, V)>, e: (Dependency, V)) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]) == e }
pub open spec fn lists_value<V>(s: Seq<(Dependency, V)>, v: V) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).1 == v }
pub open spec fn covers<V>(s: Seq<(Dependency, V)>, d: Dependency) -> bool { exists|j: int| 0 <= j < s.len() && ((#[trigger] s[j]).0.id == d.id || s[j].0.name == d.name) }
pub open spec fn distinct_deps<V>(s: Seq<(Dependency, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.id != (#[trigger] s[j]).0.id && s[i].0.name != s[j].0.name }
pub open spec fn lists_entry(l: Seq<(Dependency, HashSet<SemId>)>, e: (Dependency, Option<HashSet<SemId>>)) -> bool { exists|j: int| 0 <= j < l.len() && (#[trigger] l[j]).0 == e.0 && Some(l[j].1) == e.1 }
/// The libraries and types listed, as given.
pub open spec fn knows(l: Seq<(Dependency, HashSet<SemId>)>, k: Known) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).1 is Some && lists_value(l, k[i].1->Some_0) && lists(l, k[i].0)
    &&& forall|j: int| 0 <= j < l.len() ==> covers(k, (#[trigger] l[j]).0)
    &&& distinct_deps(l) ==> forall|i: int| 0 <= i < k.len() ==> lists_entry(l, #[trigger] k[i])
}
/// The libraries listed, of which it isn't known what they provide.
pub open spec fn knows_names(l: Seq<Dependency>, k: Known) -> bool {
    &&& forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).1 is None && l.contains(k[i].0)
    &&& forall|j: int| 0 <= j < l.len() ==> covers(k, #[trigger] l[j])
}
/// (of entries with the same key, the first key and the last value are kept)
impl<V> VCollect<(Dependency, V)> for DepMap<V> {
    open spec fn collected(self, s: Seq<(Dependency, V)>) -> bool {
        &&& forall|i: int| 0 <= i < self.seq().len() ==> lists(s, (#[trigger] self.seq()[i]).0) && lists_value(s, self.seq()[i].1)
        &&& forall|j: int| 0 <= j < s.len() ==> covers(self.seq(), (#[trigger] s[j]).0)
        &&& distinct_deps(s) ==> forall|i: int| 0 <= i < self.seq().len() ==> lists_whole(s, #[trigger] self.seq()[i])
    }
}
impl LibBuilder {
//@fn src/typelib/transpile.rs LibBuilder::transpile
//@ ret r
//@ spec ensures exists|v: T| #[trigger] v.tells(self, r), r.last_compiled is Some, r.known_libs == self.known_libs, r.lib_name == self.lib_name
//@end
//@fn src/typelib/transpile.rs LibBuilder::new
//@ sigsub name: impl Into<LibName> ==> name: LibName
//@ sigsub known_libs: impl IntoIterator<Item = Dependency> ==> known_libs: Vec<Dependency>
//@ veciter
//@ ret r
//@ subst ?name.into() ==> name
//@ subst ?extern_types: empty!() ==> extern_types: HashMap::new()
//@ subst ?types: empty!() ==> types: HashMap::new()
//@ subst ?StreamWriter::sink::<MAX_WRITE_COUNT>() ==> verif_sink()
//@ closure 1 -> (__r: (Dependency, Option<HashSet<SemId>>)) ensures __r.0 == d, __r.1 is None
//@ spec ensures r.lib_name == name, r.types@ == Map::<TypeName, Ty<TranspileRef>>::empty(), r.extern_types@ == Map::<LibName, BTreeMap<SemId, TypeName>>::empty(), r.last_compiled is None,
//@ spec   knows_names(known_libs@, r.known_libs.seq())
//@end
//@fn src/typelib/transpile.rs LibBuilder::with
//@ name with_libs
//@ sigsub name: impl Into<LibName> ==> name: LibName
//@ sigsub known_libs: impl IntoIterator<Item = (Dependency, HashSet<SemId>)> ==> known_libs: Vec<(Dependency, HashSet<SemId>)>
//@ veciter
//@ ret r
//@ subst ?name.into() ==> name
//@ subst ?extern_types: empty!() ==> extern_types: HashMap::new()
//@ subst ?types: empty!() ==> types: HashMap::new()
//@ subst ?StreamWriter::sink::<MAX_WRITE_COUNT>() ==> verif_sink()
//@ closure 1 -> (__r: (Dependency, Option<HashSet<SemId>>)) ensures __r.0 == __a0.0, __r.1 == Some(__a0.1)
//@ spec ensures r.lib_name == name, r.types@ == Map::<TypeName, Ty<TranspileRef>>::empty(), r.extern_types@ == Map::<LibName, BTreeMap<SemId, TypeName>>::empty(), r.last_compiled is None,
//@ spec   knows(known_libs@, r.known_libs.seq())
//@end
}
