// constructors as functions
pub fn verif_mk_LibRef(t: Ty<InlineRef>) -> (r: LibRef) ensures r == LibRef::Inline(t) { LibRef::Inline(t) }
pub fn verif_mk_InlineRef(t: Ty<InlineRef1>) -> (r: InlineRef) ensures r == InlineRef::Inline(t) { InlineRef::Inline(t) }
pub fn verif_mk_InlineRef1(t: Ty<InlineRef2>) -> (r: InlineRef1) ensures r == InlineRef1::Inline(t) { InlineRef1::Inline(t) }
// --- translation of references, one level of nesting each (src/typelib/compile.rs)
impl Translate<InlineRef2> for TranspileRef {
    type Context = ();
    type Builder = NestedContext;
    type Error = CompileError;
    open spec fn sound(self) -> bool { sound_to(self, 0) }
    open spec fn translated(self, b0: NestedContext, ctx: (), b1: NestedContext, r: InlineRef2) -> bool { kept(b0, b1) && comp2(self, b0.index@, r) }
    open spec fn failed(self, b0: NestedContext, ctx: (), b1: NestedContext, e: CompileError) -> bool { refused(self, 0, b0, b1, e) }
//@fn src/typelib/compile.rs <TranspileRef as Translate<InlineRef2>>::translate
//@ subst ?ty.cls().to_string() ==> verif_string()
//@ subst ?s!("<unnamed>") ==> verif_string()
//@ subst ?path.join(".") ==> verif_string()
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (sound_to(self, 0), |b1: NestedContext, r: InlineRef2| comp2(self, __b0.index@, r), |b1: NestedContext, e: CompileError| refused(self, 0, __b0, b1, e));
 proof {
 if self is Named && !builder.index@.contains_key(self->Named_0) { lemma_unknown_name(self, builder.index@); }
 }
//@end
}
impl Translate<InlineRef1> for TranspileRef {
    type Context = ();
    type Builder = NestedContext;
    type Error = CompileError;
    open spec fn sound(self) -> bool { sound_to(self, 1) }
    open spec fn translated(self, b0: NestedContext, ctx: (), b1: NestedContext, r: InlineRef1) -> bool { kept(b0, b1) && comp1(self, b0.index@, r) }
    open spec fn failed(self, b0: NestedContext, ctx: (), b1: NestedContext, e: CompileError) -> bool { refused(self, 1, b0, b1, e) }
//@fn src/typelib/compile.rs <TranspileRef as Translate<InlineRef1>>::translate
//@ subst ?InlineRef1::Inline ==> verif_mk_InlineRef1
//@ subst ?ty.cls().to_string() ==> verif_string()
//@ subst ?s!("<unnamed>") ==> verif_string()
//@ subst ?path.join(".") ==> verif_string()
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (sound_to(self, 1), |b1: NestedContext, r: InlineRef1| comp1(self, __b0.index@, r), |b1: NestedContext, e: CompileError| refused(self, 1, __b0, b1, e));
 proof {
 if self is Named && !builder.index@.contains_key(self->Named_0) { lemma_unknown_name(self, builder.index@); }
 if self is Embedded {
  let t = *(self->Embedded_0);
  assert forall|d0: NestedContext, d1: NestedContext, u: Ty<InlineRef2>| #[trigger] <Ty<TranspileRef> as Translate<Ty<InlineRef2>>>::translated(t, d0, (), d1, u) implies kept(d0, d1) && is_comp(t, u, c2(d0.index@)) by {
    lemma_ty_translated::<InlineRef2>(t, d0, d1, u, c2(d0.index@));
  }
  assert forall|d0: NestedContext, d1: NestedContext, e: CompileError| #[trigger] <Ty<TranspileRef> as Translate<Ty<InlineRef2>>>::failed(t, d0, (), d1, e) implies kept(d0, d1) && refused(self, 1, d0, d1, e) by {
    lemma_ty_refused::<InlineRef2>(t, 0, d0, d1, e);
    reveal(ty_deep);
    if e is Continue { lemma_unknown_embedded(self, t, d0.index@); }
  }
 }
 }
//@end
}
impl Translate<InlineRef> for TranspileRef {
    type Context = ();
    type Builder = NestedContext;
    type Error = CompileError;
    open spec fn sound(self) -> bool { sound_to(self, 2) }
    open spec fn translated(self, b0: NestedContext, ctx: (), b1: NestedContext, r: InlineRef) -> bool { kept(b0, b1) && comp0(self, b0.index@, r) }
    open spec fn failed(self, b0: NestedContext, ctx: (), b1: NestedContext, e: CompileError) -> bool { refused(self, 2, b0, b1, e) }
//@fn src/typelib/compile.rs <TranspileRef as Translate<InlineRef>>::translate
//@ subst ?InlineRef::Inline ==> verif_mk_InlineRef
//@ subst ?ty.cls().to_string() ==> verif_string()
//@ subst ?s!("<unnamed>") ==> verif_string()
//@ subst ?path.join(".") ==> verif_string()
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (sound_to(self, 2), |b1: NestedContext, r: InlineRef| comp0(self, __b0.index@, r), |b1: NestedContext, e: CompileError| refused(self, 2, __b0, b1, e));
 proof {
 if self is Named && !builder.index@.contains_key(self->Named_0) { lemma_unknown_name(self, builder.index@); }
 if self is Embedded {
  let t = *(self->Embedded_0);
  assert forall|d0: NestedContext, d1: NestedContext, u: Ty<InlineRef1>| #[trigger] <Ty<TranspileRef> as Translate<Ty<InlineRef1>>>::translated(t, d0, (), d1, u) implies kept(d0, d1) && is_comp(t, u, c1(d0.index@)) by {
    lemma_ty_translated::<InlineRef1>(t, d0, d1, u, c1(d0.index@));
  }
  assert forall|d0: NestedContext, d1: NestedContext, e: CompileError| #[trigger] <Ty<TranspileRef> as Translate<Ty<InlineRef1>>>::failed(t, d0, (), d1, e) implies kept(d0, d1) && refused(self, 2, d0, d1, e) by {
    lemma_ty_refused::<InlineRef1>(t, 1, d0, d1, e);
    reveal(ty_deep);
    if e is Continue { lemma_unknown_embedded(self, t, d0.index@); }
  }
 }
 }
//@end
}
impl Translate<LibRef> for TranspileRef {
    type Context = ();
    type Builder = NestedContext;
    type Error = CompileError;
    open spec fn sound(self) -> bool { sound_to(self, 3) }
    open spec fn translated(self, b0: NestedContext, ctx: (), b1: NestedContext, r: LibRef) -> bool { kept(b0, b1) && compl(self, b0.index@, r) }
    open spec fn failed(self, b0: NestedContext, ctx: (), b1: NestedContext, e: CompileError) -> bool { refused(self, 3, b0, b1, e) }
//@fn src/typelib/compile.rs <TranspileRef as Translate<LibRef>>::translate
//@ subst ?LibRef::Inline ==> verif_mk_LibRef
//@ subst ?ty.cls().to_string() ==> verif_string()
//@ subst ?s!("<unnamed>") ==> verif_string()
//@ subst ?path.join(".") ==> verif_string()
//@ at start
 let ghost __b0 = *builder;
 let ghost __w = (sound_to(self, 3), |b1: NestedContext, r: LibRef| compl(self, __b0.index@, r), |b1: NestedContext, e: CompileError| refused(self, 3, __b0, b1, e));
 proof {
 if self is Named && !builder.index@.contains_key(self->Named_0) { lemma_unknown_name(self, builder.index@); }
 if self is Embedded {
  let t = *(self->Embedded_0);
  assert forall|d0: NestedContext, d1: NestedContext, u: Ty<InlineRef>| #[trigger] <Ty<TranspileRef> as Translate<Ty<InlineRef>>>::translated(t, d0, (), d1, u) implies kept(d0, d1) && is_comp(t, u, c0(d0.index@)) by {
    lemma_ty_translated::<InlineRef>(t, d0, d1, u, c0(d0.index@));
  }
  assert forall|d0: NestedContext, d1: NestedContext, e: CompileError| #[trigger] <Ty<TranspileRef> as Translate<Ty<InlineRef>>>::failed(t, d0, (), d1, e) implies kept(d0, d1) && refused(self, 3, d0, d1, e) by {
    lemma_ty_refused::<InlineRef>(t, 2, d0, d1, e);
    reveal(ty_deep);
    if e is Continue { lemma_unknown_embedded(self, t, d0.index@); }
  }
 }
 }
//@end
}
