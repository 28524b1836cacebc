#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
//@include vlib.vrs
//@include names.vrs
//@include maps.vrs
//@include ast.vrs
//@include sys.vrs
//@include ast_translate.vrs
//@include deps.vrs
//@include libs.vrs
//@include symbolic.vrs
//@include sym_compile.vrs
//@include sym_unknown.vrs
//@include sym_lib.vrs
//@include lib_build.vrs
//@include lib_finish.vrs
//@taken c14 <TranspileRef as Translate<InlineRef2>>::translate
//@taken c14 <TranspileRef as Translate<InlineRef1>>::translate
//@taken c14 <TranspileRef as Translate<InlineRef>>::translate
//@taken c14 <TranspileRef as Translate<LibRef>>::translate
//@taken c15 Ty<TranspileRef>::find_unknown
//@taken c14 SymbolicLib::compile
//@taken c14 <UnionVariants<Ref> as Translate<UnionVariants<ToRef>>>::translate
//@taken c14 <NamedFields<Ref> as Translate<NamedFields<ToRef>>>::translate
//@taken c14 <UnnamedFields<Ref> as Translate<UnnamedFields<ToRef>>>::translate
//@taken c14 <Ty<Ref> as Translate<Ty<ToRef>>>::translate
//@taken c14 TypeSystem::get
//@taken c14 ExternRef::with
//@taken c14 <ExternRef as From<SymbolRef>>::from
//@taken c15 LibBuilder::compile_symbols
//@taken c15 SymbolRef::with
//@taken c15 LibBuilder::dependency_id
fn main() {}
}
