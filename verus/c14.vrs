#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
//@include vlib.vrs
//@include names.vrs
//@include maps.vrs
//@include ast.vrs
//@include sys.vrs
//@include ast_translate.vrs
//@include deps.vrs
//@include libs.vrs
//@include symbolic.vrs
//@include sym_compile.vrs
//@include sym_unknown.vrs
//@include sym_lib.vrs
fn main() {}
}
