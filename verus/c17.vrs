#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
//@include vlib.vrs
//@include names.vrs
//@include maps.vrs
//@include ast.vrs
//@include sys.vrs
//@include ast_translate.vrs
//@include deps.vrs
//@include dep_ord.vrs
//@include sys_symbols.vrs
//@include libs.vrs
//@include sys_builder.vrs
//@include sys_import.vrs
//@include sys_import_types.vrs
//@include sys_clients_types.vrs
fn main() {}
}
