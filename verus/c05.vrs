#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include vlib.vrs
//@include names.vrs
//@include maps.vrs
//@include ast.vrs
//@include sys.vrs
//@include deps.vrs
//@include sys_symbols.vrs
//@include sys_symbols_fns.vrs
fn main() {}
}
