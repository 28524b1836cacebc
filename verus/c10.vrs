#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include strs.vrs
//@include vlib.vrs
//@include names.vrs
//@include value.vrs
//@include maps.vrs
//@include ast.vrs
//@include ast_lookups.vrs
//@include sys.vrs
//@include conf.vrs
//@include rstr.vrs
//@include encode.vrs
//@include val_ctor.vrs
//@include seen.vrs
//@include typify.vrs
fn main() {}
}
