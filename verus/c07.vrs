#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include vlib.vrs
//@include names.vrs
//@include ast.vrs
//@include ast_lookups.vrs
impl<Ref: TypeRef> Ty<Ref> {
}
fn main() {}
}
