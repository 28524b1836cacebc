#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include strs.vrs
//@include vlib.vrs
//@include names.vrs
//@include value.vrs
//@include maps.vrs
//@include ast.vrs
//@include ast_lookups.vrs
//@include sys.vrs
//@include conf.vrs
//@include rstr.vrs
//@include encode.vrs
//@include val_ctor.vrs
//@include seen.vrs
/// Here it is shown which bytes are accepted; what they are read as, in unit c12.
pub open spec fn track() -> bool { false }
//@include accept.vrs
//@include decode.vrs
/// Whatever is written is read: for every value of every type of the system, of the kinds which the reader supports.
pub fn client_what_is_written_is_read(sys: &TypeSystem, val: &TypedVal, data: &[u8])
    requires wf_sys(sys@), conf(sys@, val.val, val.orig.id), sup(sys@, val.val, val.orig.id), data@ == enc(sys@, val.val, val.orig.id), data@.len() <= u32max()
{
    proof { lemma_accepted(sys@, val.val, val.orig.id); }
    let r = sys.strict_deserialize_type(val.orig.id, data);
    assert(r is Ok);
    assert((r->Ok_0).orig.id == val.orig.id && enc(sys@, (r->Ok_0).val, val.orig.id) == enc(sys@, val.val, val.orig.id));
}
fn main() {}
}
