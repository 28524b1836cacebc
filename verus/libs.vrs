// ---------------------------------------------------------------------------------------------
// Libraries (src/typelib/type_lib.rs)
// ---------------------------------------------------------------------------------------------
//@item src/typelib/type_lib.rs ExternRef
//@item src/typelib/type_lib.rs InlineRef2
//@item src/typelib/type_lib.rs InlineRef1
//@item src/typelib/type_lib.rs InlineRef
//@item src/typelib/type_lib.rs LibRef
conf_map!(TypeMap, 1, 65535);
pub type LibTys = Map<TypeName, Ty<LibRef>>;
