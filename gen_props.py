#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so statements stay readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "A semantic id commits to exactly one type definition",
  "The semantic id of a type whose component types are given by their semantic ids is a fixed tagged SHA-256 hash over a byte string that depends on the type's class, every field, variant and type name, every tag, every size bound and every component id, in order, and on nothing else. Two such definitions that differ in any of these, and are both named or both unnamed, never feed the same byte string to the hash, so (short of a hash collision) they never share an id; equal definitions always share it.",
  ["inputs"], "all type definitions over semantic-id references, all names, tags, sizes, field and variant lists up to 255 entries",
  "The tests pin the ids of two standard libraries; they compare no pair of near-identical definitions, and injectivity is a statement about all pairs.",
  ["src/ast/id.rs", "src/ast/ty.rs", "src/util.rs"],
  [("canonical commitment bytes of each type class", "src/ast/id.rs impl SemCommit for Ty / Field / Variant / Sizing / names"),
   ("tagged hash, optional name prefix", "src/ast/id.rs Ty::sem_id_inner"), ("class code", "src/ast/ty.rs Ty::cls")],
  observe=["Ty::sem_id_unnamed", "Ty::sem_id_named", "TypeLib::to_dependency_types"])
p("C02", "Library and type-system ids commit to exact contents",
  "A type library's id is determined by exactly its name, the ids of its declared dependencies and the semantic ids of its types, and any change to one of these changes the bytes that are hashed; a type system's id is determined by exactly the set of semantic ids it contains. Neither id depends on the order in which libraries were imported, types were added or systems were merged.",
  ["inputs", "histories"], "all libraries, all type systems, all orders of building them",
  "Tests pin two library ids; no test varies contents or order, and the claim is about every pair of contents.",
  ["src/typelib/id.rs", "src/typesys/id.rs", "src/ast/id.rs"],
  [("library commitment", "src/typelib/id.rs impl SemCommit for TypeLib / Dependency"), ("system commitment", "src/typesys/id.rs impl SemCommit for TypeSystem"),
   ("tagged hashes", "TypeLib::id, TypeSystem::id")], observe=["TypeLib::id", "TypeSystem::id", "SymbolicSys::id"])
p("C03", "A successfully assembled type system is complete",
  "Assembling libraries into a type system succeeds only if every library any imported library depends on was itself imported and every type referenced by any type of the system is itself defined in the system. If it fails, the reported errors name exactly the missing libraries and the missing referenced types with the types that reference them.",
  ["inputs", "histories"], "all sets of libraries and import orders, including libraries with dangling or foreign references",
  "Tests assemble only complete systems from well-formed libraries; nothing feeds an incomplete set with all declared dependencies present.",
  ["src/typesys/translate.rs"],
  [("dependency tracking", "src/typesys/translate.rs SystemBuilder::import"), ("completeness check", "src/typesys/translate.rs SystemBuilder::finalize")],
  state=[dict(name="pending_deps / imported_deps / types", meaning="libraries still required, libraries imported, flattened types", where="src/typesys/translate.rs SystemBuilder")],
  observe=["SystemBuilder::finalize"])
p("C04", "Extracting types yields exactly their reachable closure",
  "Extracting a set of type ids from a type system returns a system containing exactly the types reachable from those ids through type references, each with the very definition it has in the original system. If any id reachable this way is not defined in the original system the extraction fails naming one such id; it always terminates, also on circular systems.",
  ["inputs"], "all type systems (complete, incomplete, circular) and all sets of root ids",
  "No test calls extraction; exactness of a transitive closure is a statement about every reference graph.",
  ["src/typesys/type_sys.rs"], [("worklist closure", "src/typesys/type_sys.rs TypeSystem::extract"), ("component iterator", "src/ast/iter.rs")],
  observe=["TypeSystem::extract"])
p("C05", "Type names and type ids resolve consistently both ways",
  "In an assembled symbolic type system, looking up a fully qualified name returns an id only if that id is registered under that name, and looking up an id returns the name registered for it; every type passed to the assembly is present with its definition and its name, and nothing else is. Names that are not registered, and ids of unnamed or unknown types, resolve to nothing.",
  ["inputs"], "all sets of types and names, all queries",
  "Tests resolve a handful of known names in one system; no test queries absent names, unnamed types or near-miss names.",
  ["src/typesys/symbols.rs", "src/typesys/type_sys.rs"],
  [("symbol table search", "src/typesys/symbols.rs Symbols::get / lookup"), ("assembly", "src/typesys/symbols.rs SymbolicSys::with, Symbols::update_unchecked"), ("spec resolution", "SymbolicSys::to_sem_id / get / resolve")],
  observe=["SymbolicSys::resolve", "SymbolicSys::lookup", "SymbolicSys::get", "SymbolicSys::to_sem_id"])
p("C06", "Enumerating a type's components covers each exactly once",
  "Enumerating the components of a type yields every directly referenced type exactly once, in declaration order (variants by tag), each labelled with its role, position and name, and then stays exhausted however often it is asked again. The number of items equals the reported component count and positional access returns the same components and labels and nothing beyond them, for every type up to the maximum of 255 fields or variants; none of these operations panics.",
  ["inputs", "histories"], "all types of all classes with 1 to 255 components, all positions 0 to 255, any number of calls",
  "Tests never enumerate a type at the size limit or past the end, and never compare positional access with enumeration.",
  ["src/ast/ty.rs", "src/ast/iter.rs", "src/ast/path.rs"],
  [("positional access", "src/ast/ty.rs Ty::ty_at / case_at"), ("iterators", "src/ast/iter.rs Iter / IntoIter"), ("count", "src/ast/path.rs Ty::count_type_refs")],
  observe=["Ty::iter", "Ty::into_iter", "Ty::type_refs", "Ty::ty_at", "Ty::case_at", "Ty::count_type_refs"])
p("C07", "Variant and field lookups by tag, name and position agree",
  "For every enumeration, union and structure, looking up by tag, by name or by position finds the variant or field that really carries that tag, name or position, with its own name, tag and type, and finds nothing when there is none. All lookup operations over the same type are mutually consistent.",
  ["inputs"], "all variant and field lists, all 256 tags and positions, all names",
  "Tests look up only a few existing variants; absent tags, sparse tags and cross-consistency are untested.",
  ["src/ast/ty.rs"], [("enum lookups", "src/ast/ty.rs EnumVariants"), ("union lookups", "src/ast/ty.rs UnionVariants"), ("field lookups", "src/ast/ty.rs NamedFields / UnnamedFields"), ("option recognition", "Ty::as_some")],
  observe=["EnumVariants::*", "UnionVariants::*", "NamedFields::*"])
p("C08", "Type paths resolve step by step from the root",
  "Resolving a type path applies its steps in order starting from the root type: each step selects the component of the current type that the step denotes, and the result is the type reached after the last step. If a step does not denote a component of the current type, resolution fails with the path walked so far; resolving a concatenated path equals resolving its parts one after the other, and the empty path is the type itself.",
  ["inputs"], "all types with embedded components, all paths of any length",
  "No test resolves a type path at all.",
  ["src/ast/path.rs"], [("path walk", "src/ast/path.rs Ty::at_path")], observe=["Ty::at_path"])
p("C09", "Value paths resolve step by step from the root",
  "Resolving a path inside a value applies its steps in order: each selects the tuple field by number, the structure field by name, the list or set item by index or the map entry by key of the current value, and the value reached after the last step is returned. A step that does not apply to the current value yields an error describing that step, never a panic and never some other value.",
  ["inputs"], "all values, all paths of any length",
  "No test resolves a value path; multi-step paths, out-of-range indexes and missing keys are all untested.",
  ["src/value/path.rs"], [("path walk", "src/value/path.rs StrictVal::at_path"), ("key match", "src/value/path.rs KeyStep::has_match")], observe=["StrictVal::at_path", "KeyStep::has_match"])
p("C10", "A value accepted for a type conforms to that type",
  "Whenever checking a value against a type of a type system succeeds, the resulting typed value conforms to it: numbers fit the width and sign of the primitive type, strings, byte strings, arrays and collections satisfy the size bounds and character set, structures and tuples have exactly the declared fields, enumeration and union tags exist, set members and map keys are distinct, and all nested values conform to their types. Values that cannot be made to conform are rejected with an error, never with a panic.",
  ["inputs"], "all values against all types of all type systems without circular types, in which the names within an enumeration, union or structure differ",
  "Tests check two well-formed values; no test feeds an out-of-range number, wrong size, missing field or duplicate.",
  ["src/value/typify.rs"], [("checker", "src/value/typify.rs TypeSystem::typify"), ("number classes", "src/value/typify.rs impl PrimitiveValue for Primitive")],
  observe=["TypeSystem::typify", "SymbolicSys::typify"])
p("C11", "Typed values always serialize to their strict encoding",
  "Serializing a typed value never panics and, up to I/O failure or the requested size limit, writes exactly the strict encoding of the value: numbers little-endian at the type's full width, tags as one byte, fields in declaration order, and variable-length data preceded by a little-endian length whose width is fixed by the type's upper size bound alone.",
  ["inputs"], "all typed values (values that conform to their type, as checking and deserialization yield them) of all types",
  "Tests serialize one nominal value and some library types; widths, boundaries (255/256, 65535/65536, 2^24) and every other class of value are untested.",
  ["src/value/encode.rs", "src/typesys/type_sys.rs"], [("writer", "src/value/encode.rs TypeSystem::strict_write_ty / strict_write_val"), ("prefix width", "src/value/encode.rs SizingExt::byte_size"), ("restricted strings", "TypeSystem::is_rstring / rstring_sizing")],
  observe=["TypeSystem::strict_write_value", "TypeSystem::strict_serialize_value"])
p("C12", "Deserialization accepts only strict encodings and is inverted exactly",
  "For every byte string and every type, deserialization either fails with an error or returns a value whose serialization under the same type is exactly the bytes consumed; it never panics. Truncated input, unknown tags and left-over bytes are errors, and every serialized value of a supported type deserializes again to a value with the same serialization.",
  ["inputs"], "all byte strings, all values, all types of all type systems without circular types, in which the names within an enumeration, union or structure differ; lists of items of size zero with bounds too large to iterate over are out of scope",
  "One test decodes one valid encoding; malformed, truncated or over-long input is never tried.",
  ["src/value/decode.rs", "src/value/encode.rs"], [("reader", "src/value/decode.rs TypeSystem::strict_read_type / strict_read_list / strict_read_map"), ("full consumption", "TypeSystem::strict_deserialize_type")],
  observe=["TypeSystem::strict_deserialize_type", "SymbolicSys::strict_deserialize_type", "strict_read_type"])
p("C13", "Deserialized values respect the bounds their type declares",
  "A value obtained by deserialization conforms to its type: the number of items in every list, set, map, string and byte string lies within the type's declared bounds, set members and map keys are distinct and characters of restricted strings belong to the declared character sets. Input violating one of these is rejected with an error.",
  ["inputs"], "all byte strings against all types of all type systems without circular types, in which the names within an enumeration, union or structure differ",
  "Tests decode only conforming data.",
  ["src/value/decode.rs"], [("collection reader", "src/value/decode.rs TypeSystem::strict_read_type")], observe=["TypeSystem::strict_deserialize_type"])
p("C14", "Compiling a symbolic library is faithful and always terminates",
  "Compiling a symbolic library yields a library with the same name and exactly the same type names, in which every definition has the same structure and every reference by name is replaced by the semantic id that the named definition has in the compiled library, every external reference by the id it declares. If some reference by name is undefined or circular, or nesting is too deep, compilation ends with an error; it never panics and never runs forever.",
  ["inputs"], "all symbolic libraries, including forward references, undefined and circular references",
  "Tests compile two well-formed libraries; undefined or circular references never occur.",
  ["src/typelib/symbolic.rs", "src/typelib/compile.rs", "src/ast/translate.rs"],
  [("fixpoint compiler", "src/typelib/symbolic.rs SymbolicLib::compile"), ("reference translation", "src/typelib/compile.rs impl Translate<LibRef|InlineRef..> for TranspileRef"), ("structure-preserving map", "src/ast/translate.rs")],
  observe=["SymbolicLib::compile", "LibBuilder::compile"])
p("C15", "A built library references only what it defines or declares",
  "Finishing a library build succeeds only if every type referenced by name is defined in the library, every library whose types are used is among the known dependencies, and each used external type is one the dependency provides. The result contains exactly the added types, and exactly the used dependencies; otherwise an error names the missing type or library.",
  ["inputs", "configurations"], "all sets of added types, dependencies and provided type sets",
  "Tests build only consistent libraries.",
  ["src/typelib/symbolic.rs"], [("consistency checks", "src/typelib/symbolic.rs LibBuilder::compile_symbols")], observe=["LibBuilder::compile_symbols", "LibBuilder::compile"])
p("C16", "Decompiling and recompiling a library gives back the library",
  "Converting a compiled library to its symbolic form and compiling that again yields a library equal to the original, with the same id. The symbolic form names exactly the same types with the same structure, and fails with an error (never a panic) only when the library references a type or library it does not declare.",
  ["inputs"], "all libraries whose types have pairwise different semantic ids",
  "No test performs the round trip.",
  ["src/typelib/symbolic.rs", "src/typelib/translate.rs", "src/typelib/compile.rs"],
  [("decompiler", "src/typelib/symbolic.rs TypeLib::to_symbolic, src/typelib/translate.rs SymbolContext"), ("recompiler", "SymbolicLib::compile")], observe=["TypeLib::to_symbolic"])
p("C17", "Importing a library flattens it faithfully and order-independently",
  "Importing a library adds each of its named types under the type's semantic id with the library and type name, and each inline type under the id of its definition, replacing every reference by the semantic id it stands for and changing nothing else in the structure (order, names, tags and sizes included). The types of the assembled system do not depend on the order in which libraries are imported.",
  ["inputs", "histories"], "all libraries with inline nesting up to the supported depth; all import orders",
  "Tests import one fixed set in one fixed order.",
  ["src/typesys/translate.rs", "src/ast/translate.rs"], [("flattening", "src/typesys/translate.rs SystemBuilder::import / translate_inline, impl Translate<SemId>"), ("structure-preserving map", "src/ast/translate.rs")],
  observe=["SystemBuilder::import", "SystemBuilder::finalize"])
p("C18", "Value accessors return exactly the content they name",
  "The accessors of values look through any number of single-field tuple wrappers and then return exactly the number, string, bytes, field, item, map entry, tag or optional content they name, unchanged; looking through wrappers always terminates at a value that is not a wrapper. Asking for content of a different kind or an absent element is refused, never answered with other data.",
  ["inputs"], "all values, wrapper depths, keys, indexes",
  "Tests call no accessor on wrapped or mismatching values.",
  ["src/value/val.rs"], [("wrapper skipping", "src/value/val.rs StrictVal::skip_wrapper"), ("accessors", "src/value/val.rs StrictVal::unwrap_*")], observe=["StrictVal::unwrap_*"])
p("C19", "Union definitions survive binary encoding",
  "Strict-encoding a union definition and decoding it again gives back the same variants with the same names, tags, order and types; decoding any bytes either fails with an error or yields a definition that encodes to a map of those tags, names and types. The encoding lists variants once each in ascending tag order.",
  ["inputs"], "all union definitions with 1 to 255 variants",
  "Tests check only that the standard libraries' ids are stable; no test decodes an encoded union.",
  ["src/ast/encoding.rs"], [("custom codec", "src/ast/encoding.rs impl StrictEncode/StrictDecode for UnionVariants")], observe=["TypeLib strict serialization", "TypeSystem strict serialization"])
p("C20", "Values imported from JSON, YAML and TOML keep their data",
  "Converting a JSON, YAML or TOML value yields a strict value of the same shape: null becomes the unit value, booleans the tags 0 and 1, every integer the identical signed or unsigned number, strings the identical text, sequences lists of the converted items in the same order, and objects maps holding each key with its converted value. No integer, string or nested element is lost, reordered or altered.",
  ["inputs"], "all documents without floating-point numbers and dates",
  "No test converts foreign values.",
  ["src/value/convert.rs"], [("conversions", "src/value/convert.rs")], observe=["StrictVal::from(serde_json::Value | serde_yaml::Value | toml::Value)"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
