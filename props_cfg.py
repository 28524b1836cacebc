"""Per property: proof units, time of the replay search, claimed level."""
STD = ["contracts of the standard library operations vstd specifies (Vec, Option, slices)",
       "verus/vlib.vrs: contracts of amplify's confined collections, iterators and strict-encoding names (dependencies)"]
MAPS = ["verus/maps.vrs: contracts of std's and amplify's ordered and hashed maps and sets"]
CONF = ["verus/conf.vrs: ids of bytes, Unicode characters and the unit are uninterpreted; width of primitives (SemId::is_byte, Primitive::byte_size); bits and bytes of 1024-bit integers", "verus/encode.vrs: std::io::Write (writing appends the bytes; to a vector it does not fail), to_le_bytes, Confined::try_from; 64-bit usize", "verus/strs.vrs: bytes of strings and ASCII characters"]
READ = ["verus/decode.vrs: strict_encoding's readers (ReadRaw hands out the next bytes, StreamReader over a cursor ends with the data and knows its position) and StrictDecode of integers, confined strings, byte strings and ASCII strings; StrictReader::with / unbox hand the reader on", "deserialization recurses along the types: its termination is not an obligation (circular types are out of scope)"]
CFG = {
    "C01": dict(units=["c01"], level="proof", secs=12, trusted=STD + ["verus/commit.vrs: sha2::Sha256 hashes the bytes it was fed (SHA-256 itself is uninterpreted); to_le_bytes of the integers; ids are 32 bytes, equal when these are", "the references of libraries keep the default TypeRef::as_ty; Cls as u8 is the discriminant", "verus/tref_id.vrs: the commitment of a definition embedded in another is the one Ty::sem_commit has (the recursion along the nesting is cut there)"]),
    "C02": dict(units=["c02"], level="proof", secs=12, trusted=STD + MAPS + ["verus/commit.vrs: sha2::Sha256 hashes the bytes it was fed (SHA-256 itself is uninterpreted); to_le_bytes of the integers; ids are 32 bytes, equal when these are", "verus/deps.vrs, verus/lib_id.vrs: sets of dependencies (ordered by id); the sorted containers list equal contents alike; Confined::extend adds every entry or fails", "that the order of imports does not change the set of types of a system is C17's"]),
    "C03": dict(units=["c03"], level="proof", secs=12, trusted=STD + MAPS + ["verus/deps.vrs: sets of dependencies (ordered by Dependency::cmp, which is under contract, see dep_ord.vrs); derived Default of SystemBuilder", "verus/sys.vrs: Ty::iter yields the components (discharged by the C06 unit); SymbolicSys::with (discharged by the C05 unit); Ty::translate leaves the dependencies of the builder alone (discharged by the C17 unit); the ids of types and libraries are left uninterpreted"]),
    "C04": dict(units=["c04"], level="proof", secs=12, trusted=STD + MAPS + ["verus/sys.vrs: Ty::iter yields the components in order (discharged by the C06 unit); derived Clone of Ty; SemId equality is equality of its bytes"]),
    "C05": dict(units=["c05"], level="proof", secs=12, trusted=STD + MAPS + ["derived Clone and Eq of TypeFqn, SymTy, TypeSymbol and Ty"]),
    "C06": dict(units=["c06"], level="proof", secs=12, trusted=STD),
    "C07": dict(units=["c07"], level="proof", secs=12, trusted=STD),
    "C08": dict(units=["c08"], level="proof", secs=12, trusted=STD),
    "C09": dict(units=["c09"], level="proof", secs=12, trusted=STD),
    "C10": dict(units=["c10"], level="proof", secs=12, trusted=STD + MAPS + CONF + ["verus/typify.vrs, verus/val_ctor.vrs, verus/seen.vrs: TryFrom<String> of names (any answer), u64 and i64 widened to 1024 bits take at most 64 of them, std's BTreeSet<Vec<u8>>", "checking recurses along the types: its termination is not an obligation (circular types are out of scope)"]),
    "C11": dict(units=["c11"], level="proof", secs=12, trusted=STD + CONF),
    "C12": dict(units=["c12", "c12a"], level="proof", secs=12, trusted=STD + MAPS + CONF + READ + ["verus/accept.vrs was_read_elsewhere: in unit c12a what was read is taken from unit c12, which proves it over the same source (lemma_shape)", "verus/decode.vrs: a reader of memory and the decoders of primitive values and of confined strings fail only where the bytes run out or are no ASCII or UTF-8 text; the text of a String is UTF-8"]),
    "C13": dict(units=["c13"], level="proof", secs=12, trusted=STD + MAPS + CONF + READ),
    "C14": dict(units=["c14"], level="proof", secs=12, trusted=STD + MAPS + ["verus/deps.vrs: sets of dependencies (ordered by id)", "verus/symbolic.vrs: derived Clone of Ty; the ids of definitions are left uninterpreted (C01)", "verus/sys.vrs: Ty::type_refs yields the components (discharged by the C06 unit)", "find_unknown recurses along the nesting of a definition, which is finite (its termination is not an obligation)"]),
    "C15": dict(units=["c15", "c15c"], level="proof", secs=12, trusted=STD + MAPS + ["verus/deps.vrs, verus/lib_build.vrs: sets of dependencies (ordered by id), the map keyed by dependencies (keys differ in ids; looking a key up finds its entry when names differ), entry().or_default().insert() of a map of maps", "verus/symbolic.vrs, verus/lib_build.vrs: derived Clone and equality of Ty; the ids of definitions are left uninterpreted (C01)", "verus/sys.vrs: Ty::type_refs yields the components (discharged by the C06 unit)", "find_unknown recurses along the nesting of a definition, which is finite (its termination is not an obligation)", "verus/lib_write.vrs: strict_encoding's UnionWriter/StructWriter keep the names they declare (ALL_VARIANTS: distinct names, 1 to 255 of them) and hand the builder back; a value tells a builder about its type by some calls (StrictEncode::strict_encode, derived), which leave its name and its known libraries alone and do not fail; derived From and equality of TranspileRef; the id of a reference is left uninterpreted", "unit c15c takes the contracts of compile_symbols (unit c15) and SymbolicLib::compile (unit c14) and shows what LibBuilder::compile makes of both", "strict_encoding's UnionWriter::define_tuple, define_struct, write_tuple, write_struct call the closure they are given exactly once, with a writer on top of the variant declared, and hand its result on (the extraction inlines these closures: rule `once`)"]),
    "C16": dict(units=["c16"], level="proof", secs=12, trusted=STD + MAPS + ["verus/deps.vrs: sets of dependencies (ordered by id)", "verus/symbolic.vrs: derived Clone of Ty; the ids of definitions are left uninterpreted (C01)", "verus/sys.vrs: Ty::type_refs yields the components (discharged by the C06 unit)"]),
    "C17": dict(units=["c17"], level="proof", secs=12, trusted=STD + MAPS + ["verus/sys_import.vrs, verus/sys_clients_types.vrs: two containers with the same entries are equal, and there is one for every legal content", "SymbolicSys::with (discharged by the C05 unit), SystemBuilder::finalize hands its types to it (discharged by the C03 unit); the ids of types are left uninterpreted"]),
    "C18": dict(units=["c18"], level="proof", secs=12, trusted=STD + ["verus/value_acc.vrs: strict_encoding's StrictEnum finds variants by name and by tag"]),
    "C19": dict(units=["c19"], level="proof", secs=12, trusted=STD + MAPS + ["verus/codec.vrs: codec of maps and derived codec of VariantInfo (strict_encoding): decoding reads exactly the entries that were written, in ascending order of tags", "verus/ast_translate.vrs VarTree: a std map keyed by Variant appends a variant whose tag is the highest and whose name is new"]),
    "C20": dict(units=["c20"], level="proof", secs=12, trusted=STD),
}
NOT_APPLICABLE = {}
for _p, _n in {
    "C01": "Proof for every definition: every sem_commit feeds the hash exactly the specified bytes (class, names with lengths, tags, sizes, component ids, in order), the id is the tagged hash of them with the name in front if there is one; the bytes of two definitions over component ids, both named or both unnamed, are equal only for equal definitions (lemma by unique decoding), hence equal ids mean equal definitions or a collision of SHA-256, which is left uninterpreted. Definitions of symbolic libraries are included: the references (TranspileRef) and the ids they give; the recursion into embedded definitions is cut by an assumption.",
    "C02": "Proof for every library and system: the id is the tagged hash of exactly name, ids of dependencies and semantic ids of types, respectively of the sorted ids of the types; the bytes are equal only if these contents are equal, and equal contents give equal ids whatever the order of adding or merging. SHA-256 is left uninterpreted. Assumes that the sorted containers list equal contents alike.",
    "C03": "Proof for every list of libraries: import and finalize meet their contracts, and a client importing any list of libraries in any order and finalizing proves that success means every dependency was imported and every referenced type is defined, and that failure names exactly the absent libraries and the absent types with the types referencing them (or a size limit was exceeded). Assumes the contracts of the sets of dependencies (ordered by id alone) and of maps.",
    "C04": "Proof for every type system (circular and incomplete ones included) and every list of roots: the extract holds exactly the ids some walk of references leads to, with the definitions of the system; failure names a reachable undefined id; the loop terminates (decreasing measure). Assumes the contracts of std's BTreeMap and BTreeSet and that Ty::iter yields the components (proved in the C06 unit).",
    "C05": "Proof for every set of named and unnamed types: the table of symbols built by SymbolicSys::with holds exactly the given types, each name resolves to the id it was given for, looking up an id returns a name resolving back to it, an absent name resolves to nothing, both forms of a type specification are resolved alike. Assumes the contracts of std's and amplify's maps and sets.",
    "C06": "Proof for every type and every position: ty_at, case_at, count_type_refs, the iterators' next and the lookups below them meet their contracts; a client function proves that enumerating yields every component once and then stays exhausted. Assumes the contracts of the dependencies' collections and iterators (verus/vlib.vrs).",
    "C07": "Proof for every enumeration, union and structure and every tag, name and position. Assumes the contracts of the dependencies' collections and iterators (verus/vlib.vrs).",
    "C08": "Proof for every type and every path, with the reported error path, the empty path and concatenation as lemmas. Assumes the contracts of the dependencies' collections and iterators (verus/vlib.vrs).",
    "C09": "Proof for every value and every path: Path resolution, one step at a time, with the reported error; matching of map keys (KeyStep::has_match). Assumes the contracts of IndexMap, confined strings and byte strings and of the derived PartialEq of StrictVal (verus/value.vrs, verus/vlib.vrs).",
    "C10": "Proof for every type system, every type and every value: whatever typify accepts conforms to its type at every level of nesting (widths and signs of numbers, bounds, characters, fields, tags, distinct members and keys), carries the id of the type, and nothing panics; the bit tricks of the number checks are proved equivalent to the ranges. Termination is not an obligation: it follows the nesting of types. That conforming values are accepted unchanged is no part of the property, but is executed (bounded). Assumes the contracts of IndexMap, BTreeSet and of the 1024-bit integers.",
    "C11": "Proof for every type system and every value conforming to its type (which is what the checker, C10, and deserialization, C13, yield): strict_write_value, strict_write_type, strict_serialize_value, strict_serialize_type and the functions below them write exactly the bytes of a definition of the strict encoding written down apart from the code, refuse only for the requested size limit, fail only if the writer does, do not panic and terminate; the width of a length depends on the upper bound of the type alone. Assumes std's writers and to_le_bytes, 64-bit usize.",
    "C12": "Proof for every type system in which the names of variants and fields differ, every type and every byte string: reading consumes exactly the bytes which are the strict encoding of the value returned (with the C11 contracts: the bytes it serializes to), deserializing consumes all of the data, nothing panics. And every value which conforms to its type and is of the kinds the reader supports is accepted again: what is accepted is a definition apart from the code (parse), the encodings of all these values are proved to be in it, and the reader is proved to accept all of it. Termination is not an obligation: it follows the nesting of types. Assumes the readers and the decoders of primitive values of strict_encoding.",
    "C13": "Proof for every type system in which the names of variants and fields differ, every type and every byte string: a value which was read conforms to its type (bounds, distinct members and keys, characters of restricted strings, widths, tags) at every level of nesting; check_read accepts a value if and only if it is within the bounds. Assumes the readers and the decoders of primitive values of strict_encoding.",
    "C14": "Proof for every symbolic library: compile, find_unknown and the translation of references at every level of nesting meet their contracts. Success means the same names, each definition of the same structure with every name replaced by the id the named definition has in the result, the external references by the declared ids, an order in which no definition is circular, the dependencies whose types are used; an error names a definition no order of compilation can reach with the missing or circular name, one nested too deep, an undeclared library, or the size limit; the compilation loop terminates (decreasing measure). Requires the names of a union's variants to differ, which the map of variants needs.",
    "C15": "Proof for every set of added types, external types and known dependencies with pairwise different names: compile_symbols succeeds only if every name mentioned at any level of nesting is defined, every library used is known and every external type used is one its dependency provides (as far as the deprecated constructor lets it say so); the result has exactly the added types and external types and exactly the dependencies used; an error names a definition and a name it lacks, a library which is not known, a type the dependency does not provide, or the size limit which is exceeded. report_compiled adds exactly the type reported to the library's own types or to the external ones, dependency_id gives the id of the dependency of that name. A type is referred to by its name when it belongs to the library, as an external type of a known library with its id when it belongs to another, and by its definition otherwise (compile_type); arrays, lists, sets, maps and strings are made of the types of their items and the sizes told (register_*); fields are recorded in order under their names, variants under their tags, and the definition reported for a struct, tuple, union or enum has exactly these. A builder starts with the libraries it is given and what they provide (the deprecated constructor: without knowing what they provide), and without types; a struct, tuple or union is told to a builder without fields or variants under the library and name of its type; an enumeration is told with exactly the variants of the type (write_enum). The fields of a variant are told to an unnamed builder on top of all told before; their definition is recorded under the tag of the variant, and nothing else of the union changes (define_tuple, define_struct, write_tuple, write_struct of unions, for every closure which obeys the contract of its builder).",
    "C16": "Proof for every compiled library: to_symbolic and the translation of references at every level of nesting meet their contracts (same names, each definition of the same structure, every id replaced by the name it stands for; an error only for a definition which references what is not declared); a client which takes the symbolic form and compiles it proves, with the contract of SymbolicLib::compile (C14), that neither step fails and that the result equals the library, for libraries with declared references, without circles, which depend on exactly the libraries the types of which they list. Equality of libraries gives equality of ids (TypeLib::id is a function). Requires the names of a union's variants to differ.",
    "C17": "Proof for every library and every depth of inlining: the translation of definitions keeps class, names, tags, order and sizes and replaces each reference by the id it stands for; import adds each named definition under its id with its name and each inlined one under the id of its definition, and nothing else; a client proves that the types do not depend on the order of imports as long as no id is shared by different definitions (C01). Requires the names of a union's variants to differ, which the map of variants needs. Assumes the contracts of the dependencies' containers.",
    "C18": "Proof for every value: each accessor answers only with the content it names behind any number of wrappers, refuses (panics) only when that content is absent, and skipping wrappers terminates. unwrap_enum is decided for every enumeration, over an assumed lookup of variants by name and by tag (a dependency's). Assumes String::from_utf8, TryFrom<u64> and IndexMap contracts.",
    "C19": "Proof for every union definition of 1 to 255 variants and every byte string: encoding writes the map of the tags in ascending order; decoding yields variants with different names whose encoding is the bytes read; clients prove the round trip. Assumes the codec of maps of strict_encoding and the derived codec of VariantInfo.",
    "C20": "Proof for every JSON, YAML and TOML value without floats and dates: same shape and data at every depth. Nested conversions are used at their own contract (partial correctness; termination follows the nesting of the input). Assumes the number accessors of serde_json and serde_yaml and the item order of their maps.",
}.items():
    CFG[_p]["note"] = _n
