// C03 as a client sees it: importing any list of libraries and finalizing.
pub open spec fn is_imported(l: Seq<TypeLib>, n: int, k: TypeLibId) -> bool { exists|i: int| 0 <= i < n && lib_id(#[trigger] l[i]) == k }
pub open spec fn is_needed(l: Seq<TypeLib>, n: int, k: TypeLibId) -> bool { exists|i: int| 0 <= i < n && (#[trigger] l[i]).dependencies@.contains(k) }
fn import_all(libs: Vec<TypeLib>) -> (b: SystemBuilder)
    ensures
        forall|k: TypeLibId| #[trigger] b.imported_deps@.contains(k) <==> is_imported(libs@, libs@.len() as int, k),
        forall|k: TypeLibId| #[trigger] b.pending_deps@.contains(k) <==> is_needed(libs@, libs@.len() as int, k) && !is_imported(libs@, libs@.len() as int, k),
{
    let mut b = SystemBuilder::new();
    let ghost l = libs@;
    let ghost n: int = 0;
    let mut it = libs.v_into_iter();
    loop
        invariant it.all() == l, 0 <= n <= l.len(), it.pos() == n,
            forall|k: TypeLibId| #[trigger] b.imported_deps@.contains(k) <==> is_imported(l, n, k),
            forall|k: TypeLibId| #[trigger] b.pending_deps@.contains(k) <==> is_needed(l, n, k) && !is_imported(l, n, k),
        ensures n == l.len()
        decreases l.len() - n
    {
        match it.next() {
            Some(lib) => {
                let ghost b0 = b;
                match b.import(lib) { Ok(x) => { b = x; } Err(_) => { b = verif_unreached::<SystemBuilder>(); } }
                proof {
                    assert(imported(b0, l[n], b));
                    assert forall|k: TypeLibId| is_imported(l, n + 1, k) <==> is_imported(l, n, k) || k == lib_id(l[n]) by {
                        if is_imported(l, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && lib_id(#[trigger] l[i]) == k; if i < n { assert(is_imported(l, n, k)); } }
                        if is_imported(l, n, k) { let i = choose|i: int| 0 <= i < n && lib_id(#[trigger] l[i]) == k; assert(i < n + 1 && lib_id(l[i]) == k); }
                        if k == lib_id(l[n]) { assert(is_imported(l, n + 1, k)); }
                    }
                    assert forall|k: TypeLibId| is_needed(l, n + 1, k) <==> is_needed(l, n, k) || l[n].dependencies@.contains(k) by {
                        if is_needed(l, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] l[i]).dependencies@.contains(k); if i < n { assert(is_needed(l, n, k)); } }
                        if is_needed(l, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] l[i]).dependencies@.contains(k); assert(i < n + 1 && l[i].dependencies@.contains(k)); }
                        if l[n].dependencies@.contains(k) { assert(is_needed(l, n + 1, k)); }
                    }
                    n = n + 1;
                }
            }
            None => break,
        }
    }
    b
}
/// C03: assembling any libraries succeeds only when nothing is missing; otherwise the errors name exactly what is missing.
fn client_assemble(libs: Vec<TypeLib>)
{
    let ghost l = libs@;
    let ghost n = libs@.len() as int;
    let b = import_all(libs);
    let ghost absent = |k: TypeLibId| is_needed(l, n, k) && !is_imported(l, n, k);
    let ghost types = b.types@;
    match b.finalize() {
        Ok(s) => {
            // every library an imported library depends on is imported
            assert forall|k: TypeLibId| is_needed(l, n, k) implies is_imported(l, n, k) by { assert(!b.pending_deps@.contains(k)); }
            // every type referenced by a type of the system is defined in it
            assert forall|id: SemId, to: SemId| s.types@.contains_key(id) && #[trigger] refers(s.types@[id], to) implies s.types@.contains_key(to) by { assert(!lacks(b.types@, id, to)); }
        }
        Err(e) => {
            proof {
                // each missing library is named, each missing type with a type referencing it, and nothing else
                if !complete(b) {
                    assert forall|k: TypeLibId| #[trigger] names_lib(e@, k) <==> absent(k) by {
                        reveal(names_lib);
                        if names_lib(e@, k) { let i = choose|i: int| 0 <= i < e@.len() && (#[trigger] e@[i]) is AbsentImport && e@[i]->AbsentImport_0.id == k; assert(justified(e@[i], b.pending_deps@, b.types@)); }
                        if absent(k) { assert(b.pending_deps@.contains(k)); }
                    }
                    assert forall|known: SemId, unknown: SemId| #[trigger] names_type(e@, known, unknown) <==> lacks(types, known, unknown) by {
                        reveal(names_type);
                        if names_type(e@, known, unknown) { let i = choose|i: int| 0 <= i < e@.len() && #[trigger] e@[i] == (Error::InnerTypeAbsent { unknown: unknown, known: known }); assert(justified(e@[i], b.pending_deps@, b.types@)); }
                    }
                }
                // and otherwise only the limits on sizes can have been exceeded
                assert(complete(b) ==> types.dom().len() > 16777215 || b.imported_deps@.len() > 65535);
                assert(!complete(b) ==> (exists|k: TypeLibId| #[trigger] absent(k)) || exists|known: SemId, unknown: SemId| #[trigger] lacks(types, known, unknown)) by {
                    if !complete(b) && !exists|known: SemId, unknown: SemId| #[trigger] lacks(types, known, unknown) { let k = choose|k: TypeLibId| #[trigger] b.pending_deps@.contains(k); assert(absent(k)); }
                }
            }
        }
    }
}
