// ---------------------------------------------------------------------------------------------
// C12: which bytes are accepted, and that the encodings of values are among them.
// ---------------------------------------------------------------------------------------------
pub open spec fn takes() -> bool { true }
/// What was read, as the same place of the same source is shown to have read it in unit c12 (`lemma_shape` there).
#[verifier::external_body]
pub proof fn was_read_elsewhere(m: Tys, v: StrictVal, ty: Ty<SemId>, id: SemId, d0: Seq<u8>, d1: Seq<u8>, n0: nat, n1: nat)
    ensures checked(m, v, ty) ==> conf(m, v, id) && d0 == enc(m, v, id) + d1, members_conf(m, v, ty), n1 == n0
{}
pub broadcast group group_read { lemma_none }
pub uninterp spec fn none(b: Seq<u8>) -> bool;
pub broadcast proof fn lemma_none(b: Seq<u8>) ensures #[trigger] none(b) ==> true {}
pub open spec fn is_width(w: int) -> bool { w == 1 || w == 2 || w == 3 || w == 4 || w == 8 }
pub proof fn lemma_digits(n: int)
    requires 0 <= n < 0x1_0000_0000_0000_0000
    ensures n / 0x1_0000 == n / 0x100 / 0x100, n / 0x100_0000 == n / 0x100 / 0x100 / 0x100, n / 0x1_0000_0000 == n / 0x100 / 0x100 / 0x100 / 0x100, n / 0x100_0000_0000 == n / 0x100 / 0x100 / 0x100 / 0x100 / 0x100,
        n / 0x1_0000_0000_0000 == n / 0x100 / 0x100 / 0x100 / 0x100 / 0x100 / 0x100, n / 0x100_0000_0000_0000 == n / 0x100 / 0x100 / 0x100 / 0x100 / 0x100 / 0x100 / 0x100
{}
#[verifier::spinoff_prover]
pub proof fn lemma_le8_bytes(n: u64)
    ensures ({ let b = le8(n); let n0 = n as int; let n1 = n0 / 0x100; let n2 = n1 / 0x100; let n3 = n2 / 0x100; let n4 = n3 / 0x100; let n5 = n4 / 0x100; let n6 = n5 / 0x100; let n7 = n6 / 0x100;
        b.len() == 8 && b[0] as int == n0 % 256 && b[1] as int == n1 % 256 && b[2] as int == n2 % 256 && b[3] as int == n3 % 256 && b[4] as int == n4 % 256 && b[5] as int == n5 % 256 && b[6] as int == n6 % 256 && b[7] as int == n7 % 256 && n7 < 256 })
{ lemma_digits(n as int); }
#[verifier::spinoff_prover]
pub proof fn lemma_le8(n: u64)
    ensures n as nat == le_at(le8(n), 8), n < 0x1_0000_0000 ==> n as nat == le_at(le8(n), 4), n < 0x100_0000 ==> n as nat == le_at(le8(n), 3), n < 0x1_0000 ==> n as nat == le_at(le8(n), 2), n < 0x100 ==> n as nat == le_at(le8(n), 1)
{
    lemma_le8_bytes(n);
    let b = le8(n); let n0 = n as int; let n1 = n0 / 0x100; let n2 = n1 / 0x100; let n3 = n2 / 0x100; let n4 = n3 / 0x100; let n5 = n4 / 0x100; let n6 = n5 / 0x100; let n7 = n6 / 0x100;
    assert(n6 == b[6] + 0x100 * b[7]); assert(n5 == b[5] + 0x100 * n6); assert(n4 == b[4] + 0x100 * n5); assert(n3 == b[3] + 0x100 * n4); assert(n2 == b[2] + 0x100 * n3); assert(n1 == b[1] + 0x100 * n2); assert(n0 == b[0] + 0x100 * n1);
    assert(le_at(b, 8) == n) by { reveal(le_at); }
    if n < 0x1_0000_0000 { assert(n4 == 0); assert(le_at(b, 4) == n) by { reveal(le_at); } }
    if n < 0x100_0000 { assert(n3 == 0); assert(le_at(b, 3) == n) by { reveal(le_at); } }
    if n < 0x1_0000 { assert(n2 == 0); assert(le_at(b, 2) == n) by { reveal(le_at); } }
    if n < 0x100 { assert(n1 == 0); assert(le_at(b, 1) == n) by { reveal(le_at); } }
}
/// What follows a number, and the number.
pub broadcast proof fn lemma_after_num(n: u64, w: int, t: Seq<u8>)
    requires is_width(w) || w == 5 || w == 6 || w == 7
    ensures #![trigger le8(n).take(w) + t] (le8(n).take(w) + t).len() == w + t.len(), (le8(n).take(w) + t).skip(w) == t, is_width(w) && (w < 8 ==> n < pow256(w)) ==> le_at(le8(n).take(w) + t, w) == n
{
    let b = le8(n).take(w) + t;
    assert(b.skip(w) =~= t);
    reveal(le_at); lemma_le8(n);
    assert forall|i: int| 0 <= i < w implies b[i] == le8(n)[i] by {}
}
pub broadcast proof fn lemma_after_bytes(a: Seq<u8>, t: Seq<u8>) ensures #![trigger a + t] (a + t).skip(a.len() as int) == t, (a + t).take(a.len() as int) == a
{ assert((a + t).skip(a.len() as int) =~= t); assert((a + t).take(a.len() as int) =~= a); }
pub broadcast axiom fn string_utf8(s: &String) ensures text8(#[trigger] s@);
/// Numbers which are read.
pub open spec fn prim_ok(c: u8) -> bool { c == 0 || c == 0x40 || 1 <= c <= 8 || c == 0x41 || c == 0x42 || c == 0x44 || c == 0x48 }
pub open spec fn cut(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { a.take(a.len() - b.len()) }
/// The reader, as a definition: what is left after an item of the type, if there is one at the start of `b`.
/// `n` bounds the depth.
#[verifier::opaque]
pub open spec fn parse(m: Tys, id: SemId, b: Seq<u8>, n: nat) -> Option<Seq<u8>>
    decreases n, 0int
{
    if n == 0 { None } else {
        let n1 = (n - 1) as nat;
        match find_ty(m, id) {
            None => None,
            Some(Ty::Primitive(p)) => if prim_ok(p.code) && b.len() >= prim_size(p.code) { Some(b.skip(prim_size(p.code))) } else { None },
            Some(Ty::UnicodeChar) => None,
            Some(Ty::Enum(vs)) => if b.len() > 0 && is_tag(vs, b[0]) { Some(b.skip(1)) } else { None },
            Some(Ty::Union(vs)) => if b.len() > 0 && uv_sel(vs@, EnumTag::Ord(b[0]), uv_pos(vs@, EnumTag::Ord(b[0]))) { parse(m, vs@[uv_pos(vs@, EnumTag::Ord(b[0]))].1, b.skip(1), n1) } else { None },
            Some(Ty::Tuple(f)) => if rstring(m, f@) { let x = rs_sizing(m, f@).max; if has_text(b, x) && rs_conf(m, f@, text_at(b, x)) { Some(after_text(b, x)) } else { None } } else { last(cuts(m, f@, f@.len() as int, b, n1)) },
            Some(Ty::Struct(f)) => last(cuts(m, field_tys(f@), f@.len() as int, b, n1)),
            Some(Ty::Array(i, k)) => if is_byte_id(i) { if b.len() >= k { Some(b.skip(k as int)) } else { None } } else { last(cuts(m, rep(i, k as int), k as int, b, n1)) },
            Some(Ty::List(i, z)) => {
                if find_ty(m, i) is None || b.len() < len_width(z.max) || !within(le_at(b, len_width(z.max)), z) { None }
                else if char_enum_id(m, i) { if has_text(b, z.max) && chars_of(m, i, text_at(b, z.max)) { Some(after_text(b, z.max)) } else { None } }
                else if is_byte_id(i) && z.max <= u32max() { if has_text(b, z.max) { Some(after_text(b, z.max)) } else { None } }
                else if i == unicode_id() && z.max <= u32max() { if has_text(b, z.max) && text8(text_at(b, z.max)) { Some(after_text(b, z.max)) } else { None } }
                else { let k = le_at(b, len_width(z.max)) as int; last(cuts(m, rep(i, k), k, b.skip(len_width(z.max)), n1)) }
            }
            Some(Ty::Set(i, z)) => {
                let k = le_at(b, len_width(z.max)) as int;
                if b.len() < len_width(z.max) || !within(k as nat, z) { None } else { let s = cuts(m, rep(i, k), k, b.skip(len_width(z.max)), n1); if s is Some && differ(s->Some_0, 1) { last(s) } else { None } }
            }
            Some(Ty::Map(ki, i, z)) => {
                let k = le_at(b, len_width(z.max)) as int;
                if b.len() < len_width(z.max) || !within(k as nat, z) { None } else { let s = cuts(m, alt(ki, i, k), 2 * k, b.skip(len_width(z.max)), n1); if s is Some && differ(s->Some_0, 2) { last(s) } else { None } }
            }
        }
    }
}
/// What is left before and after each of the first `j` items.
#[verifier::opaque]
pub open spec fn cuts(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>, n: nat) -> Option<Seq<Seq<u8>>>
    decreases n, 1int, j
{
    if j <= 0 { Some(seq![b]) } else { match cuts(m, f, j - 1, b, n) { None => None, Some(s) => match parse(m, f[j - 1], s.last(), n) { None => None, Some(c) => Some(s.push(c)) } } }
}
pub open spec fn last(s: Option<Seq<Seq<u8>>>) -> Option<Seq<u8>> { match s { None => None, Some(s) => Some(s.last()) } }
/// Every two members (keys, if `step` is 2) differ.
#[verifier::opaque]
pub open spec fn differ(s: Seq<Seq<u8>>, step: int) -> bool {
    forall|x: int, y: int| 0 <= x < y < s.len() - 1 && x % step == 0 && y % step == 0 ==> cut(#[trigger] s[x], s[x + 1]) != cut(#[trigger] s[y], s[y + 1])
}
pub proof fn lemma_cuts(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>, n: nat)
    ensures cuts(m, f, j, b, n) == (if j <= 0 { Some(seq![b]) } else { match cuts(m, f, j - 1, b, n) { None => None, Some(s) => match parse(m, f[j - 1], s.last(), n) { None => None, Some(c) => Some(s.push(c)) } } })
{ reveal(cuts); reveal(parse); }
/// One step of `parse`.
pub open spec fn step(m: Tys, id: SemId, b: Seq<u8>, n1: nat) -> Option<Seq<u8>> {
        match find_ty(m, id) {
            None => None,
            Some(Ty::Primitive(p)) => if prim_ok(p.code) && b.len() >= prim_size(p.code) { Some(b.skip(prim_size(p.code))) } else { None },
            Some(Ty::UnicodeChar) => None,
            Some(Ty::Enum(vs)) => if b.len() > 0 && is_tag(vs, b[0]) { Some(b.skip(1)) } else { None },
            Some(Ty::Union(vs)) => if b.len() > 0 && uv_sel(vs@, EnumTag::Ord(b[0]), uv_pos(vs@, EnumTag::Ord(b[0]))) { parse(m, vs@[uv_pos(vs@, EnumTag::Ord(b[0]))].1, b.skip(1), n1) } else { None },
            Some(Ty::Tuple(f)) => if rstring(m, f@) { let x = rs_sizing(m, f@).max; if has_text(b, x) && rs_conf(m, f@, text_at(b, x)) { Some(after_text(b, x)) } else { None } } else { last(cuts(m, f@, f@.len() as int, b, n1)) },
            Some(Ty::Struct(f)) => last(cuts(m, field_tys(f@), f@.len() as int, b, n1)),
            Some(Ty::Array(i, k)) => if is_byte_id(i) { if b.len() >= k { Some(b.skip(k as int)) } else { None } } else { last(cuts(m, rep(i, k as int), k as int, b, n1)) },
            Some(Ty::List(i, z)) => {
                if find_ty(m, i) is None || b.len() < len_width(z.max) || !within(le_at(b, len_width(z.max)), z) { None }
                else if char_enum_id(m, i) { if has_text(b, z.max) && chars_of(m, i, text_at(b, z.max)) { Some(after_text(b, z.max)) } else { None } }
                else if is_byte_id(i) && z.max <= u32max() { if has_text(b, z.max) { Some(after_text(b, z.max)) } else { None } }
                else if i == unicode_id() && z.max <= u32max() { if has_text(b, z.max) && text8(text_at(b, z.max)) { Some(after_text(b, z.max)) } else { None } }
                else { let k = le_at(b, len_width(z.max)) as int; last(cuts(m, rep(i, k), k, b.skip(len_width(z.max)), n1)) }
            }
            Some(Ty::Set(i, z)) => {
                let k = le_at(b, len_width(z.max)) as int;
                if b.len() < len_width(z.max) || !within(k as nat, z) { None } else { let s = cuts(m, rep(i, k), k, b.skip(len_width(z.max)), n1); if s is Some && differ(s->Some_0, 1) { last(s) } else { None } }
            }
            Some(Ty::Map(ki, i, z)) => {
                let k = le_at(b, len_width(z.max)) as int;
                if b.len() < len_width(z.max) || !within(k as nat, z) { None } else { let s = cuts(m, alt(ki, i, k), 2 * k, b.skip(len_width(z.max)), n1); if s is Some && differ(s->Some_0, 2) { last(s) } else { None } }
            }
        }
}
pub proof fn lemma_step(m: Tys, id: SemId, b: Seq<u8>, n: nat) ensures parse(m, id, b, n + 1) == step(m, id, b, n)
{ reveal(parse); reveal(cuts); assert((n + 1 - 1) as nat == n); }
/// More depth changes nothing.
pub proof fn lemma_deeper(m: Tys, id: SemId, b: Seq<u8>, n: nat, k: nat)
    requires parse(m, id, b, n) is Some, n <= k ensures parse(m, id, b, k) == parse(m, id, b, n)
    decreases n, 0int
{
    reveal(parse); reveal(cuts);
    let (n1, k1) = ((n - 1) as nat, (k - 1) as nat);
    if let Some(ty) = find_ty(m, id) {
        let w = match ty { Ty::List(_, z) => len_width(z.max), Ty::Set(_, z) => len_width(z.max), Ty::Map(_, _, z) => len_width(z.max), _ => 1 };
        let c = le_at(b, w) as int;
        match ty {
            Ty::Union(vs) => { lemma_deeper(m, vs@[uv_pos(vs@, EnumTag::Ord(b[0]))].1, b.skip(1), n1, k1); }
            Ty::Tuple(f) => { if !rstring(m, f@) { lemma_deeper_cuts(m, f@, f@.len() as int, b, n1, k1); } }
            Ty::Struct(f) => { lemma_deeper_cuts(m, field_tys(f@), f@.len() as int, b, n1, k1); }
            Ty::Array(i, l) => { if !is_byte_id(i) { lemma_deeper_cuts(m, rep(i, l as int), l as int, b, n1, k1); } }
            Ty::List(i, z) => { if char_enum_id(m, i) || (is_byte_id(i) && z.max <= u32max()) || (i == unicode_id() && z.max <= u32max()) {} else { lemma_deeper_cuts(m, rep(i, c), c, b.skip(w), n1, k1); } }
            Ty::Set(i, z) => { lemma_deeper_cuts(m, rep(i, c), c, b.skip(w), n1, k1); }
            Ty::Map(ki, i, z) => { lemma_deeper_cuts(m, alt(ki, i, c), 2 * c, b.skip(w), n1, k1); }
            _ => {}
        }
    }
}
pub proof fn lemma_deeper_cuts(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>, n: nat, k: nat)
    requires cuts(m, f, j, b, n) is Some, n <= k ensures cuts(m, f, j, b, k) == cuts(m, f, j, b, n)
    decreases n, 1int, j
{
    lemma_cuts(m, f, j, b, n); lemma_cuts(m, f, j, b, k);
    if j > 0 { lemma_deeper_cuts(m, f, j - 1, b, n, k); lemma_deeper(m, f[j - 1], cuts(m, f, j - 1, b, n)->Some_0.last(), n, k); }
}
/// There is an item of the type at the start of `b`; and what follows it.
#[verifier::opaque]
pub open spec fn good(m: Tys, id: SemId, b: Seq<u8>) -> bool { exists|n: nat| #[trigger] parse(m, id, b, n) is Some }
#[verifier::opaque]
pub open spec fn end_of(m: Tys, id: SemId, b: Seq<u8>) -> Seq<u8> { let n = choose|n: nat| #[trigger] parse(m, id, b, n) is Some; parse(m, id, b, n)->Some_0 }
pub proof fn lemma_end(m: Tys, id: SemId, b: Seq<u8>, n: nat)
    requires parse(m, id, b, n) is Some ensures good(m, id, b), parse(m, id, b, n) == Some(end_of(m, id, b))
{
    reveal(good); reveal(end_of);
    let k = choose|k: nat| #[trigger] parse(m, id, b, k) is Some;
    assert(parse(m, id, b, k) is Some);
    if k <= n { lemma_deeper(m, id, b, k, n); } else { lemma_deeper(m, id, b, n, k); }
}
#[verifier::opaque]
pub open spec fn ends(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>) -> Seq<u8>
    decreases j
{ if j <= 0 { b } else { end_of(m, f[j - 1], ends(m, f, j - 1, b)) } }
#[verifier::opaque]
pub open spec fn goods(m: Tys, f: Seq<SemId>, b: Seq<u8>) -> bool { forall|j: int| 0 <= j < f.len() ==> #[trigger] good_at(m, f, j, b) }
pub open spec fn good_at(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>) -> bool { good(m, f[j], ends(m, f, j, b)) }
pub proof fn lemma_ends(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>, n: nat)
    requires cuts(m, f, j, b, n) is Some, j >= 0
    ensures ({ let s = cuts(m, f, j, b, n)->Some_0; s.len() == j + 1 && (forall|i: int| 0 <= i <= j ==> #[trigger] s[i] == ends(m, f, i, b)) && (forall|i: int| 0 <= i < j ==> #[trigger] good_at(m, f, i, b)) && s.last() == ends(m, f, j, b) }), j == f.len() ==> goods(m, f, b)
    decreases j
{
    lemma_cuts(m, f, j, b, n); reveal_with_fuel(ends, 1); reveal(goods);
    if j > 0 {
        lemma_ends(m, f, j - 1, b, n);
        let s = cuts(m, f, j - 1, b, n)->Some_0;
        assert(s.last() == s[j - 1]);
        lemma_end(m, f[j - 1], s.last(), n);
        assert(good_at(m, f, j - 1, b));
    }
}
/// Every two members differ.
#[verifier::opaque]
pub open spec fn cuts_differ(m: Tys, f: Seq<SemId>, b: Seq<u8>, step: int) -> bool {
    forall|x: int, y: int| 0 <= x < y < f.len() && x % step == 0 && y % step == 0 ==> cut(#[trigger] ends(m, f, x, b), ends(m, f, x + 1, b)) != cut(#[trigger] ends(m, f, y, b), ends(m, f, y + 1, b))
}
/// What there is to read of a type (`parse`, one step).
pub open spec fn form(m: Tys, ty: Ty<SemId>, b: Seq<u8>, e: Seq<u8>) -> bool {
    match ty {
        Ty::Primitive(p) => prim_ok(p.code) && b.len() >= prim_size(p.code) && e == b.skip(prim_size(p.code)),
        Ty::UnicodeChar => false,
        Ty::Enum(vs) => b.len() > 0 && is_tag(vs, b[0]) && e == b.skip(1),
        Ty::Union(vs) => b.len() > 0 && uv_sel(vs@, EnumTag::Ord(b[0]), uv_pos(vs@, EnumTag::Ord(b[0]))) && ({ let i = vs@[uv_pos(vs@, EnumTag::Ord(b[0]))].1; good(m, i, b.skip(1)) && e == end_of(m, i, b.skip(1)) }),
        Ty::Tuple(f) => if rstring(m, f@) { let x = rs_sizing(m, f@).max; has_text(b, x) && rs_conf(m, f@, text_at(b, x)) && ascii(text_at(b, x)) && known(m, f@) && e == after_text(b, x) } else { goods(m, f@, b) && e == ends(m, f@, f@.len() as int, b) && known(m, f@) },
        Ty::Struct(f) => goods(m, field_tys(f@), b) && e == ends(m, field_tys(f@), f@.len() as int, b),
        Ty::Array(i, k) => if is_byte_id(i) { b.len() >= k && e == b.skip(k as int) } else { goods(m, rep(i, k as int), b) && e == ends(m, rep(i, k as int), k as int, b) },
        Ty::List(i, z) => find_ty(m, i) is Some && b.len() >= len_width(z.max) && within(le_at(b, len_width(z.max)), z) && (
            if char_enum_id(m, i) { has_text(b, z.max) && chars_of(m, i, text_at(b, z.max)) && ascii(text_at(b, z.max)) && e == after_text(b, z.max) }
            else if is_byte_id(i) && z.max <= u32max() { has_text(b, z.max) && e == after_text(b, z.max) }
            else if i == unicode_id() && z.max <= u32max() { has_text(b, z.max) && text8(text_at(b, z.max)) && e == after_text(b, z.max) }
            else { let k = le_at(b, len_width(z.max)) as int; let c = b.skip(len_width(z.max)); goods(m, rep(i, k), c) && e == ends(m, rep(i, k), k, c) }),
        Ty::Set(i, z) => b.len() >= len_width(z.max) && within(le_at(b, len_width(z.max)), z) && ({ let k = le_at(b, len_width(z.max)) as int; let c = b.skip(len_width(z.max)); goods(m, rep(i, k), c) && e == ends(m, rep(i, k), k, c) && cuts_differ(m, rep(i, k), c, 1) }),
        Ty::Map(ki, i, z) => b.len() >= len_width(z.max) && within(le_at(b, len_width(z.max)), z) && ({ let k = le_at(b, len_width(z.max)) as int; let c = b.skip(len_width(z.max)); goods(m, alt(ki, i, k), c) && e == ends(m, alt(ki, i, k), 2 * k, c) && cuts_differ(m, alt(ki, i, k), c, 2) }),
    }
}
pub proof fn lemma_good(m: Tys, id: SemId, b: Seq<u8>)
    ensures good(m, id, b) ==> find_ty(m, id) is Some && form(m, find_ty(m, id)->Some_0, b, end_of(m, id, b)), match find_ty(m, id) { Some(Ty::Union(vs)) => forall|t: u8, i: int| #[trigger] uv_at_tag(vs@, t, i) ==> uv_pos(vs@, EnumTag::Ord(t)) == i, _ => true }
{
    if let Some(Ty::Union(vs)) = find_ty(m, id) { assert forall|t: u8, i: int| #[trigger] uv_at_tag(vs@, t, i) implies uv_pos(vs@, EnumTag::Ord(t)) == i by { lemma_uv_pos(&vs, EnumTag::Ord(t), i); } }
    if good(m, id, b) {
        reveal(good);
        let n = choose|n: nat| #[trigger] parse(m, id, b, n) is Some;
        assert(parse(m, id, b, n) is Some); lemma_end(m, id, b, n);
        reveal(parse); reveal(cuts);
        let n1 = (n - 1) as nat;
        let ty = find_ty(m, id)->Some_0;
        let w = match ty { Ty::List(_, z) => len_width(z.max), Ty::Set(_, z) => len_width(z.max), Ty::Map(_, _, z) => len_width(z.max), _ => 1 };
        let c = le_at(b, w) as int;
        match ty {
            Ty::Union(vs) => { lemma_end(m, vs@[uv_pos(vs@, EnumTag::Ord(b[0]))].1, b.skip(1), n1); }
            Ty::Tuple(f) => { if rstring(m, f@) { lemma_rs_ascii(m, f@, text_at(b, rs_sizing(m, f@).max)); } else {
                lemma_ends(m, f@, f@.len() as int, b, n1);
                if f@.len() == 2 { assert(good_at(m, f@, 0, b)); assert(good_at(m, f@, 1, b)); lemma_found(m, f@[0], ends(m, f@, 0, b)); lemma_found(m, f@[1], ends(m, f@, 1, b)); }
            } }
            Ty::Struct(f) => { lemma_ends(m, field_tys(f@), f@.len() as int, b, n1); }
            Ty::Array(i, l) => { if !is_byte_id(i) { lemma_ends(m, rep(i, l as int), l as int, b, n1); } }
            Ty::List(i, z) => {
                if char_enum_id(m, i) { lemma_chars_ascii(m, i, text_at(b, z.max)); }
                else if (is_byte_id(i) && z.max <= u32max()) || (i == unicode_id() && z.max <= u32max()) {} else { lemma_ends(m, rep(i, c), c, b.skip(w), n1); }
            }
            Ty::Set(i, z) => { lemma_ends(m, rep(i, c), c, b.skip(w), n1); lemma_differ(m, rep(i, c), b.skip(w), cuts(m, rep(i, c), c, b.skip(w), n1)->Some_0, 1); }
            Ty::Map(ki, i, z) => { lemma_ends(m, alt(ki, i, c), 2 * c, b.skip(w), n1); lemma_differ(m, alt(ki, i, c), b.skip(w), cuts(m, alt(ki, i, c), 2 * c, b.skip(w), n1)->Some_0, 2); }
            _ => {}
        }
    }
}
pub proof fn lemma_found(m: Tys, id: SemId, b: Seq<u8>)
    requires good(m, id, b) ensures match find_ty(m, id) { None => false, Some(Ty::List(i, _)) => find_ty(m, i) is Some, _ => true }
{ reveal(good); reveal(parse); reveal(cuts); let n = choose|n: nat| #[trigger] parse(m, id, b, n) is Some; assert(parse(m, id, b, n) is Some); }
pub proof fn lemma_differ(m: Tys, f: Seq<SemId>, b: Seq<u8>, s: Seq<Seq<u8>>, step: int)
    requires s.len() == f.len() + 1, forall|i: int| 0 <= i <= f.len() ==> #[trigger] s[i] == ends(m, f, i, b), differ(s, step) ensures cuts_differ(m, f, b, step)
{
    reveal(differ); reveal(cuts_differ);
    assert forall|x: int, y: int| 0 <= x < y < f.len() && x % step == 0 && y % step == 0 implies cut(#[trigger] ends(m, f, x, b), ends(m, f, x + 1, b)) != cut(#[trigger] ends(m, f, y, b), ends(m, f, y + 1, b)) by {
        assert(s[x] == ends(m, f, x, b)); assert(s[y] == ends(m, f, y, b)); assert(s[x + 1] == ends(m, f, x + 1, b)); assert(s[y + 1] == ends(m, f, y + 1, b));
    }
}
pub proof fn lemma_start(m: Tys, f: Seq<SemId>, b: Seq<u8>) ensures ends(m, f, 0, b) == b { reveal_with_fuel(ends, 1); }
pub proof fn lemma_items0(m: Tys, f: Seq<SemId>, b: Seq<u8>) ensures ends(m, f, 0, b) == b, forall|vs: Seq<StrictVal>| #[trigger] items(m, vs, f, b, 0) { reveal_with_fuel(ends, 1); reveal(items); }
/// The `j`-th item can be read.
pub proof fn lemma_item(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>)
    requires goods(m, f, b), 0 <= j < f.len() ensures good(m, f[j], ends(m, f, j, b)), ends(m, f, j + 1, b) == end_of(m, f[j], ends(m, f, j, b))
{ reveal(goods); assert(good_at(m, f, j, b)); reveal_with_fuel(ends, 2); }
pub proof fn lemma_items_differ(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, b: Seq<u8>, step: int)
    requires items(m, vs, f, b, f.len() as int), cuts_differ(m, f, b, step) ensures forall|x: int, y: int| 0 <= x < y < f.len() && x % step == 0 && y % step == 0 ==> enc(m, #[trigger] vs[x], f[x]) != enc(m, #[trigger] vs[y], f[y])
{
    reveal(items); reveal(cuts_differ);
    assert forall|x: int, y: int| 0 <= x < y < f.len() && x % step == 0 && y % step == 0 implies enc(m, #[trigger] vs[x], f[x]) != enc(m, #[trigger] vs[y], f[y]) by {
        assert(item(m, vs, f, x, b)); assert(item(m, vs, f, y, b));
        lemma_cut_item(ends(m, f, x, b), ends(m, f, x + 1, b), enc(m, vs[x], f[x])); lemma_cut_item(ends(m, f, y, b), ends(m, f, y + 1, b), enc(m, vs[y], f[y]));
    }
}
/// What is there to read passes the checks.
pub proof fn lemma_checked(m: Tys, v: StrictVal, ty: Ty<SemId>, b: Seq<u8>, d: Seq<u8>, e: Seq<u8>)
    requires form(m, ty, b, e), read_at(m, v, ty, b, d) ensures checked(m, v, ty), d == e
{
    broadcast use lemma_has_w;
    assert(b.skip(0) =~= b);
    match (v, ty) {
        (StrictVal::String(s), Ty::List(i, z)) => {}
        (StrictVal::Set(l), Ty::Set(i, z)) => { lemma_items_differ(m, l@, rep(i, l@.len() as int), b.skip(len_width(z.max)), 1); reveal(distinct); }
        (StrictVal::Map(l), Ty::Map(k, i, z)) => {
            let n = l@.len() as int; let vs = flat(l@); let f = alt(k, i, n);
            lemma_items_differ(m, vs, f, b.skip(len_width(z.max)), 2); reveal(distinct_keys);
            assert forall|x: int, y: int| 0 <= x < y < n implies enc(m, (#[trigger] l@[x]).0, k) != enc(m, (#[trigger] l@[y]).0, k) by { assert(vs[2 * x] == l@[x].0 && vs[2 * y] == l@[y].0 && f[2 * x] == k && f[2 * y] == k); }
        }
        _ => {}
    }
}
/// Values of types which can be read.
pub open spec fn byte_ty(m: Tys, id: SemId) -> bool { match find_ty(m, id) { Some(Ty::Primitive(p)) => p.code == 0x40 || p.code == 1, _ => false } }
pub open spec fn sup(m: Tys, v: StrictVal, id: SemId) -> bool
    decreases v via sup_decreases
{
    match find_ty(m, id) { None => false, Some(ty) => match (v, ty) {
        (StrictVal::Number(n), Ty::Primitive(p)) => prim_ok(p.code),
        (StrictVal::String(s), Ty::UnicodeChar) => false,
        (StrictVal::String(s), Ty::Array(i, _)) => chars_of(m, i, s@),
        (StrictVal::String(s), Ty::List(i, z)) => chars_of(m, i, s@) || (i == unicode_id() && find_ty(m, i) is Some && !char_enum_id(m, i) && z.max <= u32max()),
        (StrictVal::Bytes(b), Ty::List(i, _)) => byte_ty(m, i),
        (StrictVal::List(l), Ty::Array(i, _)) => (is_byte_id(i) ==> byte_ty(m, i)) && forall|j: int| 0 <= j < l@.len() ==> sup(m, #[trigger] l@[j], i),
        (StrictVal::List(l), Ty::List(i, _)) => find_ty(m, i) is Some && i != unicode_id() && (is_byte_id(i) ==> byte_ty(m, i)) && forall|j: int| 0 <= j < l@.len() ==> sup(m, #[trigger] l@[j], i),
        (StrictVal::Set(l), Ty::Set(i, _)) => forall|j: int| 0 <= j < l@.len() ==> sup(m, #[trigger] l@[j], i),
        (StrictVal::Map(l), Ty::Map(k, i, _)) => forall|j: int| 0 <= j < l@.len() ==> sup(m, (#[trigger] l@[j]).0, k) && sup(m, l@[j].1, i),
        (StrictVal::Tuple(l), Ty::Tuple(f)) => forall|j: int| 0 <= j < l@.len() ==> sup(m, #[trigger] l@[j], f@[j]),
        (StrictVal::Struct(x), Ty::Struct(f)) => forall|j: int| 0 <= j < f@.len() && ix_has(x@, (#[trigger] f@[j]).name, ix_pos(x@, f@[j].name)) ==> sup(m, x@[ix_pos(x@, f@[j].name)].1, f@[j].ty),
        (StrictVal::Union(t, x), Ty::Union(vs)) => sup(m, *x, vs@[uv_pos(vs@, t)].1),
        _ => true,
    } }
}
#[via_fn]
proof fn sup_decreases(m: Tys, v: StrictVal, id: SemId) {
    if let StrictVal::Struct(x) = v {
        assert forall|n: FieldName| #[trigger] ix_has(x@, n, ix_pos(x@, n)) implies decreases_to!(v => x@[ix_pos(x@, n)].1) by { ix_map_smaller(&x, ix_pos(x@, n)); }
    }
}
/// Whatever follows the encoding of the value, the encoding is read and the rest is left.
#[verifier::opaque]
pub open spec fn fits(m: Tys, v: StrictVal, id: SemId, n: nat) -> bool { forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n) == Some(t) }
pub open spec fn fit(m: Tys, v: StrictVal, id: SemId) -> bool { exists|n: nat| #[trigger] fits(m, v, id, n) }
pub proof fn lemma_fits_deeper(m: Tys, v: StrictVal, id: SemId, n: nat, k: nat)
    requires fits(m, v, id, n), n <= k ensures fits(m, v, id, k)
{ reveal(fits); assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, k) == Some(t) by { assert(parse(m, id, enc(m, v, id) + t, n) == Some(t)); lemma_deeper(m, id, enc(m, v, id) + t, n, k); } }
/// The encodings of the first `j` values one after another.
pub open spec fn cat(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, j: int) -> Seq<u8>
    decreases j
{ if j <= 0 { seq![] } else { cat(m, vs, f, j - 1) + enc(m, vs[j - 1], f[j - 1]) } }
pub proof fn lemma_depth(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, j: int) -> (n: nat)
    requires 0 <= j, forall|i: int| 0 <= i < j ==> fit(m, #[trigger] vs[i], f[i]) ensures forall|i: int| 0 <= i < j ==> fits(m, #[trigger] vs[i], f[i], n)
    decreases j
{
    if j == 0 { 0 } else {
        let a = lemma_depth(m, vs, f, j - 1);
        assert(fit(m, vs[j - 1], f[j - 1]));
        let b = choose|n: nat| #[trigger] fits(m, vs[j - 1], f[j - 1], n);
        let n = if a < b { b } else { a };
        assert forall|i: int| 0 <= i < j implies fits(m, #[trigger] vs[i], f[i], n) by { if i < j - 1 { lemma_fits_deeper(m, vs[i], f[i], a, n); } else { lemma_fits_deeper(m, vs[i], f[i], b, n); } }
        n
    }
}
/// Items whose encodings are read one by one are read one after another.
pub proof fn lemma_cat(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, j: int, t: Seq<u8>, n: nat)
    requires 0 <= j <= vs.len(), forall|i: int| 0 <= i < j ==> fits(m, #[trigger] vs[i], f[i], n)
    ensures ({ let s = cuts(m, f, j, cat(m, vs, f, j) + t, n); s is Some && s->Some_0.len() == j + 1 && s->Some_0.last() == t && forall|i: int| 0 <= i < j ==> #[trigger] s->Some_0[i] == enc(m, vs[i], f[i]) + s->Some_0[i + 1] })
    decreases j
{
    lemma_cuts(m, f, j, cat(m, vs, f, j) + t, n);
    if j > 0 {
        let t1 = enc(m, vs[j - 1], f[j - 1]) + t;
        assert(cat(m, vs, f, j) + t =~= cat(m, vs, f, j - 1) + t1);
        lemma_cat(m, vs, f, j - 1, t1, n);
        assert(fits(m, vs[j - 1], f[j - 1], n)); reveal(fits);
        let s1 = cuts(m, f, j - 1, cat(m, vs, f, j) + t, n)->Some_0;
        let s = cuts(m, f, j, cat(m, vs, f, j) + t, n)->Some_0;
        assert(s == s1.push(t));
        assert(s1.last() == s1[j - 1]);
        assert forall|i: int| 0 <= i < j implies #[trigger] s[i] == enc(m, vs[i], f[i]) + s[i + 1] by { if i < j - 1 { assert(s1[i] == enc(m, vs[i], f[i]) + s1[i + 1]); } }
    } else { assert(cat(m, vs, f, j) + t =~= t); }
}
/// Items of one byte each.
pub proof fn lemma_ones(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, j: int)
    requires 0 <= j, forall|i: int| 0 <= i < j ==> enc(m, #[trigger] vs[i], f[i]).len() == 1 ensures cat(m, vs, f, j).len() == j, forall|i: int| 0 <= i < j ==> #[trigger] cat(m, vs, f, j)[i] == enc(m, vs[i], f[i])[0]
    decreases j
{ if j > 0 { lemma_ones(m, vs, f, j - 1); assert(enc(m, vs[j - 1], f[j - 1]).len() == 1); } }
pub proof fn lemma_cat_seq(m: Tys, l: Vec<StrictVal>, id: SemId, k: int, n: int)
    requires 0 <= n <= l@.len(), n <= k ensures enc_seq(m, l, id, n) == cat(m, l@, rep(id, k), n)
    decreases n
{ if n > 0 { lemma_cat_seq(m, l, id, k, n - 1); } }
pub proof fn lemma_cat_tup(m: Tys, l: Vec<StrictVal>, f: Seq<SemId>, n: int)
    requires 0 <= n <= l@.len() ensures enc_tup(m, l, f, n) == cat(m, l@, f, n)
    decreases n
{ if n > 0 { lemma_cat_tup(m, l, f, n - 1); } }
pub proof fn lemma_cat_pairs(m: Tys, l: Vec<(StrictVal, StrictVal)>, k: SemId, id: SemId, n: int)
    requires 0 <= n <= l@.len() ensures enc_pairs(m, l, k, id, n) == cat(m, flat(l@), alt(k, id, l@.len() as int), 2 * n)
    decreases n
{
    if n > 0 {
        lemma_cat_pairs(m, l, k, id, n - 1);
        let (vs, f) = (flat(l@), alt(k, id, l@.len() as int));
        assert(vs[2 * n - 2] == l@[n - 1].0 && vs[2 * n - 1] == l@[n - 1].1 && f[2 * n - 2] == k && f[2 * n - 1] == id);
        assert(cat(m, vs, f, 2 * n) == cat(m, vs, f, 2 * n - 1) + enc(m, vs[2 * n - 1], f[2 * n - 1]));
        assert(cat(m, vs, f, 2 * n - 1) == cat(m, vs, f, 2 * n - 2) + enc(m, vs[2 * n - 2], f[2 * n - 2]));
    }
}
pub open spec fn field_vals(x: Seq<(FieldName, StrictVal)>, f: Seq<Field<SemId>>) -> Seq<StrictVal> { Seq::new(f.len(), |j: int| x[ix_pos(x, f[j].name)].1) }
pub proof fn lemma_cat_fields(m: Tys, x: IxMap<FieldName, StrictVal>, f: Seq<Field<SemId>>, n: int)
    requires 0 <= n <= f.len(), forall|j: int| 0 <= j < f.len() ==> ix_has(x@, (#[trigger] f[j]).name, ix_pos(x@, f[j].name)) ensures enc_fields(m, x, f, n) == cat(m, field_vals(x@, f), field_tys(f), n)
    decreases n
{ if n > 0 { lemma_cat_fields(m, x, f, n - 1); assert(ix_has(x@, f[n - 1].name, ix_pos(x@, f[n - 1].name))); } }
/// Values which are not made of others.
pub proof fn lemma_fit_number(m: Tys, n: StrictNum, id: SemId)
    requires conf(m, StrictVal::Number(n), id), sup(m, StrictVal::Number(n), id) ensures fits(m, StrictVal::Number(n), id, 1), byte_ty(m, id) ==> enc(m, StrictVal::Number(n), id).len() == 1
{
    broadcast use lemma_after_bytes;
    let v = StrictVal::Number(n);
    reveal(conf_ty); reveal(enc_ty); reveal(fits); lemma_conf_unfold(m, v, id);
    if let Some(Ty::Primitive(p)) = find_ty(m, id) {
        assert(num_le(n).len() == 8) by { assert(prim_size(p.code) <= 8); }
        assert(enc(m, v, id).len() == prim_size(p.code));
        assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, 1) == Some(t) by { reveal(parse); }
    }
}
pub proof fn lemma_fit_enum(m: Tys, t: EnumTag, id: SemId)
    requires conf(m, StrictVal::Enum(t), id) ensures fits(m, StrictVal::Enum(t), id, 1), enc(m, StrictVal::Enum(t), id).len() == 1, match find_ty(m, id) { Some(Ty::Enum(vs)) => is_tag(vs, enc(m, StrictVal::Enum(t), id)[0]), _ => false }
{
    broadcast use lemma_after_bytes;
    let v = StrictVal::Enum(t);
    reveal(conf_ty); reveal(enc_ty); reveal(fits); lemma_conf_unfold(m, v, id);
    if let Some(Ty::Enum(vs)) = find_ty(m, id) {
        let i = choose|i: int| ev_sel(vs@, t, i); lemma_ev_pos(&vs, t, i);
        assert forall|x: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + x, 1) == Some(x) by { reveal(parse); }
    }
}
/// Tags and numbers standing for the bytes of a text.
pub open spec fn tags(b: Seq<u8>) -> Seq<StrictVal> { Seq::new(b.len(), |j: int| StrictVal::Enum(EnumTag::Ord(b[j]))) }
pub open spec fn nums(b: Seq<u8>) -> Seq<StrictVal> { Seq::new(b.len(), |j: int| StrictVal::Number(StrictNum::Uint(b[j] as u64))) }
pub proof fn lemma_tags(m: Tys, b: Seq<u8>, id: SemId)
    requires chars_of(m, id, b) ensures forall|j: int| 0 <= j < b.len() ==> fits(m, #[trigger] tags(b)[j], id, 1), cat(m, tags(b), rep(id, b.len() as int), b.len() as int) == b
{
    reveal(conf_ty); reveal(enc_ty);
    if let Some(Ty::Enum(vs)) = find_ty(m, id) {
        assert forall|j: int| 0 <= j < b.len() implies fits(m, #[trigger] tags(b)[j], id, 1) && enc(m, tags(b)[j], id) == seq![b[j]] by {
            assert(is_tag(vs, b[j]));
            let i = choose|i: int| 0 <= i < vs@.len() && (#[trigger] vs@[i]).tag == b[j];
            assert(ev_sel(vs@, EnumTag::Ord(b[j]), i));
            lemma_ev_pos(&vs, EnumTag::Ord(b[j]), i);
            lemma_conf_unfold(m, tags(b)[j], id);
            lemma_fit_enum(m, EnumTag::Ord(b[j]), id);
        }
        lemma_ones(m, tags(b), rep(id, b.len() as int), b.len() as int);
        assert(cat(m, tags(b), rep(id, b.len() as int), b.len() as int) =~= b);
    }
}
pub proof fn lemma_nums(m: Tys, b: Seq<u8>, id: SemId)
    requires byte_ty(m, id) ensures forall|j: int| 0 <= j < b.len() ==> fits(m, #[trigger] nums(b)[j], id, 1), cat(m, nums(b), rep(id, b.len() as int), b.len() as int) == b
{
    reveal(conf_ty); reveal(enc_ty); broadcast use lemma_byte;
    assert forall|j: int| 0 <= j < b.len() implies fits(m, #[trigger] nums(b)[j], id, 1) && enc(m, nums(b)[j], id) == seq![b[j]] by {
        lemma_conf_unfold(m, nums(b)[j], id);
        lemma_fit_number(m, StrictNum::Uint(b[j] as u64), id);
    }
    lemma_ones(m, nums(b), rep(id, b.len() as int), b.len() as int);
    assert(cat(m, nums(b), rep(id, b.len() as int), b.len() as int) =~= b);
}
/// Bytes at the start of an input: `a` of `k` bytes, of a length within the bounds.
pub proof fn lemma_text(a: Seq<u8>, z: Sizing, t: Seq<u8>)
    requires within(a.len(), z) ensures ({ let b = prefix(a.len(), z.max) + a + t; has_text(b, z.max) && text_at(b, z.max) == a && after_text(b, z.max) == t && le_at(b, len_width(z.max)) == a.len() && b.len() >= len_width(z.max) })
{
    broadcast use lemma_after_num, lemma_after_bytes; reveal(has_w); reveal(text_w); reveal(after_w);
    let b = prefix(a.len(), z.max) + a + t;
    assert(b =~= prefix(a.len(), z.max) + (a + t));
    lemma_after_num(a.len() as u64, len_width(z.max), a + t);
}
/// A number of items at the start of an input.
pub proof fn lemma_counted(k: nat, a: Seq<u8>, z: Sizing, t: Seq<u8>)
    requires within(k, z) ensures ({ let b = prefix(k, z.max) + a + t; le_at(b, len_width(z.max)) == k && b.len() >= len_width(z.max) && b.skip(len_width(z.max)) == a + t })
{
    let b = prefix(k, z.max) + a + t;
    assert(b =~= prefix(k, z.max) + (a + t));
    lemma_after_num(k as u64, len_width(z.max), a + t);
}
pub proof fn lemma_cut_item(a: Seq<u8>, b: Seq<u8>, e: Seq<u8>)
    requires a == e + b ensures cut(a, b) == e
{ assert(cut(a, b) =~= e); }
pub proof fn lemma_fit_all(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>) -> (n: nat)
    requires vs.len() == f.len(), forall|i: int| 0 <= i < vs.len() ==> fit(m, #[trigger] vs[i], f[i])
    ensures forall|t: Seq<u8>| ({ let s = #[trigger] cuts(m, f, vs.len() as int, cat(m, vs, f, vs.len() as int) + t, n); s is Some && s->Some_0.len() == vs.len() + 1 && s->Some_0.last() == t && forall|i: int| 0 <= i < vs.len() ==> #[trigger] s->Some_0[i] == enc(m, vs[i], f[i]) + s->Some_0[i + 1] })
{
    let n = lemma_depth(m, vs, f, vs.len() as int);
    assert forall|t: Seq<u8>| ({ let s = #[trigger] cuts(m, f, vs.len() as int, cat(m, vs, f, vs.len() as int) + t, n); s is Some && s->Some_0.len() == vs.len() + 1 && s->Some_0.last() == t && forall|i: int| 0 <= i < vs.len() ==> #[trigger] s->Some_0[i] == enc(m, vs[i], f[i]) + s->Some_0[i + 1] }) by {
        lemma_cat(m, vs, f, vs.len() as int, t, n);
    }
    n
}
pub proof fn lemma_differ_items(m: Tys, vs: Seq<StrictVal>, f: Seq<SemId>, s: Seq<Seq<u8>>, step: int)
    requires s.len() == vs.len() + 1, forall|i: int| 0 <= i < vs.len() ==> #[trigger] s[i] == enc(m, vs[i], f[i]) + s[i + 1],
        forall|x: int, y: int| 0 <= x < y < vs.len() && x % step == 0 && y % step == 0 ==> enc(m, #[trigger] vs[x], f[x]) != enc(m, #[trigger] vs[y], f[y])
    ensures differ(s, step)
{
    reveal(differ);
    assert forall|x: int, y: int| 0 <= x < y < s.len() - 1 && x % step == 0 && y % step == 0 implies cut(#[trigger] s[x], s[x + 1]) != cut(#[trigger] s[y], s[y + 1]) by {
        lemma_cut_item(s[x], s[x + 1], enc(m, vs[x], f[x])); lemma_cut_item(s[y], s[y + 1], enc(m, vs[y], f[y]));
        assert(enc(m, vs[x], f[x]) != enc(m, vs[y], f[y]));
    }
}
/// The encoding of a value of a supported type is read, whatever follows it.
pub proof fn lemma_fits(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), sup(m, v, id) ensures fit(m, v, id)
    decreases v
{
    lemma_conf_unfold(m, v, id);
    let ty = find_ty(m, id)->Some_0;
    match v {
        StrictVal::Unit => { reveal(conf_ty); lemma_fit_unit(m, id); }
        StrictVal::Number(n) => { reveal(conf_ty); lemma_fit_number(m, n, id); }
        StrictVal::Enum(t) => { reveal(conf_ty); lemma_fit_enum(m, t, id); }
        StrictVal::Union(t, x) => {
            reveal(conf_ty);
            if let Ty::Union(vs) = ty {
                let i = choose|i: int| uv_sel(vs@, t, i) && conf(m, *x, (#[trigger] vs@[i]).1);
                lemma_uv_pos(&vs, t, i);
                lemma_fits(m, *x, vs@[i].1);
                lemma_fit_union(m, v, id);
            }
        }
        StrictVal::Bytes(b) => { reveal(conf_ty); lemma_fit_bytes(m, v, id); }
        StrictVal::String(b) => { reveal(conf_ty); lemma_fit_string(m, v, id); }
        StrictVal::List(l) => {
            assert forall|j: int| 0 <= j < l@.len() implies fit(m, #[trigger] l@[j], list_item(ty)) by { reveal(conf_ty); lemma_list_smaller(v, &l, j); assert(conf(m, l@[j], list_item(ty))); assert(sup(m, l@[j], list_item(ty))); lemma_fits(m, l@[j], list_item(ty)); }
            lemma_fit_list(m, v, id);
        }
        StrictVal::Set(l) => {
            assert forall|j: int| 0 <= j < l@.len() implies fit(m, #[trigger] l@[j], list_item(ty)) by { reveal(conf_ty); lemma_list_smaller(v, &l, j); assert(conf(m, l@[j], list_item(ty))); assert(sup(m, l@[j], list_item(ty))); lemma_fits(m, l@[j], list_item(ty)); }
            lemma_fit_set(m, v, id);
        }
        StrictVal::Tuple(l) => {
            assert(ty is Tuple) by { reveal(conf_ty); }
            let f = ty->Tuple_0@;
            assert forall|j: int| 0 <= j < l@.len() implies fit(m, #[trigger] l@[j], f[j]) by { reveal(conf_ty); lemma_list_smaller(v, &l, j); assert(conf(m, l@[j], f[j])); assert(sup(m, l@[j], f[j])); lemma_fits(m, l@[j], f[j]); }
            lemma_fit_tuple(m, v, id);
        }
        StrictVal::Struct(x) => {
            assert(ty is Struct) by { reveal(conf_ty); }
            let f = ty->Struct_0@;
            assert forall|j: int| 0 <= j < f.len() implies #[trigger] fit_field(m, v, f, j) by {
                reveal(conf_ty); let p = ix_pos(x@, f[j].name); assert(ix_has(x@, f[j].name, p)); lemma_struct_smaller(v, p); assert(conf(m, x@[p].1, f[j].ty)); assert(sup(m, x@[p].1, f[j].ty)); lemma_fits(m, x@[p].1, f[j].ty);
            }
            lemma_fit_struct(m, v, id);
        }
        StrictVal::Map(l) => {
            assert(ty is Map) by { reveal(conf_ty); }
            let (k, i) = (ty->Map_0, ty->Map_1);
            assert forall|j: int| 0 <= j < l@.len() implies fit(m, (#[trigger] l@[j]).0, k) && fit(m, l@[j].1, i) by {
                reveal(conf_ty); lemma_map_smaller(v, &l, j); assert(conf(m, l@[j].0, k)); assert(sup(m, l@[j].0, k)); lemma_fits(m, l@[j].0, k); lemma_fits(m, l@[j].1, i);
            }
            lemma_fit_map(m, v, id);
        }
    }
}
pub open spec fn list_item(ty: Ty<SemId>) -> SemId { match ty { Ty::Array(i, _) => i, Ty::List(i, _) => i, Ty::Set(i, _) => i, _ => arbitrary() } }
pub proof fn lemma_fit_unit(m: Tys, id: SemId)
    requires conf(m, StrictVal::Unit, id) ensures fit(m, StrictVal::Unit, id)
{
    let v = StrictVal::Unit; lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, 1) == Some(t) by { lemma_step(m, id, enc(m, v, id) + t, 0); assert(enc(m, v, id) + t =~= t); assert(t.skip(0) =~= t); }
    assert(fits(m, v, id, 1));
}
pub proof fn lemma_fit_union(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), v is Union, match (v, find_ty(m, id)) { (StrictVal::Union(t, x), Some(Ty::Union(vs))) => fit(m, *x, vs@[uv_pos(vs@, t)].1), _ => true } ensures fit(m, v, id)
{
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty);
    if let (StrictVal::Union(t, x), Some(Ty::Union(vs))) = (v, find_ty(m, id)) {
        let i = choose|i: int| uv_sel(vs@, t, i) && conf(m, *x, (#[trigger] vs@[i]).1);
        lemma_uv_pos(&vs, t, i);
        let tag = vs@[i].0.tag;
        assert(uv_sel(vs@, EnumTag::Ord(tag), i)); lemma_uv_pos(&vs, EnumTag::Ord(tag), i);
        let n = choose|n: nat| #[trigger] fits(m, *x, vs@[i].1, n);
        assert(fits(m, *x, vs@[i].1, n));
        reveal(fits);
        assert forall|r: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + r, n + 1) == Some(r) by {
            lemma_step(m, id, enc(m, v, id) + r, n);
            let b = enc(m, v, id) + r;
            assert(b.skip(1) =~= enc(m, *x, vs@[i].1) + r); assert(b[0] == tag);
        }
        assert(fits(m, v, id, n + 1));
    }
}
pub proof fn lemma_fit_bytes(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), sup(m, v, id), v is Bytes ensures fit(m, v, id)
{
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    match (v, find_ty(m, id)) {
        (StrictVal::Bytes(b), Some(Ty::Array(i, k))) => {
            assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, 1) == Some(t) by { lemma_step(m, id, enc(m, v, id) + t, 0); lemma_after_bytes(b@, t); }
            assert(fits(m, v, id, 1));
        }
        (StrictVal::Bytes(b), Some(Ty::List(i, z))) => {
            lemma_nums(m, b@, i);
            let k = b@.len() as int; let f = rep(i, k);
            assert forall|j: int| 0 <= j < k implies fit(m, #[trigger] nums(b@)[j], f[j]) by { assert(fits(m, nums(b@)[j], i, 1)); }
            let n = lemma_fit_all(m, nums(b@), f);
            assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by {
                lemma_step(m, id, enc(m, v, id) + t, n); lemma_text(b@, z, t); lemma_counted(b@.len(), b@, z, t);
                assert(last(cuts(m, f, k, b@ + t, n)) == Some(t));
            }
            assert(fits(m, v, id, n + 1));
        }
        _ => {}
    }
}
pub proof fn lemma_fit_string(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), sup(m, v, id), v is String ensures fit(m, v, id)
{
    broadcast use string_utf8;
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    match (v, find_ty(m, id)) {
        (StrictVal::String(b), Some(Ty::Array(i, c))) => {
            lemma_tags(m, b@, i);
            let k = b@.len() as int; let f = rep(i, k);
            assert forall|j: int| 0 <= j < k implies fit(m, #[trigger] tags(b@)[j], f[j]) by { assert(fits(m, tags(b@)[j], i, 1)); }
            let n = lemma_fit_all(m, tags(b@), f);
            assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by { lemma_step(m, id, enc(m, v, id) + t, n); lemma_after_bytes(b@, t); assert(last(cuts(m, f, k, b@ + t, n)) == Some(t)); }
            assert(fits(m, v, id, n + 1));
        }
        (StrictVal::String(b), Some(Ty::Tuple(g))) => {
            assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, 1) == Some(t) by { lemma_step(m, id, enc(m, v, id) + t, 0); lemma_text(b@, rs_sizing(m, g@), t); }
            assert(fits(m, v, id, 1));
        }
        (StrictVal::String(b), Some(Ty::List(i, z))) => {
            if chars_of(m, i, b@) {
                lemma_tags(m, b@, i);
                let k = b@.len() as int; let f = rep(i, k);
                assert forall|j: int| 0 <= j < k implies fit(m, #[trigger] tags(b@)[j], f[j]) by { assert(fits(m, tags(b@)[j], i, 1)); }
                let n = lemma_fit_all(m, tags(b@), f);
                assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by {
                    lemma_step(m, id, enc(m, v, id) + t, n); lemma_text(b@, z, t); lemma_counted(b@.len(), b@, z, t);
                    assert(last(cuts(m, f, k, b@ + t, n)) == Some(t));
                }
                assert(fits(m, v, id, n + 1));
            } else {
                assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, 1) == Some(t) by { lemma_step(m, id, enc(m, v, id) + t, 0); lemma_text(b@, z, t); }
                assert(fits(m, v, id, 1));
            }
        }
        _ => {}
    }
}
/// Items of a list of bytes or characters take one byte each.
pub proof fn lemma_narrow(m: Tys, l: Vec<StrictVal>, i: SemId)
    requires forall|j: int| 0 <= j < l@.len() ==> conf(m, #[trigger] l@[j], i) && sup(m, l@[j], i)
    ensures byte_ty(m, i) ==> cat(m, l@, rep(i, l@.len() as int), l@.len() as int).len() == l@.len(),
        char_enum_id(m, i) ==> ({ let s = cat(m, l@, rep(i, l@.len() as int), l@.len() as int); s.len() == l@.len() && chars_of(m, i, s) })
{
    let k = l@.len() as int; let f = rep(i, k);
    reveal(conf_ty);
    if byte_ty(m, i) || char_enum_id(m, i) {
        assert forall|j: int| 0 <= j < k implies enc(m, #[trigger] l@[j], f[j]).len() == 1 && match find_ty(m, i) { Some(Ty::Enum(vs)) => is_tag(vs, enc(m, l@[j], i)[0]), _ => true } by {
            lemma_conf_unfold(m, l@[j], i);
            match l@[j] { StrictVal::Number(n) => { lemma_fit_number(m, n, i); } StrictVal::Enum(t) => { lemma_fit_enum(m, t, i); } _ => {} }
        }
        lemma_ones(m, l@, f, k);
        let s = cat(m, l@, f, k);
        if let Some(Ty::Enum(vs)) = find_ty(m, i) { assert forall|j: int| 0 <= j < s.len() implies is_tag(vs, #[trigger] s[j]) by { assert(s[j] == enc(m, l@[j], f[j])[0]); assert(is_tag(vs, enc(m, l@[j], i)[0])); } }
    }
}
pub proof fn lemma_fit_list(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), sup(m, v, id), v is List, forall|j: int| 0 <= j < v->List_0@.len() ==> fit(m, #[trigger] v->List_0@[j], list_item(find_ty(m, id)->Some_0)) ensures fit(m, v, id)
{
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    let l = v->List_0; let k = l@.len() as int; let i = list_item(find_ty(m, id)->Some_0); let f = rep(i, k);
    lemma_narrow(m, l, i); lemma_cat_seq(m, l, i, k, k);
    assert forall|j: int| 0 <= j < k implies fit(m, #[trigger] l@[j], f[j]) by { }
    let n = lemma_fit_all(m, l@, f);
    let a = cat(m, l@, f, k);
    match find_ty(m, id)->Some_0 {
        Ty::Array(_, c) => {
            assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by { lemma_step(m, id, enc(m, v, id) + t, n); lemma_after_bytes(a, t); assert(last(cuts(m, f, k, a + t, n)) == Some(t)); }
            assert(fits(m, v, id, n + 1));
        }
        Ty::List(_, z) => {
            assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by {
                lemma_step(m, id, enc(m, v, id) + t, n); if a.len() == k { lemma_text(a, z, t); } lemma_counted(k as nat, a, z, t);
                assert(last(cuts(m, f, k, a + t, n)) == Some(t));
            }
            assert(fits(m, v, id, n + 1));
        }
        _ => {}
    }
}
pub proof fn lemma_fit_set(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), v is Set, forall|j: int| 0 <= j < v->Set_0@.len() ==> fit(m, #[trigger] v->Set_0@[j], list_item(find_ty(m, id)->Some_0)) ensures fit(m, v, id)
{
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    let l = v->Set_0; let k = l@.len() as int; let i = list_item(find_ty(m, id)->Some_0); let f = rep(i, k);
    lemma_cat_seq(m, l, i, k, k);
    assert forall|j: int| 0 <= j < k implies fit(m, #[trigger] l@[j], f[j]) by { }
    let n = lemma_fit_all(m, l@, f);
    let a = cat(m, l@, f, k);
    if let Ty::Set(_, z) = find_ty(m, id)->Some_0 {
        assert(distinct(m, l@, i)); reveal(distinct);
        assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by {
            lemma_counted(k as nat, a, z, t);
            lemma_differ_items(m, l@, f, cuts(m, f, k, a + t, n)->Some_0, 1);
            lemma_step(m, id, enc(m, v, id) + t, n);
        }
        assert(fits(m, v, id, n + 1));
    }
}
pub proof fn lemma_fit_map(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), v is Map, forall|j: int| 0 <= j < v->Map_0@.len() ==> fit(m, (#[trigger] v->Map_0@[j]).0, (find_ty(m, id)->Some_0)->Map_0) && fit(m, v->Map_0@[j].1, (find_ty(m, id)->Some_0)->Map_1) ensures fit(m, v, id)
{
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    if let Ty::Map(ki, i, z) = find_ty(m, id)->Some_0 {
        let l = v->Map_0; let k = l@.len() as int; let f = alt(ki, i, k); let vs = flat(l@);
        lemma_cat_pairs(m, l, ki, i, k);
        assert forall|j: int| 0 <= j < 2 * k implies fit(m, #[trigger] vs[j], f[j]) by { assert(fit(m, l@[j / 2].0, ki) && fit(m, l@[j / 2].1, i)); }
        let n = lemma_fit_all(m, vs, f);
        let a = cat(m, vs, f, 2 * k);
        assert(distinct_keys(m, l@, ki)); reveal(distinct_keys);
        assert forall|x: int, y: int| 0 <= x < y < vs.len() && x % 2 == 0 && y % 2 == 0 implies enc(m, #[trigger] vs[x], f[x]) != enc(m, #[trigger] vs[y], f[y]) by { assert(enc(m, l@[x / 2].0, ki) != enc(m, l@[y / 2].0, ki)); }
        assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by {
            lemma_counted(k as nat, a, z, t);
            lemma_differ_items(m, vs, f, cuts(m, f, 2 * k, a + t, n)->Some_0, 2);
            lemma_step(m, id, enc(m, v, id) + t, n);
        }
        assert(fits(m, v, id, n + 1));
    }
}
pub proof fn lemma_fit_tuple(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), v is Tuple, forall|j: int| 0 <= j < v->Tuple_0@.len() ==> fit(m, #[trigger] v->Tuple_0@[j], (find_ty(m, id)->Some_0)->Tuple_0@[j]) ensures fit(m, v, id)
{
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    if let Ty::Tuple(g) = find_ty(m, id)->Some_0 {
        let l = v->Tuple_0; let k = l@.len() as int;
        lemma_cat_tup(m, l, g@, k);
        let n = lemma_fit_all(m, l@, g@);
        let a = cat(m, l@, g@, k);
        assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by { assert(last(cuts(m, g@, k, a + t, n)) == Some(t)); lemma_step(m, id, enc(m, v, id) + t, n); }
        assert(fits(m, v, id, n + 1));
    }
}
pub open spec fn fit_field(m: Tys, v: StrictVal, f: Seq<Field<SemId>>, j: int) -> bool { fit(m, v->Struct_0@[ix_pos(v->Struct_0@, f[j].name)].1, f[j].ty) }
pub proof fn lemma_fit_struct(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), v is Struct, find_ty(m, id)->Some_0 is Struct ==> (forall|j: int| 0 <= j < (find_ty(m, id)->Some_0)->Struct_0@.len() ==> #[trigger] fit_field(m, v, (find_ty(m, id)->Some_0)->Struct_0@, j)) ensures fit(m, v, id)
{
    lemma_conf_unfold(m, v, id); reveal(conf_ty); reveal(enc_ty); reveal(fits);
    if let Ty::Struct(g) = find_ty(m, id)->Some_0 {
        let x = v->Struct_0; let k = g@.len() as int; let vs = field_vals(x@, g@); let f = field_tys(g@);
        lemma_cat_fields(m, x, g@, k);
        assert forall|j: int| 0 <= j < k implies fit(m, #[trigger] vs[j], f[j]) by { assert(fit_field(m, v, g@, j)); }
        let n = lemma_fit_all(m, vs, f);
        let a = cat(m, vs, f, k);
        assert forall|t: Seq<u8>| #[trigger] parse(m, id, enc(m, v, id) + t, n + 1) == Some(t) by { assert(last(cuts(m, f, k, a + t, n)) == Some(t)); lemma_step(m, id, enc(m, v, id) + t, n); }
        assert(fits(m, v, id, n + 1));
    }
}
/// The encoding of a value of a supported type is accepted and nothing is left.
pub proof fn lemma_accepted(m: Tys, v: StrictVal, id: SemId)
    requires conf(m, v, id), sup(m, v, id) ensures good(m, id, enc(m, v, id)), end_of(m, id, enc(m, v, id)).len() == 0
{
    lemma_fits(m, v, id); let n = choose|n: nat| #[trigger] fits(m, v, id, n); assert(fits(m, v, id, n)); reveal(fits);
    let e = enc(m, v, id); assert(e + Seq::<u8>::empty() =~= e);
    assert(parse(m, id, e + Seq::<u8>::empty(), n) == Some(Seq::<u8>::empty()));
    lemma_end(m, id, e, n);
}
