//! C18: value accessors.
use std::panic::{catch_unwind, AssertUnwindSafe};

use strict_encoding::stl::{AlphaCaps, Bool};
use strict_encoding::VariantName;
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::StrictVal;

use crate::c09::{bytes, num, text, val};
use crate::rng::Rng;
use crate::{cover, ensure, fail, gen, input, Res};

/// What an accessor did: an answer or a refusal (panic).
fn ask<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

fn core(r: &mut Rng) -> StrictVal {
    match r.below(12) {
        0 => match r.below(6) {
            0 => StrictVal::none(),
            1 => StrictVal::some(val(r, 1)),
            2 => StrictVal::Union(EnumTag::Ord(r.below(3) as u8), Box::new(val(r, 1))),
            3 => StrictVal::Union(EnumTag::Ord(r.below(2) as u8), Box::new(StrictVal::Unit)),
            4 => StrictVal::Union(EnumTag::Name(VariantName::from(*r.pick(&["none", "some", "nonE", "som"]))), Box::new(val(r, 1))),
            _ => StrictVal::Union(EnumTag::Name(VariantName::from(*r.pick(&["none", "some"]))), Box::new(StrictVal::Tuple(vec![StrictVal::Unit]))),
        },
        1 => StrictVal::Number(num(r)),
        2 => StrictVal::Bytes(Blob::from(if r.chance(1, 2) { text(r).into_bytes() } else { bytes(r) })),
        3 | 4 => { // characters
            let n = r.below(5);
            let ascii = r.chance(3, 4);
            StrictVal::List((0..n).map(|_| { let c = StrictVal::Enum(EnumTag::Ord(if ascii { r.below(128) as u8 } else { r.byte() })); if r.chance(1, 12) { StrictVal::Tuple(vec![c]) } else if r.chance(1, 20) { StrictVal::Enum(EnumTag::Name(gen::vname(r))) } else { c } }).collect())
        }
        5 => StrictVal::Enum(match r.below(3) { 0 => EnumTag::Ord(r.below(3) as u8), 1 => EnumTag::Ord(b'A' + r.below(28) as u8), _ => EnumTag::Name(VariantName::from(*r.pick(&["true", "false", "a", "b", "z", "aa", "maybe"]))) }),
        6 => { let n = r.below(4); let k: Vec<StrictVal> = (0..3).map(|_| val(r, 0)).collect(); StrictVal::Map((0..n).map(|_| (if r.chance(1, 2) { r.pick(&k).clone() } else { val(r, 1) }, val(r, 1))).collect()) }
        7 => { let n = r.below(4); StrictVal::Struct((0..n).map(|_| (strict_encoding::FieldName::from(*r.pick(NAMES)), val(r, 1))).collect()) }
        _ => { let d = r.range(0, 3) as u32; val(r, d) }
    }
}
const NAMES: &[&str] = &["a", "b", "ab", "abc", "name", "ticker"];

fn strip(v: &StrictVal) -> &StrictVal {
    match v { StrictVal::Tuple(f) if f.len() == 1 => strip(&f[0]), _ => v }
}
/// The code of an enumeration value behind wrappers.
fn code(v: &StrictVal) -> Option<u8> { match strip(v) { StrictVal::Enum(EnumTag::Ord(x)) => Some(*x), _ => None } }

fn same<T: ?Sized + std::fmt::Debug>(key: &str, got: Option<&T>, want: Option<&T>) -> Res {
    match (got, want) {
        (Some(a), Some(b)) => ensure!(std::ptr::eq(a, b), key, "{key}: answered {a:?}, expected {b:?}"),
        (None, None) => {}
        _ => fail!(key, "{key}: answered {got:?}, expected {want:?}"),
    }
    Ok(())
}

pub fn run(r: &mut Rng, _case: u64) -> Res {
    let mut v = core(r);
    let wraps = match r.below(4) { 0 => 0, 1 => 1, 2 => r.range(1, 4), _ => r.range(0, 40) };
    for _ in 0..wraps { v = StrictVal::Tuple(vec![v]) }
    input(format!("{v:?}"));
    let c = strip(&v);
    cover(format!("{} behind {} wrappers", match c {
        StrictVal::Unit => "unit", StrictVal::Number(_) => "number", StrictVal::String(_) => "string", StrictVal::Bytes(_) => "bytes", StrictVal::Struct(_) => "struct", StrictVal::Enum(_) => "enum",
        StrictVal::Union(..) => "union", StrictVal::List(_) => "list", StrictVal::Set(_) => "set", StrictVal::Tuple(_) => "tuple", StrictVal::Map(_) => "map" }, wraps.min(3)));
    same("skip-wrapper", Some(v.skip_wrapper()), Some(c))?;
    // option
    let named = |t: &EnumTag, n: &str, o: u8| match t { EnumTag::Name(x) => x.as_str() == n, EnumTag::Ord(x) => *x == o };
    let want = match c {
        StrictVal::Union(t, x) if named(t, "some", 1) => Some(Some(&**x)),
        StrictVal::Union(t, x) if named(t, "none", 0) && **x == StrictVal::Unit => Some(None),
        _ => None,
    };
    let got = ask(|| v.unwrap_option());
    ensure!(got.is_some() == want.is_some(), "option", "unwrap_option: {got:?}, expected {want:?}");
    if let (Some(g), Some(w)) = (got, want) { same("option", g, w)? }
    // numbers
    let n = match c { StrictVal::Number(n) => Some(n), _ => None };
    same("num", ask(|| v.unwrap_num()), n)?;
    let u = match n { Some(StrictNum::Uint(u)) => Some(*u), _ => None };
    let got = (ask(|| v.unwrap_uint::<u8>()), ask(|| v.unwrap_uint::<u16>()), ask(|| v.unwrap_uint::<u32>()), ask(|| v.unwrap_uint::<u64>()), ask(|| v.unwrap_uint::<u128>()), ask(|| v.unwrap_uint::<i64>()));
    let want = (u.and_then(|u| u8::try_from(u).ok()), u.and_then(|u| u16::try_from(u).ok()), u.and_then(|u| u32::try_from(u).ok()), u, u.map(|u| u as u128), u.and_then(|u| i64::try_from(u).ok()));
    ensure!(got == want, "uint", "unwrap_uint: {got:?}, expected {want:?}");
    if let Some(n) = n {
        let got = ask(|| n.unwrap_uint::<u8>());
        ensure!(got == want.0, "uint", "StrictNum::unwrap_uint: {got:?}, expected {:?}", want.0);
    }
    // text
    let want = match c {
        StrictVal::String(s) => Some(s.clone()),
        StrictVal::Bytes(b) => String::from_utf8(b.0.clone()).ok(),
        StrictVal::List(l) if l.iter().all(|x| matches!(x, StrictVal::Enum(_))) => l.iter().map(code).collect::<Option<Vec<u8>>>().and_then(|b| String::from_utf8(b).ok()),
        _ => None,
    };
    let got = ask(|| v.unwrap_string());
    ensure!(got == want, "string", "unwrap_string: {got:?}, expected {want:?}");
    // bytes
    same("bytes", ask(|| v.unwrap_bytes()), match c { StrictVal::Bytes(b) => Some(&b.0[..]), _ => None })?;
    // tuples, lists and sets
    for _ in 0..3 {
        let i = if r.chance(1, 5) { *r.pick(&[255u64, 256, 257, 65535]) } else { r.below(6) };
        let want = match c { StrictVal::Tuple(f) => f.iter().nth(i as usize), _ => None };
        same("tuple", ask(|| v.unwrap_tuple(i as u16)), want)?;
        let want = match c { StrictVal::List(f) | StrictVal::Set(f) => f.iter().nth(i as usize), _ => None };
        same("pos", ask(|| v.unwrap_pos(i as usize)), want)?;
    }
    // structures
    for f in NAMES {
        let want = match c { StrictVal::Struct(m) => m.iter().find(|(k, _)| k.as_str() == *f).map(|(_, v)| v), _ => None };
        same("struct", ask(|| v.unwrap_struct(f)), want)?;
    }
    // enumerations and unions
    let t = match c { StrictVal::Enum(t) => Some(t), _ => None };
    same("enum-tag", ask(|| v.unwrap_enum_tag()), t)?;
    if let Some(t) = t {
        let want = match t { EnumTag::Ord(o) => Some(*o), _ => None };
        let got = ask(|| t.unwrap_ord());
        ensure!(got == want, "ord", "unwrap_ord: {got:?}, expected {want:?}");
    }
    let got = ask(|| v.unwrap_enum::<Bool>());
    let want = t.and_then(|t| match t { EnumTag::Ord(0) => Some(Bool::False), EnumTag::Ord(1) => Some(Bool::True), EnumTag::Name(n) if n.as_str() == "false" => Some(Bool::False), EnumTag::Name(n) if n.as_str() == "true" => Some(Bool::True), _ => None });
    ensure!(got == want, "enum", "unwrap_enum::<Bool>: {got:?}, expected {want:?}");
    let got = ask(|| v.unwrap_enum::<AlphaCaps>()).map(|a| a as u8);
    let want = t.and_then(|t| match t {
        EnumTag::Ord(o) if (b'A'..=b'Z').contains(o) => Some(*o),
        EnumTag::Name(n) => <AlphaCaps as strict_encoding::StrictSum>::ALL_VARIANTS.iter().find(|(_, name)| *name == n.as_str()).map(|(o, _)| *o),
        _ => None,
    });
    ensure!(got == want, "enum", "unwrap_enum::<AlphaCaps>: {got:?}, expected {want:?}");
    let got = ask(|| v.unwrap_union());
    match (got, c) {
        (Some((t, x)), StrictVal::Union(ct, cx)) => ensure!(std::ptr::eq(t, ct) && std::ptr::eq(x, &**cx), "union", "unwrap_union: {t:?} {x:?}"),
        (None, StrictVal::Union(..)) => fail!("union", "unwrap_union refused a union"),
        (Some(x), _) => fail!("union", "unwrap_union answered {x:?} for another kind"),
        _ => {}
    }
    // maps
    let keys: Vec<StrictVal> = match c { StrictVal::Map(m) => m.iter().map(|(k, _)| k.clone()).collect(), _ => vec![] };
    for _ in 0..3 {
        let k = if !keys.is_empty() && r.chance(2, 3) { r.pick(&keys).clone() } else { val(r, 0) };
        let want = match c { StrictVal::Map(m) => m.iter().find(|e| e.0 == k).map(|e| &e.1), _ => None };
        same("key", ask(|| v.unwrap_key(&k)), want)?;
    }
    Ok(())
}
