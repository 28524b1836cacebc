//! C10–C13: checking, serializing and deserializing values, against independent definitions of
//! conformity (`conf`) and of the strict encoding (`enc`).
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use amplify::confinement::{Confined, U32};
use amplify::num::{i1024, u1024};

use indexmap::IndexMap;
use strict_encoding::{FieldName, Primitive, Sizing, StreamReader, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::{SemId, StrictVal, Ty, TypeSystem};

use crate::rng::Rng;
use crate::{cover, ensure, gen, input, no_panic, Res};

pub type Sys = BTreeMap<SemId, Ty<SemId>>;
static UNIT_TY: Ty<SemId> = Ty::Primitive(Primitive::UNIT);
/// Ids of bytes (two), of the Unicode character and of the unit.
fn known() -> &'static [SemId; 4] {
    static IDS: OnceLock<[SemId; 4]> = OnceLock::new();
    IDS.get_or_init(|| [Ty::<SemId>::BYTE.sem_id_unnamed(), Ty::<SemId>::U8.sem_id_unnamed(), Ty::<SemId>::UNICODE.sem_id_unnamed(), SemId::unit()])
}
fn lookup(sys: &Sys, id: SemId) -> Option<&Ty<SemId>> {
    if id == known()[3] { return Some(&UNIT_TY) }
    sys.get(&id)
}
fn is_byte(id: SemId) -> bool { known()[..2].contains(&id) }
fn is_uni(id: SemId) -> bool { id == known()[2] }

/// Width in bytes and signedness of the numbers a primitive stands for (no floats, no natural numbers).
fn number(p: Primitive) -> Option<(usize, bool)> {
    let c = p.into_code();
    let size = |c: u8| if c < 0x20 { c as usize } else { 16 * (c as usize - 0x20 + 2) };
    match c {
        0 => None,
        0x40 => Some((1, false)),
        1..=0x3f => Some((size(c), false)),
        0x41..=0x7f => Some((size(c - 0x40), true)),
        _ => None,
    }
}
fn le_num(n: &StrictNum) -> ([u8; 128], bool) {
    match n {
        StrictNum::Uint(v) => { let mut b = [0; 128]; b[..8].copy_from_slice(&v.to_le_bytes()); (b, false) }
        StrictNum::Int(v) => { let mut b = [if *v < 0 { 0xff } else { 0 }; 128]; b[..8].copy_from_slice(&v.to_le_bytes()); (b, *v < 0) }
        StrictNum::BigUint(v) => (words(v.as_inner()), false),
        StrictNum::BigInt(v) => { let b = words(v.as_inner()); (b, b[127] >= 128) }
        _ => unreachable!(),
    }
}
fn words(w: &[u64; 16]) -> [u8; 128] { let mut b = [0; 128]; for i in 0..16 { b[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes()) } b }
fn num_fits(n: &StrictNum, size: usize, signed: bool) -> bool {
    if size > 128 { return false }
    let (b, neg) = le_num(n);
    let signed_repr = matches!(n, StrictNum::Int(_) | StrictNum::BigInt(_));
    if signed != signed_repr { return false }
    let fill = if neg { 0xff } else { 0 };
    b[size..].iter().all(|x| *x == fill) && (!signed || (b[size - 1] >= 128) == neg)
}
fn tags(sys: &Sys, id: SemId) -> Option<BTreeSet<u8>> {
    match lookup(sys, id)? { Ty::Enum(v) => Some(v.iter().map(|v| v.tag).collect()), _ => None }
}
/// Restricted strings: characters of the head, of the tail, and the bounds of the whole length.
fn rstring(sys: &Sys, f: &UnnamedFields<SemId>) -> Option<(BTreeSet<u8>, BTreeSet<u8>, u128, u128)> {
    if f.len() != 2 { return None }
    let &Ty::List(rest, sizing) = lookup(sys, f[1])? else { return None };
    let (a, b) = (tags(sys, f[0])?, tags(sys, rest)?);
    let chars = |s: &BTreeSet<u8>| s.iter().all(|t| (32..=127).contains(t));
    if !chars(&a) || !chars(&b) { return None }
    Some((a, b, sizing.min as u128 + 1, sizing.max as u128 + 1))
}
fn within(n: usize, s: &Sizing) -> bool { n as u128 >= s.min as u128 && n as u128 <= s.max as u128 }

/// The value is one of the type's values.
pub fn conf(sys: &Sys, v: &StrictVal, id: SemId) -> bool {
    let Some(ty) = lookup(sys, id) else { return false };
    match (v, ty) {
        (StrictVal::Unit, Ty::Primitive(p)) => *p == Primitive::UNIT,
        (StrictVal::Number(n), Ty::Primitive(p)) => number(*p).map(|(size, signed)| num_fits(n, size, signed)).unwrap_or(false),
        (StrictVal::String(s), Ty::UnicodeChar) => s.chars().count() == 1,
        (StrictVal::Bytes(b), Ty::Array(i, n)) => is_byte(*i) && b.0.len() == *n as usize,
        (StrictVal::Bytes(b), Ty::List(i, s)) => is_byte(*i) && within(b.0.len(), s),
        (StrictVal::String(s), Ty::Array(i, n)) => (is_uni(*i) && s.chars().count() == *n as usize)
            || tags(sys, *i).map(|t| s.len() == *n as usize && s.bytes().all(|c| t.contains(&c))).unwrap_or(false),
        (StrictVal::String(s), Ty::List(i, z)) => within(s.len(), z) && (is_uni(*i) || tags(sys, *i).map(|t| s.bytes().all(|c| t.contains(&c))).unwrap_or(false)),
        (StrictVal::String(s), Ty::Tuple(f)) => rstring(sys, f).map(|(a, b, min, max)| {
            let s = s.as_bytes();
            !s.is_empty() && s.len() as u128 >= min && s.len() as u128 <= max && a.contains(&s[0]) && s[1..].iter().all(|c| b.contains(c))
        }).unwrap_or(false),
        (StrictVal::List(l), Ty::Array(i, n)) => l.len() == *n as usize && l.iter().all(|x| conf(sys, x, *i)),
        (StrictVal::List(l), Ty::List(i, z)) => within(l.len(), z) && l.iter().all(|x| conf(sys, x, *i)),
        (StrictVal::Set(l), Ty::Set(i, z)) => within(l.len(), z) && l.iter().all(|x| conf(sys, x, *i)) && distinct(sys, l.iter(), *i),
        (StrictVal::Map(l), Ty::Map(k, i, z)) => within(l.len(), z) && l.iter().all(|(a, b)| conf(sys, a, *k) && conf(sys, b, *i)) && distinct(sys, l.iter().map(|(a, _)| a), *k),
        (StrictVal::Tuple(l), Ty::Tuple(f)) => rstring(sys, f).is_none() && l.len() == f.len() && l.iter().zip(f.iter()).all(|(x, i)| conf(sys, x, *i)),
        (StrictVal::Struct(m), Ty::Struct(f)) => m.len() == f.len() && f.iter().all(|f| m.get(&f.name).map(|x| conf(sys, x, f.ty)).unwrap_or(false)),
        (StrictVal::Enum(t), Ty::Enum(vs)) => vs.iter().any(|v| is_variant(t, v)),
        (StrictVal::Union(t, x), Ty::Union(vs)) => vs.iter().find(|(v, _)| is_variant(t, v)).map(|(_, i)| conf(sys, x, *i)).unwrap_or(false),
        _ => false,
    }
}
fn is_variant(t: &EnumTag, v: &Variant) -> bool { match t { EnumTag::Ord(o) => *o == v.tag, EnumTag::Name(n) => *n == v.name } }
/// Different members have different encodings.
fn distinct<'a>(sys: &Sys, vals: impl Iterator<Item = &'a StrictVal>, id: SemId) -> bool {
    let mut seen = BTreeSet::new();
    for v in vals { let mut b = vec![]; enc(sys, v, id, &mut b); if !seen.insert(b) { return false } }
    true
}
fn prefix(len: usize, max: u128, o: &mut Vec<u8>) {
    let w = if max < 1 << 8 { 1 } else if max < 1 << 16 { 2 } else if max < 1 << 24 { 3 } else if max < 1 << 32 { 4 } else { 8 };
    o.extend(&(len as u64).to_le_bytes()[..w]);
}
/// The strict encoding of a conforming value.
pub fn enc(sys: &Sys, v: &StrictVal, id: SemId, o: &mut Vec<u8>) {
    let ty = lookup(sys, id).unwrap();
    match (v, ty) {
        (StrictVal::Unit, _) => {}
        (StrictVal::Number(n), Ty::Primitive(p)) => o.extend(&le_num(n).0[..number(*p).unwrap().0]),
        (StrictVal::String(s), Ty::UnicodeChar | Ty::Array(..)) => o.extend(s.as_bytes()),
        (StrictVal::Bytes(b), Ty::Array(..)) => o.extend(&b.0),
        (StrictVal::Bytes(b), Ty::List(_, z)) => { prefix(b.0.len(), z.max as u128, o); o.extend(&b.0) }
        (StrictVal::String(s), Ty::List(_, z)) => { prefix(s.len(), z.max as u128, o); o.extend(s.as_bytes()) }
        (StrictVal::String(s), Ty::Tuple(f)) => { prefix(s.len(), rstring(sys, f).unwrap().3, o); o.extend(s.as_bytes()) }
        (StrictVal::List(l), Ty::Array(i, _)) => l.iter().for_each(|x| enc(sys, x, *i, o)),
        (StrictVal::List(l), Ty::List(i, z)) | (StrictVal::Set(l), Ty::Set(i, z)) => { prefix(l.len(), z.max as u128, o); l.iter().for_each(|x| enc(sys, x, *i, o)) }
        (StrictVal::Map(l), Ty::Map(k, i, z)) => { prefix(l.len(), z.max as u128, o); l.iter().for_each(|(a, b)| { enc(sys, a, *k, o); enc(sys, b, *i, o) }) }
        (StrictVal::Tuple(l), Ty::Tuple(f)) => l.iter().zip(f.iter()).for_each(|(x, i)| enc(sys, x, *i, o)),
        (StrictVal::Struct(m), Ty::Struct(f)) => f.iter().for_each(|f| enc(sys, &m[&f.name], f.ty, o)),
        (StrictVal::Enum(t), Ty::Enum(vs)) => o.push(vs.iter().find(|v| is_variant(t, v)).unwrap().tag),
        (StrictVal::Union(t, x), Ty::Union(vs)) => { let (v, i) = vs.iter().find(|(v, _)| is_variant(t, v)).unwrap(); o.push(v.tag); enc(sys, x, *i, o) }
        _ => unreachable!("{v:?} does not conform to {ty:?}"),
    }
}
/// Deserialization is implemented for the type.
fn supported(sys: &Sys, id: SemId) -> bool {
    let Some(ty) = lookup(sys, id) else { return false };
    const P: &[Primitive] = &[Primitive::UNIT, Primitive::BYTE, Primitive::U8, Primitive::U16, Primitive::U24, Primitive::U32, Primitive::U40, Primitive::U48, Primitive::U56, Primitive::U64, Primitive::I8, Primitive::I16, Primitive::I32, Primitive::I64];
    match &ty {
        Ty::Primitive(p) => P.contains(p),
        Ty::UnicodeChar => false,
        Ty::List(i, z) if is_uni(*i) => z.max <= u32::MAX as u64,
        Ty::Enum(_) => true,
        Ty::Tuple(f) => rstring(sys, f).is_some() || f.iter().all(|i| supported(sys, *i)),
        Ty::Struct(f) => f.iter().all(|f| supported(sys, f.ty)),
        Ty::Union(v) => v.values().all(|i| supported(sys, *i)),
        Ty::Array(i, _) | Ty::List(i, _) | Ty::Set(i, _) => supported(sys, *i),
        Ty::Map(k, i, _) => supported(sys, *k) && supported(sys, *i),
    }
}
/// What follows the encoding of a value of the type at the start of the data; otherwise whether it is the bounds,
/// the distinctness or the characters what is violated.
pub fn valid<'a>(sys: &Sys, d: &'a [u8], id: SemId) -> Result<&'a [u8], bool> {
    fn take(d: &[u8], n: usize) -> Result<(&[u8], &[u8]), bool> { if n > d.len() { Err(false) } else { Ok(d.split_at(n)) } }
    fn count(d: &[u8], max: u128) -> Result<(u64, &[u8]), bool> {
        let mut p = vec![];
        prefix(0, max, &mut p);
        let (n, d) = take(d, p.len())?;
        let mut b = [0; 8];
        b[..n.len()].copy_from_slice(n);
        Ok((u64::from_le_bytes(b), d))
    }
    let inside = |n: u64, min: u128, max: u128| if (min..=max).contains(&(n as u128)) { Ok(()) } else { Err(true) };
    let Some(ty) = lookup(sys, id) else { return Err(false) };
    match ty {
        Ty::Primitive(Primitive::UNIT) => Ok(d),
        Ty::Primitive(p) => Ok(take(d, number(*p).ok_or(false)?.0)?.1),
        Ty::UnicodeChar => Err(false),
        Ty::Enum(vs) => { let (t, d) = take(d, 1)?; if vs.iter().any(|v| v.tag == t[0]) { Ok(d) } else { Err(false) } }
        Ty::Union(vs) => { let (t, d) = take(d, 1)?; valid(sys, d, *vs.iter().find(|(v, _)| v.tag == t[0]).ok_or(false)?.1) }
        Ty::Tuple(f) => match rstring(sys, f) {
            Some((a, b, min, max)) => {
                let (n, d) = count(d, max)?;
                let ok = inside(n, min, max);
                let (s, d) = take(d, usize::try_from(n).map_err(|_| false)?)?;
                ok?;
                if s.first().map(|c| a.contains(c)).unwrap_or(false) && s[1..].iter().all(|c| b.contains(c)) { Ok(d) } else { Err(true) }
            }
            None => f.iter().try_fold(d, |d, i| valid(sys, d, *i)),
        },
        Ty::Struct(f) => f.iter().try_fold(d, |d, f| valid(sys, d, f.ty)),
        Ty::Array(i, n) => (0..*n).try_fold(d, |d, _| valid(sys, d, *i)),
        Ty::List(i, z) => {
            let (n, d) = count(d, z.max as u128)?;
            let ok = inside(n, z.min as u128, z.max as u128);
            if is_byte(*i) || is_uni(*i) {
                let (s, d) = take(d, usize::try_from(n).map_err(|_| false)?)?;
                if is_uni(*i) { std::str::from_utf8(s).map_err(|_| false)?; }
                return ok.map(|_| d)
            }
            let mut d = d;
            for _ in 0..n { d = valid(sys, d, *i)?; }
            ok.map(|_| d)
        }
        Ty::Set(i, z) | Ty::Map(i, _, z) => {
            let (n, mut d) = count(d, z.max as u128)?;
            let mut ok = inside(n, z.min as u128, z.max as u128);
            let mut seen = BTreeSet::new();
            for _ in 0..n {
                let rest = valid(sys, d, *i)?;
                if !seen.insert(&d[..d.len() - rest.len()]) { ok = Err(true) }
                d = rest;
                if let Ty::Map(_, v, _) = ty { d = valid(sys, d, *v)? }
            }
            ok.map(|_| d)
        }
    }
}
/// The least number of bytes of an encoding, capped.
fn least(sys: &Sys, id: SemId) -> usize {
    match lookup(sys, id) {
        None => 0,
        Some(Ty::Primitive(p)) => number(*p).map(|n| n.0).unwrap_or(0),
        Some(Ty::UnicodeChar | Ty::Enum(_) | Ty::Union(_) | Ty::List(..) | Ty::Set(..) | Ty::Map(..)) => 1,
        Some(Ty::Tuple(f)) => f.iter().map(|i| least(sys, *i)).sum(),
        Some(Ty::Struct(f)) => f.iter().map(|f| least(sys, f.ty)).sum(),
        Some(&Ty::Array(i, n)) => least(sys, i) * n as usize,
    }
}
/// The number of parts the least value has.
fn weight(sys: &Sys, id: SemId) -> usize {
    1 + match lookup(sys, id) {
        Some(Ty::Tuple(f)) => f.iter().map(|i| weight(sys, *i)).sum(),
        Some(Ty::Struct(f)) => f.iter().map(|f| weight(sys, f.ty)).sum(),
        Some(&Ty::Array(i, n)) => weight(sys, i) * n as usize,
        _ => 0,
    }
}

// ---- generation ------------------------------------------------------------------------------
fn sizing(r: &mut Rng, small: bool) -> Sizing {
    let max = match r.below(if small { 3 } else { 16 }) {
        0 => r.below(4), 1 => r.below(10), 2 => 255, 3 => 300,
        4 => 256, 5 => 65535, 6 => 65536, 7 => 0xff_ffff, 8 => 0x100_0000, 9 => u32::MAX as u64, 10 => u32::MAX as u64 + 1, 11 => u64::MAX,
        12 => 254, 13 => 65534, 14 => 0xff_fffe, _ => u64::MAX - 1,
    };
    let min = match r.below(4) { 0 => r.below(4), 1 if max < 300 => max, _ => 0 };
    Sizing::new(min.min(max), max)
}
fn chars(r: &mut Rng) -> EnumVariants {
    let set: BTreeSet<u8> = match r.below(7) {
        0 => (b'a'..=b'z').collect(),
        1 => (b'A'..=b'Z').chain(b'0'..=b'9').chain([b'_']).collect(),
        2 => (32..=127).collect(),
        3 => (0..128).collect(),
        4 => (1 + r.below(200) as u8..=255).collect(),
        5 => [b'a', b'b'].into_iter().collect(),
        _ => (0..r.range(1, 20)).map(|_| r.byte()).collect(),
    };
    let mut names: Vec<_> = set.iter().map(|t| if r.chance(1, 2) { format!("c{t}") } else { let c = (*t as char).to_ascii_lowercase(); if c.is_ascii_lowercase() { c.to_string() } else { format!("c{t}") } }).collect();
    let mut seen = BTreeSet::new();
    for (n, t) in names.iter_mut().zip(&set) { if !seen.insert(n.clone()) { *n = format!("d{t}"); seen.insert(n.clone()); } }
    gen::enum_of(&set.into_iter().zip(names).map(|(tag, n)| Variant { name: VariantName::try_from(n).unwrap(), tag }).collect::<Vec<_>>())
}
/// An acyclic type system whose ids are the ids of its types; the ids in order of definition.
pub fn system(r: &mut Rng) -> (Sys, Vec<SemId>) {
    let mut sys = Sys::new();
    let mut ids = vec![];
    SPENT.with(|b| b.set(0));
    let add = |sys: &mut Sys, ids: &mut Vec<SemId>, r: &mut Rng, t: Ty<SemId>, anon: bool| {
        let mut id = t.sem_id_unnamed();
        if !anon && r.chance(1, 3) { id = gen::semid(r); while sys.contains_key(&id) { id = gen::semid(r) } }
        sys.insert(id, t);
        ids.push(id);
        id
    };
    add(&mut sys, &mut ids, r, Ty::BYTE, true);
    add(&mut sys, &mut ids, r, Ty::U8, true);
    if r.chance(1, 2) { add(&mut sys, &mut ids, r, Ty::UNICODE, true); }
    if r.chance(1, 2) { ids.push(SemId::unit()) }
    let n = r.range(2, 14);
    for _ in 0..n {
        let mk = |r: &mut Rng, ids: &Vec<SemId>| if r.chance(1, 2) { *ids.last().unwrap() } else { *r.pick(ids) };
        let t = match r.below(17) {
            0 => Ty::Primitive(Primitive::from_code(r.byte())),
            1 | 2 => Ty::Primitive(*r.pick(&[Primitive::U16, Primitive::U24, Primitive::U32, Primitive::U40, Primitive::U48, Primitive::U56, Primitive::U64, Primitive::U128, Primitive::U256, Primitive::U1024, Primitive::I8, Primitive::I16, Primitive::I24, Primitive::I32, Primitive::I64, Primitive::I128, Primitive::I1024])),
            3 => Ty::Enum(chars(r)),
            4 => { let n = r.range(1, 5) as usize; Ty::Enum(gen::enum_of(&gen::variants(r, n))) }
            5 => { let n = r.range(1, 4) as usize; let vs = gen::variants(r, n); Ty::Union(UnionVariants::try_from(vs.into_iter().map(|v| (v, mk(r, &ids))).collect::<BTreeMap<_, _>>()).unwrap()) }
            6 => {
                let none = if r.chance(4, 5) { SemId::unit() } else { mk(r, &ids) };
                let some = mk(r, &ids);
                let v = |n: &'static str, tag| Variant { name: VariantName::from(n), tag };
                Ty::Union(UnionVariants::try_from([(v("none", 0), none), (v("some", 1), some)].into_iter().collect::<BTreeMap<_, _>>()).unwrap())
            }
            7 | 8 => { let n = r.range(1, 4) as usize; Ty::Struct(NamedFields::try_from(gen::fnames(r, n).into_iter().map(|name| Field { name, ty: mk(r, &ids) }).collect::<Vec<_>>()).unwrap()) }
            9 => { let n = r.range(1, 4) as usize; Ty::Tuple(UnnamedFields::try_from((0..n).map(|_| mk(r, &ids)).collect::<Vec<_>>()).unwrap()) }
            10 => { // restricted string
                let a = Ty::Enum(chars(r)); let a = add(&mut sys, &mut ids, r, a, false);
                let b = if r.chance(1, 3) { a } else { let b = Ty::Enum(chars(r)); add(&mut sys, &mut ids, r, b, false) };
                let l = Ty::List(b, sizing(r, false)); let l = add(&mut sys, &mut ids, r, l, false);
                Ty::Tuple(UnnamedFields::try_from(vec![a, l]).unwrap())
            }
            11 => { let i = mk(r, &ids); let n = *r.pick(&[0, 1, 2, 3, 5, 32]); Ty::Array(i, if least(&sys, i) == 0 && weight(&sys, i) * n as usize > 200 { 1 } else { n }) }
            12 => { let i = *r.pick(&ids[..ids.len().min(3)]); Ty::List(i, sizing(r, least(&sys, i) == 0)) }
            13 => { let i = mk(r, &ids); Ty::List(i, sizing(r, least(&sys, i) == 0)) }
            14 => { let i = mk(r, &ids); Ty::Set(i, sizing(r, least(&sys, i) == 0)) }
            15 => { let (k, i) = (mk(r, &ids), mk(r, &ids)); Ty::Map(k, i, sizing(r, least(&sys, k) + least(&sys, i) == 0)) }
            _ => { let i = mk(r, &ids); Ty::Tuple(UnnamedFields::try_from(vec![i]).unwrap()) }
        };
        add(&mut sys, &mut ids, r, t, false);
    }
    (sys, ids)
}
pub fn real(sys: &Sys) -> TypeSystem { TypeSystem::from(Confined::from_checked(sys.clone())) }

fn big(r: &mut Rng, size: usize, signed: bool) -> [u8; 128] {
    let mut b = [0u8; 128];
    match r.below(5) {
        0 => {}
        1 => b[..size].fill(0xff),
        2 => { b[..size].fill(0xff); if signed { b[size - 1] = 0x7f } }
        3 => b[size - 1] = 0x80,
        _ => b[..size].iter_mut().for_each(|x| *x = r.byte()),
    }
    if signed && b[size - 1] >= 128 { b[size..].fill(0xff) }
    b
}
fn unwords(b: &[u8; 128]) -> [u64; 16] { let mut w = [0; 16]; for i in 0..16 { w[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) } w }
/// A number which fits, in the form the type prefers.
fn gen_num(r: &mut Rng, size: usize, signed: bool) -> StrictNum {
    let b = big(r, size, signed);
    match (size <= 8, signed) {
        (true, false) => StrictNum::Uint(unwords(&b)[0]),
        (true, true) => StrictNum::Int(unwords(&b)[0] as i64),
        (false, false) => StrictNum::BigUint(u1024::from_inner(unwords(&b))),
        (false, true) => StrictNum::BigInt(i1024::from_inner(unwords(&b))),
    }
}
fn len(r: &mut Rng, z: &Sizing, cheap: bool) -> Option<usize> {
    let spent = SPENT.with(|b| b.get());
    let top = z.max.min(if spent > 300_000 { 4 } else if cheap { if z.max <= u32::MAX as u64 && r.chance(1, 12000) { 0x100_0001 } else if r.chance(1, 250) { 65537 } else { 257 } } else if r.chance(1, 30) { 257 } else { 4 });
    if z.min > top { return None }
    let n = match r.below(4) { 0 => z.min, 1 => top, 2 => top.saturating_sub(1).max(z.min), _ => z.min + r.below((top - z.min).min(6) + 1) } as usize;
    SPENT.with(|b| b.set(b.get() + n));
    Some(n)
}
fn pick_bytes(r: &mut Rng, set: &BTreeSet<u8>, n: usize) -> Option<Vec<u8>> {
    let v: Vec<u8> = set.iter().copied().filter(|c| *c < 128).collect();
    if v.is_empty() && n > 0 { return None }
    Some((0..n).map(|_| *r.pick(&v)).collect())
}
/// A conforming value; `alt` allows forms which the checker has to convert first.
pub fn gen_val(sys: &Sys, r: &mut Rng, id: SemId, alt: bool) -> Option<StrictVal> {
    BUDGET.with(|b| b.set(2500));
    gen_in(sys, r, id, alt)
}
thread_local! {
    static BUDGET: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    /// members of collections generated in this case
    static SPENT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn gen_in(sys: &Sys, r: &mut Rng, id: SemId, alt: bool) -> Option<StrictVal> {
    BUDGET.with(|b| b.get().checked_sub(1).map(|n| b.set(n)))?;
    let alt1 = alt && r.chance(1, 4);
    let s = |b: Vec<u8>| StrictVal::String(String::from_utf8(b).unwrap());
    Some(match lookup(sys, id)? {
        Ty::Primitive(Primitive::UNIT) => if alt1 { match r.below(4) { 0 => StrictVal::Tuple(vec![]), 1 => StrictVal::List(vec![]), 2 => StrictVal::Map(vec![]), _ => StrictVal::Struct(IndexMap::new()) } } else { StrictVal::Unit },
        Ty::Primitive(p) => {
            let (size, signed) = number(*p)?;
            if size > 128 { return None }
            let n = gen_num(r, size, signed);
            if alt1 { StrictVal::Number(StrictNum::Uint(r.edgy() >> r.below(64))) } else { StrictVal::Number(n) }
        }
        Ty::UnicodeChar => s(vec![r.below(128) as u8]),
        Ty::Enum(vs) => {
            let v: Vec<_> = vs.iter().collect();
            let v = *r.pick(&v);
            if alt1 { match r.below(4) { 0 => StrictVal::String(v.name.to_string()), 1 => StrictVal::Number(StrictNum::Uint(v.tag as u64)), 2 => StrictVal::String((v.tag as char).to_string()), _ => StrictVal::Enum(EnumTag::Ord(v.tag)) } }
            else { StrictVal::Enum(EnumTag::Name(v.name.clone())) }
        }
        Ty::Union(vs) => {
            let v: Vec<_> = vs.iter().collect();
            let (v, i) = *r.pick(&v);
            let x = gen_in(sys, r, *i, alt)?;
            if alt1 { match r.below(3) { 0 => x, 1 => StrictVal::Tuple(vec![StrictVal::String(v.name.to_string()), x]), _ => StrictVal::Union(EnumTag::Ord(v.tag), Box::new(x)) } }
            else { StrictVal::Union(EnumTag::Name(v.name.clone()), Box::new(x)) }
        }
        Ty::Tuple(f) => {
            if let Some((a, b, min, max)) = rstring(sys, &f) {
                if alt1 { return Some(StrictVal::Tuple(f.iter().map(|i| gen_in(sys, r, *i, alt)).collect::<Option<_>>()?)) }
                let top = max.min(if SPENT.with(|b| b.get()) > 300_000 { 4 } else if r.chance(1, 160) { 65537 } else { 257 });
                if min > top { return None }
                let n = match r.below(3) { 0 => min, 1 => top, _ => min + r.below((top - min).min(5) as u64 + 1) as u128 } as usize;
                let mut v = pick_bytes(r, &a, 1)?;
                v.extend(pick_bytes(r, &b, n - 1)?);
                SPENT.with(|b| b.set(b.get() + n));
                return Some(s(v))
            }
            let v = f.iter().map(|i| gen_in(sys, r, *i, alt)).collect::<Option<Vec<_>>>()?;
            if alt1 { if v.len() == 1 && r.chance(3, 4) { v.into_iter().next().unwrap() } else { StrictVal::List(v) } } else { StrictVal::Tuple(v) }
        }
        Ty::Struct(f) => {
            let mut v: Vec<(FieldName, StrictVal)> = f.iter().map(|f| gen_in(sys, r, f.ty, alt).map(|v| (f.name.clone(), v))).collect::<Option<_>>()?;
            if r.chance(1, 3) { r.shuffle(&mut v) }
            if alt1 { StrictVal::Map(v.into_iter().map(|(n, v)| (StrictVal::String(n.to_string()), v)).collect()) } else { StrictVal::Struct(v.into_iter().collect()) }
        }
        &Ty::Array(i, n) => {
            if is_byte(i) && !alt1 { return Some(StrictVal::Bytes(Blob((0..n).map(|_| r.byte()).collect()))) }
            if is_uni(i) { return Some(s((0..n).map(|_| r.below(128) as u8).collect())) }
            if let (Some(t), true) = (tags(sys, i), alt || r.chance(1, 2)) { if let Some(b) = pick_bytes(r, &t, n as usize) { return Some(s(b)) } }
            StrictVal::List((0..n).map(|_| gen_in(sys, r, i, alt)).collect::<Option<_>>()?)
        }
        &Ty::List(i, z) => {
            if is_byte(i) && !alt1 { let n = len(r, &z, true)?; return Some(StrictVal::Bytes(Blob((0..n).map(|_| r.byte()).collect()))) }
            if is_byte(i) && r.chance(1, 2) { let n = len(r, &z, true)?; return Some(s((0..n).map(|_| r.below(128) as u8).collect())) }
            if is_uni(i) {
                let n = len(r, &z, true)?;
                let mut t = vec![];
                while t.len() < n { let mut b = [0; 4]; let c = if r.chance(1, 9) { 'é' } else { 'a' }; if t.len() + c.len_utf8() <= n { t.extend(c.encode_utf8(&mut b).bytes()) } }
                return Some(s(t))
            }
            if let Some(t) = tags(sys, i) { if !alt1 { let n = len(r, &z, true)?; if n > 65537 { return None } if let Some(b) = pick_bytes(r, &t, n) { return Some(s(b)) } } }
            let n = len(r, &z, false)?;
            StrictVal::List((0..n).map(|_| gen_in(sys, r, i, alt)).collect::<Option<_>>()?)
        }
        &Ty::Set(i, z) => {
            let n = len(r, &z, false)?;
            let v = (0..n).map(|_| gen_in(sys, r, i, alt)).collect::<Option<Vec<_>>>()?;
            StrictVal::Set(if alt { v } else { dedup(sys, v, i, |x| x) })
        }
        &Ty::Map(k, i, z) => {
            let n = len(r, &z, false)?;
            let v = (0..n).map(|_| Some((gen_in(sys, r, k, alt)?, gen_in(sys, r, i, alt)?))).collect::<Option<Vec<_>>>()?;
            StrictVal::Map(if alt { v } else { dedup(sys, v, k, |x| &x.0) })
        }
    })
}
fn dedup<T>(sys: &Sys, v: Vec<T>, id: SemId, f: impl Fn(&T) -> &StrictVal) -> Vec<T> {
    let mut seen = BTreeSet::new();
    v.into_iter().filter(|x| { if !conf(sys, f(x), id) { return false } let mut b = vec![]; enc(sys, f(x), id, &mut b); seen.insert(b) }).collect()
}
/// Changes one place of a value.
fn mutate(r: &mut Rng, v: StrictVal) -> StrictVal {
    let inner = r.chance(2, 3);
    match v {
        StrictVal::Number(_) => StrictVal::Number(match r.below(4) {
            0 => StrictNum::Uint(r.edgy()),
            1 => StrictNum::Int(r.edgy() as i64),
            2 => { let n = r.range(1, 128) as usize; StrictNum::BigUint(u1024::from_inner(unwords(&big(r, n, false)))) }
            _ => { let n = r.range(1, 128) as usize; StrictNum::BigInt(i1024::from_inner(unwords(&big(r, n, true)))) }
        }),
        StrictVal::String(mut s) => { match r.below(5) { 0 => s.push('a'), 1 => { s.pop(); } 2 => s.insert(0, 'é'), 3 => s.push(' '), _ => return StrictVal::Bytes(Blob(s.into_bytes())) } StrictVal::String(s) }
        StrictVal::Bytes(mut b) => { match r.below(3) { 0 => b.0.push(r.byte()), 1 => { b.0.pop(); } _ if b.0.len() > 100_000 => { b.0.pop(); } _ => return StrictVal::List(b.0.into_iter().map(|x| StrictVal::Number(StrictNum::Uint(x as u64))).collect()) } StrictVal::Bytes(b) }
        StrictVal::Enum(_) => match r.below(4) { 0 => StrictVal::Enum(EnumTag::Ord(r.byte())), 1 => StrictVal::Enum(EnumTag::Name(gen::vname(r))), 2 => StrictVal::Number(StrictNum::Uint(r.below(600))), _ => StrictVal::String((r.byte() as char).to_string()) },
        StrictVal::Union(t, x) => if inner { StrictVal::Union(t, Box::new(mutate(r, *x))) } else { StrictVal::Union(if r.chance(1, 2) { EnumTag::Ord(r.byte()) } else { EnumTag::Ord(r.below(3) as u8) }, x) },
        StrictVal::Tuple(l) => if !inner && r.chance(1, 2) { StrictVal::List(l) } else { StrictVal::Tuple(mutate_seq(r, l, inner)) },
        StrictVal::List(l) => if !inner && r.chance(1, 3) { if r.chance(1, 2) { StrictVal::Set(l) } else { StrictVal::Tuple(l) } } else { StrictVal::List(mutate_seq(r, l, inner)) },
        StrictVal::Set(l) => StrictVal::Set(mutate_seq(r, l, inner)),
        StrictVal::Struct(m) => {
            let mut l: Vec<_> = m.into_iter().collect();
            if l.is_empty() { return StrictVal::Unit }
            let i = r.us(l.len());
            if inner { let x = l[i].1.clone(); l[i].1 = mutate(r, x) } else { match r.below(4) {
                0 => { l.remove(i); }
                1 => l.push((gen::fname(r), StrictVal::Unit)),
                2 => l[i].0 = gen::fname(r),
                _ => { let mut m: Vec<_> = l.into_iter().map(|(n, v)| (StrictVal::String(n.to_string()), v)).collect(); if r.chance(1, 2) { let j = r.us(m.len()); m[i].0 = m[j].0.clone() } return StrictVal::Map(m) }
            } }
            StrictVal::Struct(l.into_iter().collect())
        }
        StrictVal::Map(mut l) => {
            if l.is_empty() { return StrictVal::Set(vec![]) }
            let i = r.us(l.len());
            if inner { let (k, x) = l[i].clone(); l[i] = if r.chance(1, 2) { (mutate(r, k), x) } else { (k, mutate(r, x)) } } else { match r.below(3) { 0 => { l.remove(i); } 1 => { let x = l[i].clone(); l.push(x) } _ => { let j = r.us(l.len()); l[i].0 = l[j].0.clone() } } }
            StrictVal::Map(l)
        }
        StrictVal::Unit => match r.below(3) { 0 => StrictVal::Number(StrictNum::Uint(0)), 1 => StrictVal::String(String::new()), _ => StrictVal::Bytes(Blob(vec![])) },
    }
}
fn mutate_seq(r: &mut Rng, mut l: Vec<StrictVal>, inner: bool) -> Vec<StrictVal> {
    if l.is_empty() { l.push(StrictVal::Unit); return l }
    let i = r.us(l.len());
    if inner { let x = l[i].clone(); l[i] = mutate(r, x) } else { match r.below(4) { 0 => { l.remove(i); } 1 => { let x = l[i].clone(); l.push(x) } 2 => l.truncate(i), _ => { let j = r.us(l.len()); l[i] = l[j].clone() } } }
    l
}
fn root(r: &mut Rng, ids: &[SemId]) -> SemId { if r.chance(2, 3) { *ids.last().unwrap() } else if r.chance(1, 50) { SemId::unit() } else { *r.pick(ids) } }
fn class(sys: &Sys, id: SemId) -> &'static str {
    match lookup(sys, id) { None => "absent", Some(Ty::Primitive(_)) => "primitive", Some(Ty::UnicodeChar) => "char", Some(Ty::Enum(_)) => "enum", Some(Ty::Union(_)) => "union", Some(Ty::Tuple(f)) => if rstring(sys, &f).is_some() { "restricted string" } else { "tuple" }, Some(Ty::Struct(_)) => "struct", Some(Ty::Array(..)) => "array", Some(&Ty::List(i, _)) => if is_byte(i) { "byte string" } else if is_uni(i) { "string" } else if tags(sys, i).is_some() { "characters" } else { "list" }, Some(Ty::Set(..)) => "set", Some(Ty::Map(..)) => "map" }
}
/// The beginning of the debug representation.
fn show(v: &impl std::fmt::Debug) -> String {
    struct Cut(String);
    impl std::fmt::Write for Cut { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.0.len() > 3000 { return Err(std::fmt::Error) } self.0.push_str(s); Ok(()) } }
    let mut c = Cut(String::new());
    let _ = std::fmt::Write::write_fmt(&mut c, format_args!("{v:?}"));
    c.0
}

/// C10
pub fn run(r: &mut Rng, _case: u64) -> Res {
    let (sys, ids) = system(r);
    let text = format!("{sys:?}");
    let sysr = real(&sys);
    for _ in 0..12 {
        let id = if r.chance(1, 60) { gen::semid(r) } else { root(r, &ids) };
        let (v, canonical) = match r.below(8) {
            0 => (crate::c09::val(r, 3), false),
            1 | 2 => match gen_val(&sys, r, id, false) { Some(v) => (v, true), None => continue },
            3 => { let other = *r.pick(&ids); match gen_val(&sys, r, other, false) { Some(v) => (v, false), None => continue } }
            4 => match gen_val(&sys, r, id, true) { Some(v) => (v, false), None => continue },
            _ => { let alt = r.chance(1, 2); let Some(mut v) = gen_val(&sys, r, id, alt) else { continue }; v = mutate(r, v); if r.chance(1, 4) { v = mutate(r, v) } (v, false) }
        };
        input(format!("value {} against {id:?} in {text}", show(&v)));
        let res = no_panic("typify-panic", || sysr.typify(v.clone(), id))?;
        let canonical = canonical && conf(&sys, &v, id);
        match res {
            Ok(t) => {
                cover(format!("accepted {}", class(&sys, id)));
                ensure!(t.as_orig().id == id, "typed-id", "the typed value carries another type");
                ensure!(conf(&sys, t.as_val(), id), "nonconforming", "the accepted value is {}, which is not a value of the type", show(t.as_val()));
                if canonical {
                    let (mut a, mut b) = (vec![], vec![]);
                    enc(&sys, &v, id, &mut a);
                    enc(&sys, t.as_val(), id, &mut b);
                    ensure!(a == b, "changed", "the conforming value was changed to {}", show(t.as_val()));
                }
            }
            Err(e) => {
                cover(format!("rejected {}", class(&sys, id)));
                ensure!(!canonical, "refused", "the conforming value is refused: {}", no_panic("error-text", || e.to_string()).unwrap_or_default());
            }
        }
    }
    Ok(())
}

/// C11
pub mod c11 {
    use super::*;
    pub fn run(r: &mut Rng, _case: u64) -> Res {
        let (sys, ids) = system(r);
        let text = format!("{sys:?}");
        let sysr = real(&sys);
        for _ in 0..12 {
            let id = root(r, &ids);
            let alt = r.chance(1, 2);
            let Some(mut v) = gen_val(&sys, r, id, alt) else { continue };
            if r.chance(1, 3) { v = mutate(r, v) }
            let Ok(Ok(t)) = no_panic("", || sysr.typify(v.clone(), id)) else { continue };
            if !conf(&sys, t.as_val(), id) { continue }
            input(format!("typed value {} of {id:?} in {text}", show(t.as_val())));
            cover(class(&sys, id));
            let mut want = vec![];
            enc(&sys, t.as_val(), id, &mut want);
            let mut got = vec![0xAA, 0xBB];
            let res = no_panic("serialize-panic", || sysr.strict_write_value(&t, &mut got))?;
            ensure!(res.is_ok(), "write-error", "writing failed: {res:?}");
            ensure!(got[..2] == [0xAA, 0xBB] && got[2..] == want[..], "encoding", "written {:02x?}, the encoding is {:02x?}", &got[2..], want);
            let a = no_panic("serialize-panic", || sysr.strict_serialize_value::<{ usize::MAX }>(&t))?;
            ensure!(a.as_ref().map(|a| a.as_slice() == &want[..]).unwrap_or(false), "serialize", "serialized as {a:?}");
            let b = no_panic("serialize-panic", || sysr.strict_serialize_value::<5>(&t))?;
            ensure!(if want.len() <= 5 { b.as_ref().map(|b| b.as_slice() == &want[..]).unwrap_or(false) } else { b.is_err() }, "serialize-limit", "{} bytes serialized with the limit of 5 as {b:?}", want.len());
            // a writer which fails
            let room = r.us(want.len() + 2);
            let mut w = Short { room, out: vec![] };
            let res = no_panic("serialize-panic", || sysr.strict_write_value(&t, &mut w))?;
            ensure!(res.is_ok() == (room >= want.len()), "write-failure", "a writer with room for {room} of {} bytes: {res:?}", want.len());
        }
        Ok(())
    }
    struct Short { room: usize, out: Vec<u8> }
    impl std::io::Write for Short {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.len() + self.out.len() > self.room { return Err(std::io::ErrorKind::Other.into()) } self.out.extend(b); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
}

/// C12 and C13
pub mod c12 {
    use super::*;
    /// Repeats, adds or drops a member of some collection: what remains can be encoded, but may be out of bounds.
    fn stretch(r: &mut Rng, v: &mut StrictVal) -> bool {
        let here = r.chance(1, 2);
        fn members<T: Clone>(r: &mut Rng, l: &mut Vec<T>) -> bool {
            if l.is_empty() { return false }
            let (i, j) = (r.us(l.len()), r.us(l.len()));
            match r.below(4) { 0 => { l.remove(i); } 1 => { let x = l[i].clone(); l.push(x) } 2 => { let x = l[i].clone(); l.insert(i, x) } _ => l[i] = l[j].clone() }
            true
        }
        match v {
            StrictVal::Set(l) | StrictVal::List(l) if here => members(r, l),
            StrictVal::Map(l) if here => if r.chance(1, 2) { let (i, j) = match l.len() { 0 => return false, n => (r.us(n), r.us(n)) }; l[i].0 = l[j].0.clone(); true } else { members(r, l) },
            StrictVal::Bytes(b) => members(r, &mut b.0),
            StrictVal::String(s) => { if !s.is_ascii() { return false } let mut b: Vec<u8> = s.bytes().collect(); let ok = members(r, &mut b); if r.chance(1, 4) && !b.is_empty() { let i = r.us(b.len()); b[i] = r.below(128) as u8 } *s = String::from_utf8(b).unwrap(); ok }
            StrictVal::Tuple(l) | StrictVal::List(l) | StrictVal::Set(l) => { if l.is_empty() { return false } let i = r.us(l.len()); stretch(r, &mut l[i]) }
            StrictVal::Map(l) => { if l.is_empty() { return false } let i = r.us(l.len()); if r.chance(1, 2) { stretch(r, &mut l[i].0) } else { stretch(r, &mut l[i].1) } }
            StrictVal::Struct(m) => { if m.is_empty() { return false } let i = r.us(m.len()); stretch(r, m.get_index_mut(i).unwrap().1) }
            StrictVal::Union(_, x) => stretch(r, x),
            _ => false,
        }
    }
    pub fn decode(r: &mut Rng, bounds: bool) -> Res {
        let (sys, ids) = system(r);
        let text = format!("{sys:?}");
        let sysr = real(&sys);
        let mut spent = 0;
        for _ in 0..12 {
            let id = if r.chance(1, 60) { gen::semid(r) } else { root(r, &ids) };
            let mut whole = None;
            let mut data = vec![];
            match r.below(8) {
                0 => { let n = r.below(12); data = (0..n).map(|_| if r.chance(1, 2) { r.below(4) as u8 } else { r.byte() }).collect() }
                k => {
                    let alt = r.chance(1, 3);
                    let Some(v) = gen_val(&sys, r, id, alt) else { continue };
                    let Ok(Ok(t)) = no_panic("", || sysr.typify(v, id)) else { continue };
                    if !conf(&sys, t.as_val(), id) { continue }
                    let mut x = t.as_val().clone();
                    if k == 7 && stretch(r, &mut x) {
                        let d = no_panic("", || { let mut d = vec![]; enc(&sys, &x, id, &mut d); d });
                        let Ok(d) = d else { continue };
                        data = d;
                    } else {
                    enc(&sys, t.as_val(), id, &mut data);
                    if k < 4 { whole = Some(data.clone()) }
                    else {
                        let i = if data.is_empty() { 0 } else if r.chance(1, 2) { r.us(data.len().min(9)) } else { r.us(data.len()) };
                        match r.below(6) {
                            0 => { let n = r.us(data.len() + 1); data.truncate(n) }
                            1 => { let n = r.range(1, 4); data.extend((0..n).map(|_| r.byte())) }
                            2 if !data.is_empty() => data[i] = r.byte(),
                            3 if !data.is_empty() => data[i] ^= 1 << r.below(8),
                            4 if !data.is_empty() => { let j = r.us(data.len()); data[i] = data[j] }
                            _ if !data.is_empty() => data[i] = data[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 }),
                            _ => {}
                        }
                    }
                    }
                }
            }
            let head: Vec<u8> = data.iter().take(600).copied().collect();
            spent += data.len();
            if spent > 2_000_000 && spent > data.len() { break }
            input(format!("{} bytes {head:02x?} as {id:?} in {text}", data.len()));
            let res = no_panic("deserialize-panic", || sysr.strict_deserialize_type(id, &data))?;
            // reading from a stream which goes on
            let mut more = data.clone();
            more.extend([7u8; 3]);
            let mut cur = StreamReader::cursor::<U32>(&more[..]);
            let res2 = no_panic("deserialize-panic", || sysr.strict_read_type(id, &mut cur))?;
            let read = cur.unconfine().position() as usize;
            if supported(&sys, id) {
                match valid(&sys, &data, id) {
                    Ok([]) if !bounds => ensure!(res.is_ok(), "valid-refused", "the encoding of a value is refused: {}", res.as_ref().unwrap_err()),
                    Ok(_) => cover("valid start"),
                    Err(true) if bounds => { cover("out of bounds"); ensure!(res.is_err(), "violation-accepted", "the data violate bounds, distinctness or characters, and are read as {}", show(res.as_ref().unwrap().as_val())) }
                    Err(false) if !bounds => { cover("no encoding"); ensure!(res.is_err(), "invalid-accepted", "the data are no encoding, and are read as {}", show(res.as_ref().unwrap().as_val())) }
                    Err(_) => cover("refusable"),
                }
                match valid(&sys, &more, id) {
                    Ok(rest) if !bounds => ensure!(res2.is_ok() && read == more.len() - rest.len(), "valid-start-refused", "{} bytes are the encoding of a value, {read} are read: {res2:?}", more.len() - rest.len()),
                    Err(true) if bounds => ensure!(res2.is_err(), "violation-accepted", "the data violate bounds, distinctness or characters, and are read as {}", show(res2.as_ref().unwrap().as_val())),
                    _ => {}
                }
            }
            match &res {
                Ok(t) => {
                    cover(format!("read {}", class(&sys, id)));
                    let c = conf(&sys, t.as_val(), id);
                    if bounds {
                        ensure!(c, "nonconforming", "the value read is {}, which is not a value of the type", show(t.as_val()));
                    } else {
                        if c {
                            let mut e = vec![];
                            enc(&sys, t.as_val(), id, &mut e);
                            ensure!(e == data, "not-inverse", "the value read is {} whose encoding is {e:02x?}", show(t.as_val()));
                        }
                        let again = no_panic("reserialize-panic", || sysr.strict_serialize_value::<{ usize::MAX }>(t))?;
                        ensure!(again.as_ref().map(|b| b.as_slice() == &data[..]).unwrap_or(false), "not-inverse", "the value read is {}, serialized as {again:?}", show(t.as_val()));
                        ensure!(t.as_orig().id == id, "typed-id", "the typed value carries another type");
                        ensure!(read == data.len() && res2.as_ref().map(|x| x == t).unwrap_or(false), "stream", "{read} bytes of {} and {res2:?} read from the stream", data.len());
                    }
                }
                Err(e) => {
                    cover(format!("refused {}", class(&sys, id)));
                    if !bounds && whole.is_some() && supported(&sys, id) {
                        ensure!(false, "valid-refused", "the encoding of a value is refused: {e}");
                    }
                }
            }
            if let (Ok(t), false) = (&res2, bounds) {
                let again = no_panic("reserialize-panic", || sysr.strict_serialize_value::<{ usize::MAX }>(t))?;
                ensure!(again.as_ref().map(|b| b.as_slice() == &more[..read]).unwrap_or(false), "not-inverse-stream", "{read} bytes read as {}, serialized as {again:?}", show(t.as_val()));
                ensure!(read == data.len() || res.is_err(), "left-over", "{read} of {} bytes are an encoding, but deserialization accepted all", data.len());
            }
            if let (Ok(t), true) = (&res2, bounds) { ensure!(conf(&sys, t.as_val(), id), "nonconforming", "the value read is {}, which is not a value of the type", show(t.as_val())); }
        }
        Ok(())
    }
    pub fn run(r: &mut Rng, _case: u64) -> Res { decode(r, false) }
}
pub mod c13 {
    use super::*;
    pub fn run(r: &mut Rng, _case: u64) -> Res { super::c12::decode(r, true) }
}
