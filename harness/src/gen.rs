//! Random types, names and identifiers.
use std::collections::{BTreeMap, BTreeSet};

use strict_encoding::{FieldName, LibName, Primitive, Sizing, TypeName, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::{SemId, Ty, TypeRef};

use crate::rng::Rng;

pub fn word(r: &mut Rng, first_caps: Option<bool>) -> String {
    const CAPS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    const SMALL: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
    const ALL: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
    let mut s = String::new();
    s.push(match first_caps {
        Some(true) => *r.pick(CAPS),
        Some(false) => *r.pick(SMALL),
        None => b'_',
    } as char);
    let n = match r.below(12) { 0 => 0, 1 => 99, 2 => 98, 3..=8 => r.range(1, 3), _ => r.range(1, 12) };
    for _ in 0..n { s.push(*r.pick(ALL) as char); }
    s
}
pub fn fname(r: &mut Rng) -> FieldName { FieldName::try_from(word(r, Some(false))).unwrap() }
pub fn vname(r: &mut Rng) -> VariantName { VariantName::try_from(word(r, Some(false))).unwrap() }
pub fn tname(r: &mut Rng) -> TypeName { TypeName::try_from(word(r, Some(true))).unwrap() }
pub fn lname(r: &mut Rng) -> LibName { LibName::try_from(word(r, Some(true))).unwrap() }

pub fn semid(r: &mut Rng) -> SemId {
    let mut b = [0u8; 32];
    match r.below(5) {
        0 => b = [r.byte(); 32],
        1 => { b = [0; 32]; b[r.us(32)] = r.byte(); }
        _ => for x in b.iter_mut() { *x = r.byte() },
    }
    SemId::from(b)
}

/// A small pool of names, so that clashes between the three name spaces and near misses happen.
pub fn vnames(r: &mut Rng, n: usize) -> Vec<VariantName> {
    let mut set = BTreeSet::new();
    while set.len() < n { set.insert(if n > 60 || r.chance(1, 2) { VariantName::try_from(format!("v{}", r.below(2 * n as u64 + 2))).unwrap() } else { vname(r) }); }
    let mut v: Vec<_> = set.into_iter().collect();
    r.shuffle(&mut v);
    v
}
pub fn fnames(r: &mut Rng, n: usize) -> Vec<FieldName> {
    let mut set = BTreeSet::new();
    while set.len() < n { set.insert(if n > 60 || r.chance(1, 2) { FieldName::try_from(format!("f{}", r.below(2 * n as u64 + 2))).unwrap() } else { fname(r) }); }
    let mut v: Vec<_> = set.into_iter().collect();
    r.shuffle(&mut v);
    v
}
pub fn tags(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut set = BTreeSet::new();
    match r.below(3) {
        0 => (0..n).for_each(|i| { set.insert(i as u8); }),
        1 => (0..n).for_each(|i| { set.insert((256 - n + i) as u8); }),
        _ => while set.len() < n { set.insert(r.byte()); },
    }
    let mut v: Vec<_> = set.into_iter().collect();
    r.shuffle(&mut v);
    v
}
/// number of fields or variants: mostly few, sometimes the maximum
pub fn count(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 16 } else { 12 }) {
        0 => 1, 1..=4 => 2, 5..=10 => r.range(1, 6) as usize, 11 => r.range(1, 20) as usize,
        12 => 255, 13 => 254, 14 => 128, _ => r.range(1, 255) as usize,
    }
}
pub fn variants(r: &mut Rng, n: usize) -> Vec<Variant> {
    let names = vnames(r, n);
    let tags = tags(r, n);
    names.into_iter().zip(tags).map(|(name, tag)| Variant { name, tag }).collect()
}
pub fn enum_of(vars: &[Variant]) -> EnumVariants { EnumVariants::try_from(vars.iter().cloned().collect::<BTreeSet<_>>()).unwrap() }
pub fn sizing(r: &mut Rng) -> Sizing {
    match r.below(4) {
        0 => { let n = r.below(4); Sizing::fixed(n) }
        1 => { let a = r.edgy(); let b = r.edgy(); Sizing::new(a.min(b), a.max(b)) }
        2 => *r.pick(&[Sizing::U8, Sizing::U16, Sizing::U8_NONEMPTY, Sizing::U16_NONEMPTY]),
        _ => { let a = r.below(3); Sizing::new(a, a + r.below(5)) }
    }
}
pub fn primitive(r: &mut Rng) -> Primitive {
    const P: &[Primitive] = &[
        Primitive::UNIT, Primitive::BYTE, Primitive::U8, Primitive::U16, Primitive::U24, Primitive::U32, Primitive::U64, Primitive::U128, Primitive::U256,
        Primitive::U512, Primitive::I8, Primitive::I16, Primitive::I24, Primitive::I32, Primitive::I64, Primitive::I128, Primitive::I256,
        Primitive::N8, Primitive::N16, Primitive::F16, Primitive::F32, Primitive::F64,
    ];
    *r.pick(P)
}
/// A type of a random class, together with the plain lists it was made from.
pub fn ty<R: TypeRef>(r: &mut Rng, big: bool, mk: &mut dyn FnMut(&mut Rng) -> R) -> Ty<R> {
    match r.below(11) {
        0 => Ty::Primitive(primitive(r)),
        1 => Ty::UnicodeChar,
        2 => { let n = count(r, big); Ty::Enum(enum_of(&variants(r, n))) }
        3 | 4 => {
            let n = count(r, big);
            let map: BTreeMap<Variant, R> = variants(r, n).into_iter().map(|v| (v, mk(r))).collect();
            Ty::Union(UnionVariants::try_from(map).unwrap())
        }
        5 => { let n = count(r, big); Ty::Tuple(UnnamedFields::try_from((0..n).map(|_| mk(r)).collect::<Vec<_>>()).unwrap()) }
        6 | 7 => {
            let n = count(r, big);
            let v: Vec<Field<R>> = fnames(r, n).into_iter().map(|name| Field { name, ty: mk(r) }).collect();
            Ty::Struct(NamedFields::try_from(v).unwrap())
        }
        8 => { let t = mk(r); Ty::Array(t, match r.below(3) { 0 => r.below(4) as u16, 1 => r.next() as u16, _ => *r.pick(&[0, 1, 255, 256, 65535]) }) }
        9 => { let t = mk(r); let s = sizing(r); if r.chance(1, 2) { Ty::List(t, s) } else { Ty::Set(t, s) } }
        _ => { let (k, v) = (mk(r), mk(r)); Ty::Map(k, v, sizing(r)) }
    }
}
