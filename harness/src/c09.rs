//! C09: value paths.
use amplify::confinement::{TinyBlob, TinyString};
use indexmap::IndexMap;
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::{KeyStep, Path, PathError, Step, StrictVal};

use crate::rng::Rng;
use crate::{cover, ensure, fail, gen, input, Res};

pub fn num(r: &mut Rng) -> StrictNum {
    match r.below(8) {
        0..=2 => StrictNum::Uint(r.below(5)),
        3 => StrictNum::Uint(r.edgy()),
        4 => StrictNum::Int(r.edgy() as i64),
        5 => StrictNum::BigUint((((r.edgy() as u128) << 64) | r.next() as u128).into()),
        6 => StrictNum::BigInt(((((r.edgy() as u128) << 64) | r.next() as u128) as i128).into()),
        _ => StrictNum::Int(r.below(5) as i64),
    }
}
pub fn text(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => 0, 1..=5 => r.range(1, 3), 6 => r.range(1, 20), _ => 255 };
    (0..n).map(|_| match r.below(8) { 0 => 'é', 1 => '"', _ => *r.pick(&['a', 'b', 'c', 'Z', '0', ' ']) }).collect()
}
pub fn bytes(r: &mut Rng) -> Vec<u8> { let n = match r.below(6) { 0 => 0, 5 => 255, _ => r.range(1, 4) }; (0..n).map(|_| if r.chance(1, 2) { r.below(3) as u8 } else { r.byte() }).collect() }
pub fn val(r: &mut Rng, depth: u32) -> StrictVal {
    let leaf = depth == 0;
    match r.below(if leaf { 6 } else { 14 }) {
        0 => StrictVal::Unit,
        1 => StrictVal::Number(num(r)),
        2 => StrictVal::String(text(r)),
        3 => StrictVal::Bytes(Blob::from(bytes(r))),
        4 => StrictVal::Enum(EnumTag::Ord(if r.chance(1, 2) { r.below(4) as u8 } else { r.byte() })),
        5 => StrictVal::Enum(EnumTag::Name(gen::vname(r))),
        6 => StrictVal::Union(if r.chance(1, 2) { EnumTag::Ord(r.byte()) } else { EnumTag::Name(gen::vname(r)) }, Box::new(val(r, depth - 1))),
        7 | 8 => { let n = if r.chance(1, 30) { 120 + r.below(130) } else { r.below(5) }; StrictVal::Tuple((0..n).map(|_| val(r, depth - 1)).collect()) }
        9 => { let n = r.below(5); StrictVal::Struct((0..n).map(|i| (if r.chance(1, 2) { gen::fname(r) } else { strict_encoding::FieldName::try_from(format!("f{i}")).unwrap() }, val(r, depth - 1))).collect::<IndexMap<_, _>>()) }
        10 | 11 if r.chance(1, 12) => {
            // longer than any narrow index can address
            let n = 250 + r.below(400);
            let v: Vec<StrictVal> = (0..n).map(|i| StrictVal::num(i * 3)).collect();
            if r.chance(1, 2) { StrictVal::List(v) } else { StrictVal::Set(v) }
        }
        10 => { let n = r.below(5); StrictVal::List((0..n).map(|_| val(r, depth - 1)).collect()) }
        11 => { let n = r.below(5); StrictVal::Set((0..n).map(|_| val(r, depth - 1)).collect()) }
        _ => { let n = r.below(6); StrictVal::Map((0..n).map(|_| { let d = if r.chance(1, 5) { depth - 1 } else { 0 }; let k = val(r, d); (k, val(r, depth - 1)) }).collect()) }
    }
}
fn keystep_of(v: &StrictVal) -> Option<KeyStep> {
    Some(match v {
        StrictVal::Enum(EnumTag::Ord(t)) => KeyStep::Number(*t as u128),
        StrictVal::Number(StrictNum::Uint(n)) => KeyStep::Number(*n as u128),
        StrictVal::Bytes(b) => KeyStep::TinyBlob(TinyBlob::try_from(b.0.clone()).ok()?),
        StrictVal::String(s) => KeyStep::TinyString(TinyString::try_from(s.clone()).ok()?),
        _ => return None,
    })
}
fn any_key(r: &mut Rng) -> KeyStep {
    match r.below(4) {
        0 => KeyStep::Number(r.below(5) as u128),
        1 => KeyStep::Number(((r.edgy() as u128) << 64) | r.edgy() as u128),
        2 => KeyStep::TinyBlob(TinyBlob::try_from(bytes(r)).unwrap()),
        _ => { let mut t = text(r); while t.len() > 255 { t.pop(); } KeyStep::TinyString(TinyString::try_from(t).unwrap()) }
    }
}
/// Does the map key carry what the key step says?
fn key_is(k: &KeyStep, v: &StrictVal) -> bool {
    match k {
        KeyStep::Number(n) => match v { StrictVal::Enum(EnumTag::Ord(t)) => (*t as u128) == *n, StrictVal::Number(StrictNum::Uint(m)) => (*m as u128) == *n, _ => false },
        KeyStep::TinyBlob(b) => matches!(v, StrictVal::Bytes(x) if x.0[..] == b.as_slice()[..]),
        KeyStep::TinyString(s) => matches!(v, StrictVal::String(x) if x.as_bytes() == s.as_str().as_bytes()),
        _ => false,
    }
}
enum Out<'a> { Val(&'a StrictVal), Err(PathError) }
fn step<'a>(v: &'a StrictVal, s: &Step) -> Out<'a> {
    match (v, s) {
        (StrictVal::Tuple(f), Step::UnnamedField(n)) => f.iter().nth(*n as usize).map(Out::Val).unwrap_or(Out::Err(PathError::FieldNoOutOfBounds(*n, f.len()))),
        (StrictVal::Struct(f), Step::NamedField(n)) => f.iter().find(|(k, _)| *k == n).map(|(_, v)| Out::Val(v)).unwrap_or(Out::Err(PathError::UnknownFieldName(n.clone()))),
        (StrictVal::List(f), Step::Index(n)) | (StrictVal::Set(f), Step::Index(n)) => f.iter().nth(*n as usize).map(Out::Val).unwrap_or(Out::Err(PathError::CollectionIndexOutOfBounds(*n, f.len()))),
        (StrictVal::Map(f), Step::Key(k)) => { for (kk, vv) in f { if key_is(k, kk) { return Out::Val(vv) } } Out::Err(PathError::UnknownKey(k.clone())) }
        _ => Out::Err(PathError::TypeMismatch(s.clone(), v.clone())),
    }
}
fn steps_for(r: &mut Rng, v: &StrictVal) -> Option<Step> {
    Some(match v {
        StrictVal::Tuple(f) if !f.is_empty() => Step::UnnamedField(r.us(f.len()) as u8),
        StrictVal::Struct(f) if !f.is_empty() => Step::NamedField(f.get_index(r.us(f.len())).unwrap().0.clone()),
        StrictVal::List(f) | StrictVal::Set(f) if !f.is_empty() => Step::Index(r.us(f.len()) as u32),
        StrictVal::Map(f) if !f.is_empty() => Step::Key(keystep_of(&f[r.us(f.len())].0)?),
        _ => return None,
    })
}
fn any_step(r: &mut Rng) -> Step {
    match r.below(4) {
        0 => Step::NamedField(gen::fname(r)),
        1 => Step::UnnamedField(if r.chance(2, 3) { r.below(6) as u8 } else { r.byte() }),
        2 => Step::Index(if r.chance(2, 3) { r.below(6) as u32 } else { r.next() as u32 }),
        _ => Step::Key(any_key(r)),
    }
}
fn path(s: &[Step]) -> Path { let mut p = Path::new(); for x in s { p.push(x.clone()).unwrap() } p }

pub fn run(r: &mut Rng, _case: u64) -> Res {
    // key matching on its own
    let k = any_key(r);
    let v = if r.chance(1, 2) { val(r, 0) } else { match &k {
        KeyStep::Number(n) => match r.below(4) { 0 => StrictVal::Enum(EnumTag::Ord(*n as u8)), 1 => StrictVal::Number(StrictNum::Uint(*n as u64)), 2 => StrictVal::Number(StrictNum::Int(*n as i64)), _ => StrictVal::Number(StrictNum::Uint((*n as u64).wrapping_add(256))) },
        KeyStep::TinyBlob(b) => { let mut b = b.to_vec(); if r.chance(1, 3) { b.pop(); } StrictVal::Bytes(Blob::from(b)) }
        KeyStep::TinyString(s) => { let mut s = s.to_string(); if r.chance(1, 3) { s.pop(); } if r.chance(1, 3) { s = s.to_lowercase() } StrictVal::String(s) }
        _ => StrictVal::Unit,
    } };
    input(format!("key {k:?}\nvalue {v:?}"));
    ensure!(k.has_match(&v) == key_is(&k, &v), "has-match", "has_match = {}", k.has_match(&v));
    // paths
    let d = r.range(1, 5) as u32;
    let v = val(r, d);
    let mut steps = vec![];
    let mut cur = Some(&v);
    for _ in 0..r.below(7) {
        let good = cur.and_then(|c| steps_for(r, c));
        let s = match good { Some(s) if !r.chance(1, 8) => s, _ => any_step(r) };
        cur = match cur.map(|c| step(c, &s)) { Some(Out::Val(v)) => Some(v), _ => None };
        steps.push(s);
    }
    input(format!("value {v:?}\npath {steps:?}"));
    cover(format!("path of {} steps, {}", steps.len(), if cur.is_some() { "resolves" } else { "fails" }));
    let mut want: Result<&StrictVal, PathError> = Ok(&v);
    for s in &steps {
        match step(want.clone().unwrap(), s) { Out::Val(x) => want = Ok(x), Out::Err(e) => { want = Err(e); break } }
    }
    for (n, got) in [("path", v.at_path(&path(&steps))), ("slice", v.at_path(steps.iter()))] {
        match (&got, &want) {
            (Ok(a), Ok(b)) => ensure!(std::ptr::eq(*a, *b), "at-path", "{n}: resolved to {a:?}, expected {b:?}"),
            (Err(a), Err(b)) => ensure!(a == b, "error", "{n}: failed with {a:?}, expected {b:?}"),
            _ => fail!("outcome", "{n}: {got:?}, expected {want:?}"),
        }
    }
    Ok(())
}
