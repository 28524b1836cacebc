//! C08: type paths.
use strict_types::ast::{Path, Step};
use strict_types::typelib::TranspileRef;
use strict_types::Ty;

use crate::rng::Rng;
use crate::{cover, ensure, fail, gen, input, Res};

fn nested(r: &mut Rng, depth: u32) -> Ty<TranspileRef> {
    let mut mk = |r: &mut Rng| -> TranspileRef {
        if depth > 0 && r.chance(5, 6) { TranspileRef::Embedded(Box::new(nested(r, depth - 1))) }
        else if r.chance(1, 2) { TranspileRef::Named(gen::tname(r)) } else { TranspileRef::Embedded(Box::new(Ty::U8)) }
    };
    gen::ty(r, false, &mut mk)
}
/// The component a step denotes, by plain search.
fn step<'a>(ty: &'a Ty<TranspileRef>, s: &Step) -> Option<&'a TranspileRef> {
    match (ty, s) {
        (Ty::Struct(f), Step::NamedField(n)) => { for x in f.iter() { if x.name == *n { return Some(&x.ty) } } None }
        (Ty::Struct(f), Step::UnnamedField(p)) => { for (i, x) in f.iter().enumerate() { if i == *p as usize { return Some(&x.ty) } } None }
        (Ty::Tuple(f), Step::UnnamedField(p)) => { for (i, x) in f.iter().enumerate() { if i == *p as usize { return Some(x) } } None }
        (Ty::Union(v), Step::Variant(n)) => { for (k, x) in v.iter() { if k.name == *n { return Some(x) } } None }
        (Ty::Union(v), Step::UnnamedField(t)) => { for (k, x) in v.iter() { if k.tag == *t { return Some(x) } } None }
        (Ty::Array(t, _), Step::Index) => Some(t),
        (Ty::List(t, _), Step::List) => Some(t),
        (Ty::Set(t, _), Step::Set) => Some(t),
        (Ty::Map(k, _, _), Step::MapKey) => Some(k),
        (Ty::Map(_, v, _), Step::MapValue) => Some(v),
        _ => None,
    }
}
fn valid_steps(r: &mut Rng, ty: &Ty<TranspileRef>) -> Vec<Step> {
    match ty {
        Ty::Struct(f) => { let i = r.us(f.len()); vec![Step::NamedField(f[i].name.clone()), Step::UnnamedField(i as u8)] }
        Ty::Tuple(f) => vec![Step::UnnamedField(r.us(f.len()) as u8)],
        Ty::Union(v) => { let k: Vec<_> = v.keys().collect(); let x = *r.pick(&k); vec![Step::Variant(x.name.clone()), Step::UnnamedField(x.tag)] }
        Ty::Array(..) => vec![Step::Index],
        Ty::List(..) => vec![Step::List],
        Ty::Set(..) => vec![Step::Set],
        Ty::Map(..) => vec![Step::MapKey, Step::MapValue],
        _ => vec![],
    }
}
fn any_step(r: &mut Rng) -> Step {
    match r.below(8) {
        0 => Step::NamedField(gen::fname(r)), 1 => Step::UnnamedField(if r.chance(1, 2) { r.below(4) as u8 } else { r.byte() }), 2 => Step::Variant(gen::vname(r)),
        3 => Step::Index, 4 => Step::List, 5 => Step::Set, 6 => Step::MapKey, _ => Step::MapValue,
    }
}
fn path(steps: &[Step]) -> Path {
    let mut p = Path::new();
    for s in steps { p.push(s.clone()).unwrap(); }
    p
}

pub fn run(r: &mut Rng, _case: u64) -> Res {
    let d = r.range(1, 5) as u32;
    let ty = nested(r, d);
    // a path following the type, with the occasional wrong step
    let mut steps = vec![];
    let mut cur = Some(&ty);
    for _ in 0..r.below(7) {
        let v = cur.map(|t| valid_steps(r, t)).unwrap_or_default();
        let s = if v.is_empty() || r.chance(1, 8) { any_step(r) } else { r.pick(&v).clone() };
        cur = cur.and_then(|t| step(t, &s)).and_then(|x| match x { TranspileRef::Embedded(t) => Some(&**t), _ => None });
        steps.push(s);
    }
    input(format!("type {ty:?}\npath {steps:?}"));
    cover(format!("path of {} steps, {}", steps.len(), if cur.is_some() { "resolves" } else { "fails" }));
    check(&ty, &steps)?;
    // concatenation
    if !steps.is_empty() {
        let k = r.us(steps.len() + 1);
        let whole = ty.at_path(&path(&steps)).ok();
        let (a, b) = (path(&steps[..k]), path(&steps[k..]));
        let parts = ty.at_path(&a).ok().and_then(|t| t.at_path(&b).ok());
        ensure!(whole == parts, "concat", "resolving the whole path gives {whole:?}, its parts (split at {k}) give {parts:?}");
    }
    Ok(())
}
fn check(ty: &Ty<TranspileRef>, steps: &[Step]) -> Res {
    let mut cur = ty;
    let mut failed = None;
    for (i, s) in steps.iter().enumerate() {
        match step(cur, s) { Some(TranspileRef::Embedded(t)) => cur = t, _ => { failed = Some(i); break } }
    }
    let p = path(steps);
    match (ty.at_path(&p), failed) {
        (Ok(t), None) => ensure!(std::ptr::eq(t, cur), "at-path", "resolved to {t:?}, expected {cur:?}"),
        (Err(e), Some(i)) => {
            ensure!(e.path == path(&steps[..=i]), "error-path", "the error names the path {} ({:?}), walked were {:?}", e.path, e.path, &steps[..=i]);
            ensure!(std::ptr::eq(e.ty, ty), "error-type", "the error names type {:?}", e.ty);
        }
        (Ok(t), Some(i)) => fail!("resolved-wrong", "resolved to {t:?} although step {i} ({:?}) does not denote a component", steps[i]),
        (Err(e), None) => fail!("not-resolved", "failed at {} although the path leads to {cur:?}", e.path),
    }
    Ok(())
}
