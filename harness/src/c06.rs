//! C06: enumeration of the components of a type.
use strict_types::ast::ItemCase;
use strict_types::{SemId, Ty, TypeRef};

use crate::rng::Rng;
use crate::{cover, ensure, gen, input, Res};

/// Components with their labels, straight from the plain lists a type is made of.
pub fn model<R: TypeRef>(ty: &Ty<R>) -> Vec<(R, ItemCase)> {
    match ty {
        Ty::Primitive(_) | Ty::Enum(_) | Ty::UnicodeChar => vec![],
        Ty::Union(v) => {
            let mut items: Vec<_> = v.clone().into_inner().into_iter().collect();
            items.sort_by_key(|(v, _)| v.tag);
            items.into_iter().enumerate().map(|(i, (v, t))| (t, ItemCase::UnionVariant(i as u8, v.name))).collect()
        }
        Ty::Struct(f) => f.clone().into_inner().into_iter().enumerate().map(|(i, f)| (f.ty, ItemCase::NamedField(i as u8, f.name))).collect(),
        Ty::Tuple(f) => f.clone().into_inner().into_iter().enumerate().map(|(i, t)| (t, ItemCase::UnnamedField(i as u8))).collect(),
        Ty::Array(t, _) => vec![(t.clone(), ItemCase::ArrayItem)],
        Ty::List(t, _) => vec![(t.clone(), ItemCase::ListItem)],
        Ty::Set(t, _) => vec![(t.clone(), ItemCase::SetItem)],
        Ty::Map(k, v, _) => vec![(k.clone(), ItemCase::MapKey), (v.clone(), ItemCase::MapValue)],
    }
}

pub fn run(r: &mut Rng, _case: u64) -> Res {
    let ty: Ty<SemId> = gen::ty(r, true, &mut gen::semid);
    input(format!("{ty:?}"));
    let want = model(&ty);
    cover(format!("{} components{}", ty.cls(), match want.len() { 0..=2 => "", 255 => " (255)", _ => " (several)" }));
    check(&ty, &want, r)
}

pub fn check<R: TypeRef + PartialEq>(ty: &Ty<R>, want: &[(R, ItemCase)], r: &mut Rng) -> Res {
    ensure!(ty.count_type_refs() as usize == want.len(), "count", "count_type_refs = {}, components {}", ty.count_type_refs(), want.len());
    for pos in 0..=255u8 {
        let w = want.get(pos as usize);
        ensure!(ty.ty_at(pos) == w.map(|w| &w.0), "ty-at", "ty_at({pos}) = {:?}, expected {:?}", ty.ty_at(pos), w);
        ensure!(ty.case_at(pos) == w.map(|w| w.1.clone()), "case-at", "case_at({pos}) = {:?}, expected {:?}", ty.case_at(pos), w);
    }
    let again = if r.chance(1, 8) { 600 } else { 3 };
    for (name, mut it) in [("type_refs", ty.type_refs()), ("iter", ty.iter()), ("into_iter", <&Ty<R> as IntoIterator>::into_iter(ty))] {
        for (i, w) in want.iter().enumerate() {
            let got = it.next();
            ensure!(got.as_ref().map(|g| (g.0, g.1.clone())) == Some((&w.0, Some(w.1.clone()))), "iter-item", "{name}: item {i} is {got:?}, expected {w:?}");
        }
        for k in 0..again {
            let got = it.next();
            ensure!(got.is_none(), "iter-exhausted", "{name}: asked again {k} times after the end, got {got:?}");
        }
    }
    let mut it = ty.clone().into_iter();
    for (i, w) in want.iter().enumerate() {
        let got = it.next();
        ensure!(got.as_ref() == Some(&w.0), "into-iter-item", "owned iterator: item {i} is {got:?}, expected {w:?}");
    }
    for k in 0..again {
        let got = it.next();
        ensure!(got.is_none(), "into-iter-exhausted", "owned iterator: asked again {k} times after the end, got {got:?}");
    }
    Ok(())
}
