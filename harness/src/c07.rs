//! C07: lookups by tag, name and position.
use std::collections::{BTreeMap, BTreeSet};

use strict_encoding::{FieldName, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::SemId;

use crate::rng::Rng;
use crate::{cover, ensure, gen, input, Res};

pub fn run(r: &mut Rng, _case: u64) -> Res {
    match r.below(4) {
        0 => enums(r),
        1 => unions(r),
        2 => structs(r),
        _ => tuples(r),
    }
}

fn probe_names(r: &mut Rng, vars: &[Variant]) -> Vec<VariantName> {
    let mut v: Vec<VariantName> = vars.iter().map(|v| v.name.clone()).collect();
    for _ in 0..4 { v.push(gen::vname(r)); }
    // near misses of present names
    let near: Vec<String> = v.iter().take(6).flat_map(|n| { let s = n.to_string(); vec![format!("{s}_"), s[..1].to_string(), s.to_uppercase().to_lowercase(), format!("{}0", s)] }).collect();
    for s in near { if let Ok(n) = VariantName::try_from(s) { v.push(n) } }
    v
}

fn enums(r: &mut Rng) -> Res {
    let n = gen::count(r, true);
    let mut vars = gen::variants(r, n);
    let e = gen::enum_of(&vars);
    input(format!("enum {vars:?}"));
    cover("enum");
    let order: Vec<&Variant> = e.iter().collect();
    vars.sort_by_key(|v| v.tag);
    ensure!(order.len() == vars.len() && order.iter().zip(&vars).all(|(a, b)| a.tag == b.tag && a.name == b.name), "enum-order", "enum variants are not listed by tag: {order:?}");
    for tag in 0..=255u8 {
        let want = vars.iter().find(|v| v.tag == tag);
        ensure!(e.has_tag(tag) == want.is_some(), "enum-has-tag", "has_tag({tag}) = {}", e.has_tag(tag));
        ensure!(e.name_by_tag(tag) == want.map(|v| &v.name), "enum-name-by-tag", "name_by_tag({tag}) = {:?}", e.name_by_tag(tag));
        ensure!(same(e.by_tag(tag), want), "enum-by-tag", "by_tag({tag}) = {:?}", e.by_tag(tag));
    }
    for name in probe_names(r, &vars) {
        let want = vars.iter().find(|v| v.name == name);
        ensure!(e.has_name(&name) == want.is_some(), "enum-has-name", "has_name({name}) = {}", e.has_name(&name));
        ensure!(e.tag_by_name(&name) == want.map(|v| v.tag), "enum-tag-by-name", "tag_by_name({name}) = {:?}", e.tag_by_name(&name));
        ensure!(same(e.by_name(&name), want), "enum-by-name", "by_name({name}) = {:?}", e.by_name(&name));
    }
    let back: BTreeSet<Variant> = e.clone().into_inner();
    ensure!(EnumVariants::try_from(back).map(|b| b == e).unwrap_or(false), "enum-inner", "into_inner does not give the variants back");
    Ok(())
}
fn same(a: Option<&Variant>, b: Option<&Variant>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.tag == b.tag && a.name == b.name, _ => false }
}

fn unions(r: &mut Rng) -> Res {
    let n = gen::count(r, true);
    let mut items: Vec<(Variant, SemId)> = gen::variants(r, n).into_iter().map(|v| (v, gen::semid(r))).collect();
    let u = UnionVariants::try_from(items.iter().cloned().collect::<BTreeMap<_, _>>()).unwrap();
    input(format!("union {items:?}"));
    cover("union");
    items.sort_by_key(|(v, _)| v.tag);
    let vars: Vec<Variant> = items.iter().map(|(v, _)| v.clone()).collect();
    let order: Vec<(&Variant, &SemId)> = u.iter().collect();
    ensure!(order.len() == items.len() && order.iter().zip(&items).all(|(a, b)| a.0.tag == b.0.tag && a.0.name == b.0.name && *a.1 == b.1), "union-order", "union variants are not listed by tag: {order:?}");
    let eq = |a: Option<(&Variant, &SemId)>, b: Option<&(Variant, SemId)>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(Some(a.0), Some(&b.0)) && *a.1 == b.1, _ => false };
    for tag in 0..=255u8 {
        let want = items.iter().find(|v| v.0.tag == tag);
        ensure!(u.has_tag(tag) == want.is_some(), "union-has-tag", "has_tag({tag}) = {}", u.has_tag(tag));
        ensure!(eq(u.by_tag(tag), want), "union-by-tag", "by_tag({tag}) = {:?}", u.by_tag(tag));
        ensure!(u.ty_by_tag(tag) == want.map(|v| &v.1), "union-ty-by-tag", "ty_by_tag({tag}) = {:?}", u.ty_by_tag(tag));
        ensure!(u.name_by_tag(tag) == want.map(|v| &v.0.name), "union-name-by-tag", "name_by_tag({tag}) = {:?}", u.name_by_tag(tag));
        let pos = tag;
        let want = items.get(pos as usize);
        ensure!(u.ty_by_pos(pos) == want.map(|v| &v.1), "union-ty-by-pos", "ty_by_pos({pos}) = {:?}", u.ty_by_pos(pos));
        ensure!(u.name_by_pos(pos) == want.map(|v| &v.0.name), "union-name-by-pos", "name_by_pos({pos}) = {:?}", u.name_by_pos(pos));
    }
    for name in probe_names(r, &vars) {
        let want = items.iter().find(|v| v.0.name == name);
        ensure!(eq(u.by_name(&name), want), "union-by-name", "by_name({name}) = {:?}", u.by_name(&name));
        ensure!(u.ty_by_name(&name) == want.map(|v| &v.1), "union-ty-by-name", "ty_by_name({name}) = {:?}", u.ty_by_name(&name));
        ensure!(u.tag_by_name(&name) == want.map(|v| v.0.tag), "union-tag-by-name", "tag_by_name({name}) = {:?}", u.tag_by_name(&name));
    }
    ensure!(same(Some(u.unwrap_first()), vars.first()), "union-first", "unwrap_first = {:?}", u.unwrap_first());
    ensure!(same(Some(u.unwrap_last()), vars.last()), "union-last", "unwrap_last = {:?}", u.unwrap_last());
    let keys: Vec<Variant> = u.clone().into_keys().collect();
    ensure!(keys.iter().zip(&vars).all(|(a, b)| same(Some(a), Some(b))) && keys.len() == vars.len(), "union-keys", "into_keys = {keys:?}");
    let vals: Vec<SemId> = u.clone().into_values().collect();
    ensure!(vals.iter().eq(items.iter().map(|(_, t)| t)), "union-values", "into_values = {vals:?}");
    let owned: Vec<(Variant, SemId)> = u.clone().into_iter().collect();
    ensure!(owned.len() == items.len() && owned.iter().zip(&items).all(|(a, b)| same(Some(&a.0), Some(&b.0)) && a.1 == b.1), "union-into-iter", "into_iter = {owned:?}");
    Ok(())
}

fn structs(r: &mut Rng) -> Res {
    let n = gen::count(r, true);
    let items: Vec<Field<SemId>> = gen::fnames(r, n).into_iter().map(|name| Field { name, ty: gen::semid(r) }).collect();
    let s = NamedFields::try_from(items.clone()).unwrap();
    input(format!("struct {items:?}"));
    cover("struct");
    for pos in 0..=255u8 {
        let want = items.get(pos as usize).map(|f| &f.ty);
        ensure!(s.ty_by_pos(pos) == want, "struct-ty-by-pos", "ty_by_pos({pos}) = {:?}", s.ty_by_pos(pos));
    }
    let mut names: Vec<FieldName> = items.iter().map(|f| f.name.clone()).collect();
    for _ in 0..6 { names.push(gen::fname(r)); }
    for f in items.iter().take(6) { for s in [format!("{}_", f.name), f.name.as_str()[..1].to_string()] { if let Ok(n) = FieldName::try_from(s) { names.push(n) } } }
    for name in names {
        let want = items.iter().find(|f| f.name == name).map(|f| &f.ty);
        ensure!(s.ty_by_name(&name) == want, "struct-ty-by-name", "ty_by_name({name}) = {:?}", s.ty_by_name(&name));
    }
    let it: Vec<Field<SemId>> = (&s).into_iter().cloned().collect();
    ensure!(it == items && s.clone().into_inner() == items && s.clone().into_iter().collect::<Vec<_>>() == items, "struct-iter", "iteration gives {it:?}");
    Ok(())
}
fn tuples(r: &mut Rng) -> Res {
    let n = gen::count(r, true);
    let items: Vec<SemId> = (0..n).map(|_| gen::semid(r)).collect();
    let s = UnnamedFields::try_from(items.clone()).unwrap();
    input(format!("tuple {items:?}"));
    cover("tuple");
    for pos in 0..=255u8 {
        ensure!(s.ty_by_pos(pos) == items.get(pos as usize), "tuple-ty-by-pos", "ty_by_pos({pos}) = {:?}", s.ty_by_pos(pos));
    }
    let it: Vec<SemId> = (&s).into_iter().copied().collect();
    ensure!(it == items && s.clone().into_inner() == items && s.clone().into_iter().collect::<Vec<_>>() == items, "tuple-iter", "iteration gives {it:?}");
    Ok(())
}
