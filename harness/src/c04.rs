//! C04: extraction of the reachable closure.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use strict_types::{SemId, Ty, TypeSystem};

use crate::rng::Rng;
use crate::{cover, ensure, gen, input, Res};

/// A type system given by its reference graph; the references of every type are recorded while the type is made.
pub fn system(r: &mut Rng) -> (TypeSystem, BTreeMap<SemId, (Ty<SemId>, Vec<SemId>)>, Vec<SemId>) {
    let n = match r.below(8) { 0 => 1, 1..=4 => r.range(1, 6), 5 | 6 => r.range(3, 20), _ => r.range(20, 120) } as usize;
    let mut ids: BTreeSet<SemId> = BTreeSet::new();
    while ids.len() < n { ids.insert(gen::semid(r)); }
    let mut ids: Vec<SemId> = ids.into_iter().collect();
    r.shuffle(&mut ids);
    let undefined = match r.below(3) { 0 => 0, 1 => r.us(2.min(n)), _ => r.us(n) };
    let shape = r.below(4);
    let mut defs = BTreeMap::new();
    for (i, id) in ids.iter().enumerate().skip(undefined) {
        let mut refs = vec![];
        let sparse = r.chance(1, 3);
        let ty = loop {
            refs.clear();
            let t = gen::ty(r, false, &mut |r: &mut Rng| {
                let to = match shape {
                    // a chain, backwards or forwards through the order of the ids, and random graphs
                    0 => ids[(i + 1) % n],
                    1 => ids[(i + n - 1) % n],
                    2 => ids[(i + 1 + r.us(3)) % n],
                    _ => *r.pick(&ids),
                };
                refs.push(to);
                to
            });
            if sparse && refs.len() > 1 { continue }
            break t;
        };
        defs.insert(*id, (ty, refs));
    }
    let map: BTreeMap<SemId, Ty<SemId>> = defs.iter().map(|(k, (t, _))| (*k, t.clone())).collect();
    (TypeSystem::from(Confined::from_checked(map)), defs, ids)
}

pub fn run(r: &mut Rng, _case: u64) -> Res {
    let (sys, defs, ids) = system(r);
    let roots: Vec<SemId> = match r.below(6) {
        0 => vec![],
        1 => ids.clone(),
        2 => { let k = r.us(ids.len()) + 1; (0..k).map(|_| *r.pick(&ids)).collect() }
        3 => vec![gen::semid(r)],
        _ => vec![*r.pick(&ids)],
    };
    input(format!("roots {roots:?} in {:?}", defs.iter().map(|(k, (t, _))| (k, t)).collect::<Vec<_>>()));
    let mut reach: BTreeSet<SemId> = BTreeSet::new();
    let mut todo = roots.clone();
    while let Some(id) = todo.pop() {
        if reach.insert(id) { if let Some((_, refs)) = defs.get(&id) { todo.extend(refs) } }
    }
    let missing: Vec<_> = reach.iter().filter(|id| !defs.contains_key(*id)).collect();
    match sys.extract(roots.clone()) {
        Ok(ex) => {
            cover(if roots.is_empty() { "empty" } else if reach.len() == defs.len() { "everything" } else { "closure" });
            ensure!(missing.is_empty(), "extract-missing", "extraction succeeds though {missing:?} is reachable and not defined");
            let got: BTreeSet<SemId> = ex.iter().map(|(id, _)| *id).collect();
            ensure!(got == reach, "extract-closure", "extracted {got:?}, reachable {reach:?}");
            for (id, ty) in ex.iter() { ensure!(*ty == defs[id].0, "extract-def", "{id} is {ty:?} in the extract and {:?} in the system", defs[id].0); }
        }
        Err(e) => {
            cover("missing");
            let s = e.to_string();
            ensure!(missing.iter().any(|m| s.contains(&m.to_string())), "extract-error", "extraction fails with `{s}`; undefined and reachable are {missing:?}");
        }
    }
    Ok(())
}
