//! C03, C05, C17: assembling libraries into a type system.
use std::collections::{BTreeMap, BTreeSet};

use strict_encoding::{LibName, TypeName};
use strict_types::typelib::Dependency;
use strict_types::typesys::{Error, TypeFqn};
use strict_types::typify::TypeSpec;
use strict_types::{SemId, SystemBuilder, Ty, TypeLib, TypeLibId};

use crate::model::{universe, MLib, MRef, MTy};
use crate::rng::Rng;
use crate::{cover, ensure, gen, input, Fail, Res};

type Types = BTreeMap<TypeName, MTy>;
/// What importing a library adds: every named type and every inline type, by id.
pub fn flatten(name: &LibName, types: &Types, out: &mut BTreeMap<SemId, (BTreeSet<Option<(LibName, TypeName)>>, Ty<SemId>)>) {
    fn inline(t: &MTy, out: &mut BTreeMap<SemId, (BTreeSet<Option<(LibName, TypeName)>>, Ty<SemId>)>) {
        for r in t.refs() {
            if let MRef::Inline(t) = r {
                inline(t, out);
                out.entry(t.sem_id(None)).or_insert_with(|| (BTreeSet::new(), t.flat())).0.insert(None);
            }
        }
    }
    for (n, t) in types {
        inline(t, out);
        out.entry(t.sem_id(Some(n))).or_insert_with(|| (BTreeSet::new(), t.flat())).0.insert(Some((name.clone(), n.clone())));
    }
}
/// Libraries, some of them broken: references to unknown ids, foreign references, undeclared or superfluous dependencies.
fn libs(r: &mut Rng) -> Vec<(TypeLib, Types)> {
    let mut u = universe(r, 5);
    if u.is_empty() { return vec![] }
    let breakage = r.below(4);
    if breakage > 0 {
        let ids: Vec<SemId> = u.iter().flat_map(|(_, t)| t.iter().map(|(n, t)| t.sem_id(Some(n)))).collect();
        for (l, t) in u.iter_mut() {
            if breakage == 1 || r.chance(1, 3) {
                // a reference replaced by one to nowhere, or to a type of any library
                for d in t.values_mut() {
                    if !r.chance(1, 3) { continue }
                    *d = d.deep(&mut |x| if r.chance(1, 3) { match r.below(3) {
                        0 => MRef::Id(gen::semid(r)),
                        1 => MRef::Id(*r.pick(&ids)),
                        _ => MRef::Ext { lib: gen::lname(r), name: gen::tname(r), lib_id: crate::model::libid(r), id: if r.chance(1, 2) { *r.pick(&ids) } else { gen::semid(r) } },
                    } } else { x.clone() });
                }
            }
            if breakage == 2 && r.chance(1, 2) { l.deps.push(Dependency::with(crate::model::libid(r), gen::lname(r))) }
            if breakage == 3 && r.chance(1, 2) && !l.deps.is_empty() { let i = r.us(l.deps.len()); l.deps.remove(i); }
        }
    }
    let mut v: Vec<(TypeLib, Types)> = u.iter().map(|(l, t): &(MLib, Types)| (l.lib(t).unwrap(), t.clone())).collect();
    // two different libraries of the same name, and the same library twice
    if r.chance(1, 6) && v.len() > 1 { v[0].0.name = v[1].0.name.clone() }
    if r.chance(1, 6) { let x = r.pick(&v).clone(); v.push(x) }
    if r.chance(1, 3) && v.len() > 1 { let i = r.us(v.len()); v.remove(i); }
    r.shuffle(&mut v);
    v
}
fn assemble(libs: &[(TypeLib, Types)]) -> Result<Result<strict_types::SymbolicSys, Vec<Error>>, Fail> {
    let mut b = SystemBuilder::new();
    for (l, _) in libs { b = b.import(l.clone()).map_err(|e| Fail { key: "import".into(), what: format!("import of {} fails with {e}", l.name) })?; }
    Ok(b.finalize())
}
pub fn run(r: &mut Rng, _case: u64) -> Res {
    let libs = libs(r);
    input(format!("{:?}", libs.iter().map(|(l, t)| (&l.name, &l.dependencies, t)).collect::<Vec<_>>()));
    let got = assemble(&libs)?;
    let mut all = BTreeMap::new();
    for (l, t) in &libs { flatten(&l.name, t, &mut all); }
    let imported: BTreeSet<TypeLibId> = libs.iter().map(|(l, _)| l.id()).collect();
    let missing_libs: BTreeSet<TypeLibId> = libs.iter().flat_map(|(l, _)| l.dependencies.iter().map(|d| d.id)).filter(|d| !imported.contains(d)).collect();
    let missing_types: BTreeSet<(SemId, SemId)> = all.iter().flat_map(|(k, (_, t))| t.type_refs().map(|(u, _)| (*u, *k)).collect::<Vec<_>>()).filter(|(u, _)| !all.contains_key(u)).collect();
    match got {
        Ok(sys) => {
            cover("complete");
            ensure!(missing_libs.is_empty(), "missing-lib", "assembled without the libraries {missing_libs:?}");
            ensure!(missing_types.is_empty(), "missing-type", "assembled without the types {missing_types:?}");
            for (id, ty) in sys.as_types().iter() {
                for (u, _) in ty.type_refs() { ensure!(sys.as_types().get(*u).is_some(), "dangling", "{u} referenced from {id} is not in the system"); }
            }
        }
        Err(errs) => {
            cover(match (missing_libs.is_empty(), missing_types.is_empty()) { (true, true) => "other error", (false, true) => "absent library", (true, false) => "absent type", _ => "absent both" });
            let mut el = BTreeSet::new();
            let mut et = BTreeSet::new();
            let mut other = 0;
            for e in &errs {
                match e { Error::AbsentImport(d) => { el.insert(d.id); } Error::InnerTypeAbsent { unknown, known } => { et.insert((*unknown, *known)); } _ => other += 1 }
            }
            ensure!(el == missing_libs, "errors-libs", "missing libraries are {missing_libs:?}, reported {el:?}");
            ensure!(et == missing_types, "errors-types", "missing types are {missing_types:?}, reported {et:?}");
            ensure!(other == 0, "errors-other", "complete system is refused with {errs:?}");
        }
    }
    Ok(())
}

pub mod c05 {
    use super::*;
    pub fn run(r: &mut Rng, _case: u64) -> Res {
        let u: Vec<(TypeLib, Types)> = universe(r, 4).iter().map(|(l, t)| (l.lib(t).unwrap(), t.clone())).collect();
        input(format!("{:?}", u.iter().map(|(l, t)| (&l.name, t)).collect::<Vec<_>>()));
        let mut all = BTreeMap::new();
        for (l, t) in &u { flatten(&l.name, t, &mut all); }
        let Ok(sys) = assemble(&u)? else { return Ok(()) };
        cover("system");
        let ids: BTreeSet<SemId> = sys.as_types().iter().map(|(i, _)| *i).collect();
        ensure!(ids == all.keys().copied().collect(), "present", "the system holds {ids:?} instead of {:?}", all.keys());
        let mut names: BTreeSet<(LibName, TypeName)> = BTreeSet::new();
        for (id, (origs, ty)) in &all {
            let known: BTreeSet<_> = origs.iter().flatten().cloned().collect();
            ensure!(sys.get(*id) == Some(ty) && sys.as_types().get(*id) == Some(ty), "definition", "{id} is {:?}", sys.get(*id));
            ensure!(sys.to_sem_id(*id) == Some(*id), "spec-id", "to_sem_id({id}) = {:?}", sys.to_sem_id(*id));
            let got = sys.lookup(*id);
            ensure!(got == sys.as_symbols().lookup(*id), "lookup-sys", "the system and its symbols disagree on {id}");
            match got {
                None => { ensure!(origs.contains(&None), "lookup-none", "the name {known:?} of {id} is lost"); cover("unnamed") }
                Some(f) => {
                    cover("named");
                    ensure!(known.contains(&(f.lib.clone(), f.name.clone())), "lookup", "{id} is called {f} instead of {known:?}");
                    ensure!(sys.resolve(f.clone()) == Some(id), "round-trip", "{id} is called {f}, which resolves to {:?}", sys.resolve(f.clone()));
                    ensure!(sys.to_sem_id(f.clone()) == Some(*id) && sys.get(f.clone()) == Some(ty) && sys.get(TypeSpec::Fqn(f.clone())) == Some(ty), "spec-fqn", "{f} stands for {:?}", sys.to_sem_id(f.clone()));
                }
            }
            names.extend(known);
        }
        // absent and near-miss names
        let near: Vec<(LibName, TypeName)> = names.iter().take(6).flat_map(|(l, n)| {
            let mut v = vec![(l.clone(), gen::tname(r)), (gen::lname(r), n.clone())];
            for s in [format!("{n}_"), format!("{n}0"), n.to_string()[..1].to_string()] { if let Ok(x) = TypeName::try_from(s) { v.push((l.clone(), x)) } }
            for (l2, n2) in &names { v.push((l.clone(), n2.clone())); v.push((l2.clone(), n.clone())) }
            v
        }).collect();
        for (l, n) in near {
            if !names.contains(&(l.clone(), n.clone())) {
                cover("absent name");
                let f = TypeFqn { lib: l, name: n };
                ensure!(sys.resolve(f.clone()).is_none() && sys.to_sem_id(f.clone()).is_none() && sys.get(f.clone()).is_none(), "absent", "{f} resolves to {:?}", sys.resolve(f.clone()));
            }
        }
        for (l, n) in &names {
            let f = TypeFqn { lib: l.clone(), name: n.clone() };
            if let Some(id) = sys.resolve(f.clone()) { ensure!(all[id].0.contains(&Some((l.clone(), n.clone()))), "resolve", "{f} resolves to {id}, which is {:?}", all[id].0); }
            else { ensure!(all.values().filter(|(o, _)| o.contains(&Some((l.clone(), n.clone())))).all(|(o, _)| o.len() > 1), "resolve-none", "{f} does not resolve"); }
        }
        let unknown = gen::semid(r);
        if !all.contains_key(&unknown) { ensure!(sys.lookup(unknown).is_none() && sys.get(unknown).is_none(), "unknown-id", "{unknown} is not in the system"); }
        Ok(())
    }
}
pub mod c17 {
    use super::*;
    pub fn run(r: &mut Rng, _case: u64) -> Res {
        let mut u: Vec<(TypeLib, Types)> = universe(r, 4).iter().map(|(l, t)| (l.lib(t).unwrap(), t.clone())).collect();
        input(format!("{:?}", u.iter().map(|(l, t)| (&l.name, t)).collect::<Vec<_>>()));
        let mut all = BTreeMap::new();
        for (l, t) in &u { flatten(&l.name, t, &mut all); }
        let nested = u.iter().flat_map(|(_, t)| t.values()).map(|t| t.depth()).max().unwrap_or(0);
        for _ in 0..3 {
            let sys = match assemble(&u)? { Ok(s) => s, Err(e) => return Err(Fail { key: "assemble".into(), what: format!("complete libraries are refused with {e:?}") }) };
            cover(format!("nesting {nested}"));
            let ids: BTreeSet<SemId> = sys.as_types().iter().map(|(i, _)| *i).collect();
            let want: BTreeSet<SemId> = all.keys().copied().collect();
            ensure!(ids == want, "ids", "too many {:?}, too few {:?}", ids.difference(&want).collect::<Vec<_>>(), want.difference(&ids).collect::<Vec<_>>());
            for (id, (origs, ty)) in &all {
                ensure!(sys.as_types().get(*id) == Some(ty), "structure", "{id} is {:?} instead of {ty:?}", sys.as_types().get(*id));
                let n = sys.lookup(*id).map(|f| (f.lib.clone(), f.name.clone()));
                ensure!(origs.contains(&n), "name", "{id} is called {n:?} instead of {origs:?}");
            }
            r.shuffle(&mut u);
        }
        Ok(())
    }
}
