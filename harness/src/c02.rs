//! C02: ids of libraries and type systems.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use strict_types::typelib::Dependency;
use strict_types::{SemId, SystemBuilder, Ty, TypeSystem};

use crate::model::{id_bytes, tagged, universe};
use crate::rng::Rng;
use crate::{cover, ensure, gen, input, Res};

pub fn sys_id(ids: &BTreeSet<SemId>) -> [u8; 32] {
    let mut o = (ids.len() as u32).to_le_bytes()[..3].to_vec();
    for i in ids { o.extend(id_bytes(i)) }
    tagged(b"urn:ubideco:strict-types:sys:v01", &o)
}
/// Contents at the limits of the containers.
fn large(r: &mut Rng) -> Res {
    use amplify::ByteArray;
    let n = r.range(1, 255) as usize;
    let many = if r.chance(1, 20) { 2000 } else { 3 };
    let names = crate::model::tnames(r, many);
    let types: Vec<_> = names.into_iter().map(|n| (n, Ty::<strict_types::LibRef>::Array(strict_types::LibRef::Named(gen::semid(r)), r.below(65536) as u16))).collect();
    let deps: Vec<_> = (0..n).map(|_| Dependency::with(crate::model::libid(r), gen::lname(r))).collect();
    let name = gen::lname(r);
    let lib = |d: &[Dependency], t: &[(strict_encoding::TypeName, Ty<strict_types::LibRef>)]| strict_types::TypeLib {
        name: name.clone(),
        dependencies: Confined::try_from_iter(d.iter().cloned()).unwrap(),
        extern_types: Default::default(),
        types: Confined::try_from_iter(t.iter().cloned()).unwrap(),
    };
    let want = |l: &strict_types::TypeLib| {
        let mut o = vec![l.name.len() as u8];
        o.extend(l.name.as_bytes());
        o.push(l.dependencies.len() as u8);
        let ids: BTreeSet<_> = l.dependencies.iter().map(|d| d.id.to_byte_array()).collect();
        for d in ids { o.extend(d) }
        o.extend((l.types.len() as u16).to_le_bytes());
        for (n, t) in &l.types { o.extend(t.sem_id_named(n).to_byte_array()) }
        tagged(b"urn:ubideco:strict-types:lib:v01", &o)
    };
    let l = lib(&deps, &types);
    cover("large library");
    input(format!("library of {} dependencies and {} types", l.dependencies.len(), l.types.len()));
    ensure!(l.id().to_byte_array() == want(&l), "lib-id-large", "id of a library of {} dependencies and {} types is {}", l.dependencies.len(), l.types.len(), l.id());
    if r.chance(1, 20) {
        let n = [0u32, 255, 256, 257, 65535, 65536, 65537, 70_000][r.us(8)];
        let id = |n: u32, b: u8| { let mut i = [b; 32]; i[..4].copy_from_slice(&n.to_be_bytes()); SemId::from(i) };
        let ids: BTreeSet<SemId> = (0..n).map(|i| id(i, 0)).chain((0..3).map(|_| gen::semid(r))).collect();
        cover("large system");
        input(format!("system of {} types", ids.len()));
        let sys = TypeSystem::from(Confined::from_checked(ids.iter().map(|i| (*i, Ty::UnicodeChar)).collect::<BTreeMap<_, _>>()));
        ensure!(sys.id().to_byte_array() == sys_id(&ids), "sys-id-large", "id of a system of {} types is {}", ids.len(), sys.id());
    }
    Ok(())
}
pub fn run(r: &mut Rng, case: u64) -> Res {
    use amplify::ByteArray;
    if case % 50 == 1 { return large(r) }
    let mut libs = universe(r, 4);
    input(format!("{libs:?}"));
    for (l, t) in &libs {
        let lib = l.lib(t).unwrap();
        cover("library");
        ensure!(lib.id() == l.lib_id(t), "lib-id", "id of {} is {}", l.name, lib.id());
        // another name, another dependency or another definition changes the id; the rest does not
        let mut o = lib.clone();
        o.name = loop { let n = gen::lname(r); if n != lib.name { break n } };
        ensure!(o.id() != lib.id(), "lib-name", "the name of {} is not part of its id", l.name);
        let mut o = lib.clone();
        let extra = Dependency::with(crate::model::libid(r), gen::lname(r));
        if o.dependencies.push(extra.clone()).is_ok() { ensure!(o.id() != lib.id(), "lib-deps", "dependency {extra} is not part of the id of {}", l.name); }
        let mut o = lib.clone();
        o.extern_types = Default::default();
        ensure!(o.id() == lib.id(), "lib-extern", "extern types are part of the id of {}", l.name);
        if t.len() > 1 {
            let (n, mut m) = (t.keys().nth(r.us(t.len())).unwrap().clone(), t.clone());
            m.remove(&n);
            ensure!(l.lib(&m).unwrap().id() != lib.id(), "lib-types", "type {n} is not part of the id of {}", l.name);
        }
        let (n, mut m) = (t.keys().nth(r.us(t.len())).unwrap().clone(), t.clone());
        let d = m.remove(&n).unwrap();
        let alt = crate::model::MTy::Tuple(vec![crate::model::MRef::Id(d.sem_id(Some(&n)))]);
        if alt != d {
            m.insert(n.clone(), alt);
            ensure!(l.lib(&m).unwrap().id() != lib.id(), "lib-def", "the definition of {n} is not part of the id of {}", l.name);
        }
    }
    // systems: same set of ids, same system id, whatever the order of import
    let mut first = None;
    for round in 0..3 {
        let mut b = SystemBuilder::new();
        for (l, t) in &libs { b = match b.import(l.lib(t).unwrap()) { Ok(b) => b, Err(e) => return Err(crate::Fail { key: "import".into(), what: format!("import fails with {e}") }) } }
        let Ok(sys) = b.finalize() else { break };
        cover(if round == 0 { "system" } else { "another order" });
        let ids: BTreeSet<SemId> = sys.as_types().iter().map(|(i, _)| *i).collect();
        ensure!(sys.id().to_byte_array() == sys_id(&ids) && sys.as_types().id() == sys.id(), "sys-id", "id of the system is {}", sys.id());
        ensure!(*first.get_or_insert(sys.id()) == sys.id(), "sys-order", "the order of import changes the id of the system");
        r.shuffle(&mut libs);
    }
    // merging
    let ids: BTreeSet<SemId> = (0..r.below(30)).map(|_| gen::semid(r)).collect();
    let ty = |i: &SemId| if id_bytes(i)[3] % 2 == 0 { Ty::UnicodeChar } else { Ty::Array(*i, 2) };
    let sys = |s: &BTreeSet<SemId>| TypeSystem::from(Confined::from_checked(s.iter().map(|i| (*i, ty(i))).collect::<BTreeMap<_, _>>()));
    let all = sys(&ids);
    ensure!(all.id().to_byte_array() == sys_id(&ids), "sys-id", "id of the system of {ids:?} is {}", all.id());
    let (a, b): (BTreeSet<_>, BTreeSet<_>) = ids.iter().partition(|_| r.chance(1, 2));
    let a: BTreeSet<SemId> = a.into_iter().chain(b.iter().take(2).copied()).collect();
    let (mut x, mut y) = (sys(&a), sys(&b));
    x.extend(sys(&b)).unwrap();
    y.extend(sys(&a)).unwrap();
    ensure!(x.id() == all.id() && y.id() == all.id() && x == all && y == all, "sys-merge", "merging gives {} and {} instead of {}", x.id(), y.id(), all.id());
    let more: BTreeSet<SemId> = ids.iter().copied().chain([gen::semid(r)]).collect();
    if more != ids { ensure!(sys(&more).id() != all.id(), "sys-more", "another type does not change the id"); }
    Ok(())
}
