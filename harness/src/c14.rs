//! C14, C16: symbolic libraries and compiled ones.
use std::collections::{BTreeMap, BTreeSet};

use strict_encoding::{LibName, TypeName};
use strict_types::typelib::{CompileError, Dependency};
use strict_types::TypeLib;

use crate::model::{build, mlib, universe, MLib, MRef, MTy};
use crate::rng::Rng;
use crate::{cover, ensure, gen, input, no_panic, Res};

fn deps_of(l: &MLib) -> Vec<Dependency> { l.deps.iter().filter(|d| l.ext.contains_key(&d.name)).cloned().collect() }

/// Libraries of as many types as fit, and of one more.
fn huge(n: usize) -> Res {
    input(format!("a library of {n} primitive types"));
    let types: BTreeMap<TypeName, MTy> = (0..n).map(|i| (TypeName::try_from(format!("T{i}")).unwrap(), MTy::Prim(strict_encoding::Primitive::U8))).collect();
    let l = MLib { name: LibName::try_from("Huge").unwrap(), deps: vec![], ext: BTreeMap::new(), types };
    let sym = l.symbolic();
    let got = no_panic("compile-panic-size", || sym.compile())?;
    cover(format!("{n} types"));
    match got {
        Ok(lib) => ensure!(n <= u16::MAX as usize && lib.types.len() == n, "compile-size", "compiled to {} types", lib.types.len()),
        Err(e) => ensure!(n > u16::MAX as usize && e == CompileError::TooManyTypes, "compile-size", "refused with {e}"),
    }
    Ok(())
}
pub fn run(r: &mut Rng, case: u64) -> Res {
    if case == 5 { return huge(u16::MAX as usize) }
    if case == 6 { return huge(u16::MAX as usize + 1) }
    let known: Vec<(LibName, strict_types::TypeLibId, Vec<(TypeName, strict_types::SemId)>)> = (0..r.below(3)).map(|i| {
        let n = r.below(4) as usize;
        (LibName::try_from(format!("Dep{i}")).unwrap(), crate::model::libid(r), crate::model::tnames(r, n).into_iter().map(|t| (t, gen::semid(r))).collect())
    }).collect::<Vec<_>>().into_iter().fold(vec![], |mut v: Vec<(LibName, strict_types::TypeLibId, _)>, x| { if v.iter().all(|y| y.1 != x.1) { v.push(x) } v });
    let name = gen::lname(r);
    let mut l = mlib(r, name, &known, 3);
    let names: Vec<TypeName> = l.types.keys().cloned().collect();
    match r.below(6) {
        // circular
        0 => {
            let (a, b) = (r.pick(&names).clone(), r.pick(&names).clone());
            l.types.insert(a.clone(), MTy::Tuple(vec![MRef::Name(b.clone())]));
            l.types.insert(b, MTy::Array(Box::new(MRef::Name(a)), 1));
        }
        // undefined
        1 => { let a = r.pick(&names).clone(); l.types.insert(a, MTy::Set(Box::new(if r.chance(1, 2) { MRef::Name(gen::tname(r)) } else { MRef::Inline(Box::new(MTy::Array(Box::new(MRef::Name(gen::tname(r))), 2))) }), gen::sizing(r))); }
        // nested too deep
        2 => {
            let a = r.pick(&names).clone();
            let deep = r.range(2, 7) as usize;
            let mut t = MTy::Char;
            for _ in 0..deep { t = if r.chance(1, 2) { MTy::Tuple(vec![MRef::Inline(Box::new(t))]) } else { MTy::Array(Box::new(MRef::Inline(Box::new(t))), 3) } }
            l.types.insert(a, t);
        }
        // an undeclared library
        3 => { if !l.deps.is_empty() { let n = l.deps[0].name.clone(); l.deps.retain(|d| d.name != n) } }
        // a dependency which is not used
        4 => { let id = crate::model::libid(r); if l.deps.iter().all(|d| d.id != id) { l.deps.push(Dependency::with(id, gen::lname(r))) } }
        _ => {}
    }
    input(format!("{l:?}"));
    let want = l.resolve();
    let too_deep = l.types.values().any(|t| t.depth() > 3);
    let undeclared = l.ext.keys().any(|n| !l.deps.iter().any(|d| d.name == *n));
    let sym = l.symbolic();
    let got = no_panic("compile-panic", || sym.compile())?;
    match got {
        Ok(lib) => {
            cover("compiled");
            ensure!(!too_deep, "compile-deep", "nesting which cannot be expressed is compiled");
            ensure!(!undeclared, "compile-lib", "a library which is not declared is used");
            let Some(want) = want else { ensure!(false, "compile-undefined", "undefined or circular references are compiled into {lib:?}"); return Ok(()) };
            let mut m = l.clone();
            m.deps = deps_of(&l);
            let want: TypeLib = m.lib(&want).unwrap();
            ensure!(lib.name == want.name, "compile-name", "the library is called {}", lib.name);
            ensure!(lib.types.keys().collect::<BTreeSet<_>>() == want.types.keys().collect::<BTreeSet<_>>(), "compile-types", "types are {:?}", lib.types.keys().collect::<Vec<_>>());
            for (n, t) in &want.types { ensure!(lib.types.get(n) == Some(t), "compile-def", "{n} is {:?} instead of {t:?}", lib.types.get(n)); }
            ensure!(lib.dependencies.iter().map(|d| (d.id, &d.name)).eq(want.dependencies.iter().map(|d| (d.id, &d.name))) && lib.extern_types == want.extern_types, "compile-deps", "dependencies are {:?}", lib.dependencies);
        }
        Err(e) => {
            let bad = [want.is_none(), too_deep, undeclared];
            cover(match bad { [true, _, _] => "undefined or circular", [_, true, _] => "too deep", [_, _, true] => "unknown library", _ => "refused" });
            ensure!(bad.iter().any(|b| *b), "compile-refused", "the library is refused with {e}");
            match &e {
                CompileError::UnknownType { unknown, .. } => ensure!(want.is_none(), "compile-error", "{unknown} is reported"),
                CompileError::NestedInline(n, ..) => ensure!(l.types.get(n).is_some_and(|t| t.depth() > 3), "compile-error-deep", "{n} is reported"),
                CompileError::UnknownLib(n) => ensure!(l.ext.contains_key(n) && !l.deps.iter().any(|d| d.name == *n), "compile-error-lib", "{n} is reported"),
                CompileError::Continue => ensure!(want.is_none(), "compile-error-circular", "the library is called circular"),
                e => ensure!(false, "compile-error-kind", "the library is refused with {e}"),
            }
        }
    }
    Ok(())
}

pub mod c16 {
    use super::*;
    /// A library which lists as many types of another one as fit.
    fn huge() -> Res {
        input("a library which lists 65535 types of another one");
        let sem = |i: u32| { let mut b = [0u8; 32]; b[..4].copy_from_slice(&i.to_be_bytes()); strict_types::SemId::from(b) };
        let name = LibName::try_from("Dep").unwrap();
        let lib_id = strict_types::TypeLibId::from([7u8; 32]);
        let ext = BTreeMap::from([(name.clone(), (0..65535u32).map(|i| (sem(i), TypeName::try_from(format!("T{i}")).unwrap())).collect::<BTreeMap<_, _>>())]);
        let n = TypeName::try_from("Aaa").unwrap();
        let t = MTy::Tuple(vec![MRef::Ext { lib: name.clone(), name: TypeName::try_from("T7").unwrap(), lib_id, id: sem(7) }]);
        let l = MLib { name: LibName::try_from("Lib").unwrap(), deps: vec![Dependency::with(lib_id, name)], ext, types: BTreeMap::new() };
        let lib = l.lib(&BTreeMap::from([(n, t)])).unwrap();
        let sym = no_panic("decompile-panic-size", || lib.to_symbolic())?;
        let Ok(sym) = sym else { ensure!(false, "decompile-size", "the library is refused with {}", sym.unwrap_err()); return Ok(()) };
        let back = no_panic("recompile-panic-size", || sym.compile())?;
        ensure!(back.ok() == Some(lib), "recompile-size", "compiled again it is another one");
        cover("65535 types of a library");
        Ok(())
    }
    pub fn run(r: &mut Rng, case: u64) -> Res {
        if case == 5 { return huge() }
        let u = universe(r, 4);
        let Some((l, types)) = u.last().cloned() else { return Ok(()) };
        let mut l = l;
        let mut types = types;
        // references which are not declared
        let breakage = r.below(5);
        match breakage {
            0 => { let a = types.keys().nth(r.us(types.len())).unwrap().clone(); types.insert(a, MTy::Map(Box::new(MRef::Id(gen::semid(r))), Box::new(MRef::Inline(Box::new(MTy::Char))), gen::sizing(r))); }
            1 => { l.deps.clear(); }
            // the same ids listed for another library too, under other names, or instead
            3 => {
                let name = gen::lname(r);
                let id = crate::model::libid(r);
                if !l.ext.contains_key(&name) && l.deps.iter().all(|d| d.id != id && d.name != name) && l.ext.len() < 250 {
                    let all: Vec<_> = l.ext.values().flat_map(|m| m.keys().copied()).collect();
                    let m = all.iter().map(|i| (*i, gen::tname(r))).collect();
                    l.ext.insert(name.clone(), m);
                    l.deps.push(Dependency::with(id, name.clone()));
                    if r.chance(1, 3) { for (n, m) in l.ext.iter_mut() { if *n != name && r.chance(1, 2) { m.clear() } } }
                }
            }
            2 => { if let Some(m) = l.ext.values_mut().next() { if let Some(k) = m.keys().next().copied() { m.remove(&k); } } }
            _ => {}
        }
        input(format!("{} {:?} {:?} {types:?}", l.name, l.deps, l.ext));
        let own: BTreeMap<_, _> = types.iter().map(|(n, t)| (t.sem_id(Some(n)), n.clone())).collect();
        if own.len() != types.len() { return Ok(()) }
        let mut leaves = vec![];
        for t in types.values() { t.leaves(&mut leaves); }
        let declared = leaves.iter().all(|x| match x {
            MRef::Id(i) => own.contains_key(i),
            MRef::Ext { lib_id, id, .. } => l.deps.iter().any(|d| d.id == *lib_id && l.ext.get(&d.name).is_some_and(|m| m.contains_key(id))),
            _ => true,
        });
        let lib = l.lib(&types).unwrap();
        let sym = no_panic("decompile-panic", || lib.to_symbolic())?;
        match sym {
            Err(e) => {
                cover("undeclared");
                ensure!(!declared, "decompile-refused", "the library is refused with {e}");
            }
            Ok(sym) => {
                ensure!(declared, "decompile-undeclared", "undeclared references are named");
                let mut m = l.clone();
                m.types = types.iter().map(|(n, t)| (n.clone(), t.deep(&mut |x| match x {
                    MRef::Id(i) => MRef::Name(own[i].clone()),
                    MRef::Ext { lib_id, id, .. } => { let d = l.deps.iter().find(|d| d.id == *lib_id).unwrap(); MRef::Ext { lib: d.name.clone(), name: l.ext[&d.name][id].clone(), lib_id: *lib_id, id: *id } }
                    x => x.clone(),
                }))).collect();
                let want = m.symbolic();
                for (n, t) in want.types().iter() { ensure!(sym.types().get(n) == Some(t), "decompile-def", "{n} is {:?} instead of {t:?}", sym.types().get(n)); }
                ensure!(sym == want, "decompile", "symbolic form is {sym:?} instead of {want:?}");
                // a library is compiled again when all its dependencies are in use
                if l.deps.iter().all(|d| l.ext.contains_key(&d.name)) && l.ext.keys().all(|n| l.deps.iter().any(|d| d.name == *n)) {
                    cover("round trip");
                    let back = no_panic("recompile-panic", || sym.compile())?;
                    ensure!(back.as_ref().ok() == Some(&lib), "recompile", "compiled again it is {back:?} instead of {lib:?}");
                    ensure!(back.unwrap().id() == lib.id(), "recompile-id", "the id changes");
                }
                let _ = build::<strict_types::LibRef>;
            }
        }
        Ok(())
    }
}
