//! C01: semantic ids.
use strict_types::ast::SemCommit;
use strict_types::typelib::{InlineRef, InlineRef1, InlineRef2, TranspileRef};
use strict_types::{CommitConsume, LibRef, SemId, Ty};

use crate::model::{build, mty, MRef, MTy};
use crate::rng::Rng;
use crate::{cover, ensure, gen, input, Res};

/// Records what is fed to the hash.
#[derive(Default)]
pub struct Tape(pub Vec<u8>);
impl CommitConsume for Tape { fn commit_consume(&mut self, data: impl AsRef<[u8]>) { self.0.extend(data.as_ref()) } }

/// A definition which differs from `t` in one detail.
fn vary(r: &mut Rng, t: &MTy) -> MTy {
    let mut t = t.clone();
    let other = |r: &mut Rng, x: &mut MRef| *x = MRef::Id(loop { let i = gen::semid(r); if MRef::Id(i) != *x { break i } });
    let shift = |s: &mut strict_encoding::Sizing, r: &mut Rng| if r.chance(1, 2) { s.min ^= 1 << r.below(64) } else { s.max ^= 1 << r.below(64) };
    match &mut t {
        MTy::Prim(_) => t = MTy::Char,
        MTy::Char => t = MTy::Prim(gen::primitive(r)),
        MTy::Enum(v) => match r.below(3) {
            0 if v.len() > 1 => { v.pop(); }
            1 => { let tag = (0..=255).find(|t| v.iter().all(|v| v.tag != *t)).unwrap(); v[0].tag = tag }
            _ => { let n = loop { let n = gen::vname(r); if v.iter().all(|v| v.name != n) { break n } }; v[0].name = n }
        },
        MTy::Union(v) => match r.below(3) {
            0 if v.len() > 1 => { v.pop(); }
            1 => { let n = loop { let n = gen::vname(r); if v.iter().all(|v| v.0.name != n) { break n } }; v[0].0.name = n }
            _ => other(r, &mut v[0].1),
        },
        MTy::Tuple(v) => match r.below(2) {
            0 if v.len() > 1 => { v.pop(); }
            _ => { let i = r.us(v.len()); other(r, &mut v[i]) }
        },
        MTy::Struct(v) => match r.below(4) {
            0 if v.len() > 1 => { v.pop(); }
            1 if v.len() > 1 => { v.swap(0, 1) }
            2 => { let n = loop { let n = gen::fname(r); if v.iter().all(|v| v.0 != n) { break n } }; v[0].0 = n }
            _ => { let i = r.us(v.len()); other(r, &mut v[i].1) }
        },
        MTy::Array(x, n) => if r.chance(1, 2) { *n ^= 1 << r.below(16) } else { other(r, x) },
        MTy::List(x, s) => match r.below(3) { 0 => shift(s, r), 1 => { t = MTy::Set(x.clone(), *s) } _ => other(r, x) },
        MTy::Set(x, s) => match r.below(3) { 0 => shift(s, r), 1 => { t = MTy::List(x.clone(), *s) } _ => other(r, x) },
        MTy::Map(k, x, s) => match r.below(3) { 0 => shift(s, r), 1 if k != x => std::mem::swap(k, x), _ => other(r, x) },
    }
    t
}

pub fn run(r: &mut Rng, _case: u64) -> Res {
    let big = r.chance(1, 12);
    let mut t = mty(r, 0, (0, 1), &mut |r| Some(MRef::Id(gen::semid(r))));
    if big {
        let n = gen::count(r, true);
        t = match r.below(4) {
            0 => MTy::Enum(gen::variants(r, n)),
            1 => MTy::Union(gen::variants(r, n).into_iter().map(|v| (v, MRef::Id(gen::semid(r)))).collect()),
            2 => MTy::Struct(gen::fnames(r, n).into_iter().map(|v| (v, MRef::Id(gen::semid(r)))).collect()),
            _ => MTy::Tuple((0..n).map(|_| MRef::Id(gen::semid(r))).collect()),
        };
    }
    let name = gen::tname(r);
    input(format!("{name} = {t:?}"));
    cover(match &t { MTy::Prim(_) => "primitive", MTy::Char => "char", MTy::Enum(_) => "enum", MTy::Union(_) => "union", MTy::Tuple(_) => "tuple", MTy::Struct(_) => "struct", MTy::Array(..) => "array", MTy::List(..) => "list", MTy::Set(..) => "set", MTy::Map(..) => "map" });
    let s: Ty<SemId> = build(&t).unwrap();
    let mut tape = Tape::default();
    s.sem_commit(&mut tape);
    let want = t.preimage(None);
    ensure!(tape.0 == want, "sem-bytes", "the definition commits to {:02x?} instead of {:02x?}", tape.0, want);
    ensure!(s.sem_id_unnamed() == t.sem_id(None), "sem-unnamed", "id of the unnamed definition is {}", s.sem_id_unnamed());
    let l: Ty<LibRef> = build(&t).unwrap();
    ensure!(l.sem_id_unnamed() == t.sem_id(None), "sem-unnamed-lib", "id of the unnamed definition in a library is {}", l.sem_id_unnamed());
    ensure!(l.sem_id_named(&name) == t.sem_id(Some(&name)), "sem-named", "id of the named definition is {}", l.sem_id_named(&name));
    ensure!(build::<InlineRef>(&t).unwrap().sem_id_unnamed() == t.sem_id(None) && build::<InlineRef1>(&t).unwrap().sem_id_unnamed() == t.sem_id(None) && build::<InlineRef2>(&t).unwrap().sem_id_unnamed() == t.sem_id(None), "sem-inline", "ids of the inline definition differ");
    // any other definition has another id
    let v = vary(r, &t);
    if v != t {
        let vs: Ty<SemId> = build(&v).unwrap();
        let mut o = Tape::default();
        vs.sem_commit(&mut o);
        ensure!(o.0 != tape.0 && vs.sem_id_unnamed() != s.sem_id_unnamed(), "sem-collision", "{t:?} and {v:?} share their id");
        ensure!(build::<LibRef>(&v).unwrap().sem_id_named(&name) != l.sem_id_named(&name), "sem-collision-named", "{t:?} and {v:?} share their id as {name}");
    }
    let other = gen::tname(r);
    if other != name { ensure!(l.sem_id_named(&other) != l.sem_id_named(&name), "sem-name", "{name} and {other} share the id of {t:?}"); }
    // inline nesting commits to the nested definitions
    let n = mty(r, 3, (1, 2), &mut |r| Some(if r.chance(1, 2) { MRef::Id(gen::semid(r)) } else { MRef::Ext { lib: gen::lname(r), name: gen::tname(r), lib_id: crate::model::libid(r), id: gen::semid(r) } }));
    if let Some(l) = build::<LibRef>(&n) {
        input(format!("{name} = {n:?}"));
        if n.depth() > 0 { cover("inline") }
        ensure!(l.sem_id_named(&name) == n.sem_id(Some(&name)) && l.sem_id_unnamed() == n.sem_id(None), "sem-nested", "id of the definition with inline parts is {}", l.sem_id_named(&name));
    }
    let y = mty(r, 2, (1, 2), &mut |r| Some(if r.chance(1, 2) { MRef::Name(gen::tname(r)) } else { MRef::Ext { lib: gen::lname(r), name: gen::tname(r), lib_id: crate::model::libid(r), id: gen::semid(r) } }));
    if let Some(l) = build::<TranspileRef>(&y) {
        ensure!(l.sem_id_named(&name) == y.sem_id(Some(&name)), "sem-symbolic", "id of the symbolic definition {y:?} is {}", l.sem_id_named(&name));
    }
    Ok(())
}
