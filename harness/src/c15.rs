//! C15: building libraries from Rust types.
use std::collections::{BTreeMap, BTreeSet, HashSet};

use amplify::confinement::{SmallVec, TinyOrdMap, TinyOrdSet};
use strict_encoding::{
    FieldName, LibName, Primitive, Sizing, StrictDecode, StrictDumb, StrictEncode, StrictType, TypeName, Variant, VariantName, LIB_EMBEDDED,
};
use strict_types::typelib::{Dependency, TranspileError};
use strict_types::{LibBuilder, SemId};

use crate::model::{MLib, MRef, MTy};
use crate::rng::Rng;
use crate::{cover, ensure, gen, input, no_panic, Res};

macro_rules! lib { ($lib:expr; $($it:item)*) => { $(
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = $lib)]
    $it
)* } }
lib! { LIB_EMBEDDED;
    pub struct Emb(u8);
    pub struct EmbOf(Zed);
}
lib! { "ExtB";
    pub struct Zed(u8);
    pub struct Yon { yes: Zed, no: u16 }
}
lib! { "ExtA";
    pub struct Xis { val: u16 }
    pub struct Wav(Xis, Zed);
    pub struct Vim { items: SmallVec<Zed>, emb: Emb }
}
lib! { "Own";
    pub struct Plain { first: u8, second: u64 }
    pub struct Uses(Plain, Xis);
    pub struct Deep { uses: Uses, wav: Wav, arr: [u8; 4] }
    pub struct Coll { list: SmallVec<Uses>, set: TinyOrdSet<Zed>, map: TinyOrdMap<u8, Vim> }
    pub struct OnlyEmb(Emb);
    pub struct OfEmb(EmbOf);
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Own", tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
pub enum Kind { #[strict_type(dumb)] One = 1, Seven = 7 }
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "ExtB", tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
pub enum Ekind { #[strict_type(dumb)] Zero = 0, Five = 5 }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Own", tags = custom, dumb = { Self::None })]
pub enum Choice {
    #[strict_type(tag = 0)] None,
    #[strict_type(tag = 2)] Pair(Yon, Kind),
    #[strict_type(tag = 9)] Rec { inner: Uses, kind: Ekind },
}

fn tn(s: &str) -> TypeName { TypeName::try_from(s.to_string()).unwrap() }
fn ln(s: &str) -> LibName { LibName::try_from(s.to_string()).unwrap() }
fn fname(s: &str) -> FieldName { FieldName::try_from(s.to_string()).unwrap() }
fn var(s: &str, tag: u8) -> Variant { Variant { name: VariantName::try_from(s.to_string()).unwrap(), tag } }
fn inl(t: MTy) -> MRef { MRef::Inline(Box::new(t)) }
fn prim(p: Primitive) -> MRef { inl(MTy::Prim(p)) }
fn u8s() -> MRef { prim(Primitive::U8) }
/// `Name` stands for a type of the table.
fn r(s: &str) -> MRef { MRef::Name(tn(s)) }

/// What the types above are, written down independently of the derivation.
fn table() -> BTreeMap<&'static str, (&'static str, MTy)> {
    let st = |v: &[(&str, MRef)]| MTy::Struct(v.iter().map(|(n, t)| (fname(n), t.clone())).collect());
    BTreeMap::from([
        ("Emb", ("_", MTy::Tuple(vec![u8s()]))),
        ("EmbOf", ("_", MTy::Tuple(vec![r("Zed")]))),
        ("Zed", ("ExtB", MTy::Tuple(vec![u8s()]))),
        ("Yon", ("ExtB", st(&[("yes", r("Zed")), ("no", prim(Primitive::U16))]))),
        ("Ekind", ("ExtB", MTy::Enum(vec![var("zero", 0), var("five", 5)]))),
        ("Xis", ("ExtA", st(&[("val", prim(Primitive::U16))]))),
        ("Wav", ("ExtA", MTy::Tuple(vec![r("Xis"), r("Zed")]))),
        ("Vim", ("ExtA", st(&[("items", inl(MTy::List(Box::new(r("Zed")), Sizing::U16))), ("emb", r("Emb"))]))),
        ("Plain", ("Own", st(&[("first", u8s()), ("second", prim(Primitive::U64))]))),
        ("Uses", ("Own", MTy::Tuple(vec![r("Plain"), r("Xis")]))),
        ("Deep", ("Own", st(&[("uses", r("Uses")), ("wav", r("Wav")), ("arr", inl(MTy::Array(Box::new(prim(Primitive::BYTE)), 4)))]))),
        ("Coll", ("Own", st(&[
            ("list", inl(MTy::List(Box::new(r("Uses")), Sizing::U16))),
            ("set", inl(MTy::Set(Box::new(r("Zed")), Sizing::U8))),
            ("map", inl(MTy::Map(Box::new(u8s()), Box::new(r("Vim")), Sizing::U8))),
        ]))),
        ("OnlyEmb", ("Own", MTy::Tuple(vec![r("Emb")]))),
        ("OfEmb", ("Own", MTy::Tuple(vec![r("EmbOf")]))),
        ("Kind", ("Own", MTy::Enum(vec![var("one", 1), var("seven", 7)]))),
        ("Choice", ("Own", MTy::Union(vec![
            (var("none", 0), prim(Primitive::UNIT)),
            (var("pair", 2), inl(MTy::Tuple(vec![r("Yon"), r("Kind")]))),
            (var("rec", 9), inl(st(&[("inner", r("Uses")), ("kind", r("Ekind"))]))),
        ]))),
    ])
}
fn add(b: LibBuilder, name: &str) -> LibBuilder {
    match name {
        "Emb" => b.transpile::<Emb>(),
        "EmbOf" => b.transpile::<EmbOf>(),
        "Zed" => b.transpile::<Zed>(),
        "Yon" => b.transpile::<Yon>(),
        "Ekind" => b.transpile::<Ekind>(),
        "Xis" => b.transpile::<Xis>(),
        "Wav" => b.transpile::<Wav>(),
        "Vim" => b.transpile::<Vim>(),
        "Plain" => b.transpile::<Plain>(),
        "Uses" => b.transpile::<Uses>(),
        "Deep" => b.transpile::<Deep>(),
        "Coll" => b.transpile::<Coll>(),
        "OnlyEmb" => b.transpile::<OnlyEmb>(),
        "OfEmb" => b.transpile::<OfEmb>(),
        "Kind" => b.transpile::<Kind>(),
        "Choice" => b.transpile::<Choice>(),
        _ => unreachable!(),
    }
}

struct World { table: BTreeMap<&'static str, (&'static str, MTy)>, main: LibName, ids: BTreeMap<LibName, strict_types::TypeLibId> }
impl World {
    fn name<'a>(&'a self, t: &TypeName) -> &'a str { self.table.keys().find(|k| **k == t.as_str()).unwrap() }
    /// The definition as the library being built has it.
    fn def(&self, name: &str) -> MTy { self.table[name].1.deep(&mut |x| if let MRef::Name(n) = x { self.rf(self.name(n)) } else { x.clone() }) }
    fn rf(&self, name: &str) -> MRef {
        let lib = ln(self.table[name].0);
        if lib == self.main { return MRef::Name(tn(name)) }
        let id = self.def(name).sem_id(Some(&tn(name)));
        MRef::Ext { lib_id: self.ids[&lib], lib, name: tn(name), id }
    }
    fn closure(&self, name: &str, out: &mut BTreeSet<String>) {
        if !out.insert(name.to_string()) { return }
        let mut leaves = vec![];
        self.table[name].1.leaves(&mut leaves);
        for l in leaves { if let MRef::Name(n) = l { self.closure(self.name(n), out) } }
    }
}

pub fn run(r: &mut Rng, _case: u64) -> Res {
    let table = table();
    let all: Vec<&'static str> = table.keys().copied().collect();
    let main = ln(r.pick(&["Own", "Own", "Own", "ExtA", "ExtB"]));
    let mut ids = BTreeMap::new();
    for l in ["Own", "ExtA", "ExtB", "_", "ExtAB", "Ext"] {
        let id = crate::model::libid(r);
        if ids.values().all(|x| *x != id) { ids.insert(ln(l), id); }
    }
    if ids.len() < 6 { return Ok(()) }
    let w = World { table, main: main.clone(), ids };
    let n = r.range(1, 4);
    let chosen: Vec<&str> = (0..n).map(|_| *r.pick(&all)).collect();
    let mut reached = BTreeSet::new();
    for c in &chosen { w.closure(c, &mut reached) }
    let mut want = MLib { name: main.clone(), deps: vec![], ext: BTreeMap::new(), types: BTreeMap::new() };
    for x in &reached {
        let (lib, name) = (ln(w.table[x.as_str()].0), tn(x));
        if lib == main { want.types.insert(name, w.def(x)); } else { want.ext.entry(lib).or_default().insert(w.def(x).sem_id(Some(&name)), name); }
    }
    // the definitions refer by name only within the library being built: a foreign type built on its own types has another id
    if want.types.is_empty() || want.ext.values().flatten().any(|(_, n)| w.def(n.as_str()).refs().iter().any(|x| matches!(x, MRef::Name(_)))) { return Ok(()) }
    for l in want.ext.keys() { if l.as_str() != LIB_EMBEDDED { want.deps.push(Dependency::with(w.ids[l], l.clone())) } }
    // what the dependencies are said to provide
    let mut missing: BTreeSet<(LibName, SemId)> = BTreeSet::new();
    let drop = r.chance(1, 2);
    let mut known: Vec<(Dependency, HashSet<SemId>)> = vec![];
    for (l, id) in &w.ids {
        if *l == main || (!want.ext.contains_key(l) && r.chance(1, 2)) { continue }
        let mut provided: HashSet<SemId> = want.ext.get(l).into_iter().flat_map(|m| m.keys().copied()).collect();
        if drop && r.chance(1, 2) {
            let mut ids: Vec<SemId> = provided.iter().copied().collect();
            ids.sort();
            if !ids.is_empty() { let x = *r.pick(&ids); provided.remove(&x); if l.as_str() != LIB_EMBEDDED { missing.insert((l.clone(), x)); } }
        }
        for _ in 0..r.below(3) { provided.insert(gen::semid(r)); }
        // types which another dependency is to provide
        if r.chance(1, 3) { for (m, t) in &want.ext { if m != l && !want.ext.get(l).is_some_and(|o| t.keys().any(|k| o.contains_key(k))) { provided.extend(t.keys().copied()) } } }
        known.push((Dependency::with(*id, l.clone()), provided));
    }
    for i in (1..known.len()).rev() { let j = r.us(i + 1); known.swap(i, j); }
    let forgotten = want.deps.len() > 0 && r.chance(1, 12);
    if forgotten { let l = r.pick(&want.deps).name.clone(); known.retain(|(d, _)| d.name != l); }
    let silent = !forgotten && r.chance(1, 60);
    input(format!("library {main} of {chosen:?}, dependencies {known:?}{}", if silent { ", not saying what they provide" } else { "" }));
    let start = || {
        #[allow(deprecated)]
        if silent { LibBuilder::new(main.clone(), known.iter().map(|(d, _)| d.clone())) } else { LibBuilder::with(main.clone(), known.clone()) }
    };
    let building = || { let mut b = start(); for c in &chosen { b = add(b, c); } b };
    if forgotten {
        // the name of a library which is not among the dependencies: refused as soon as it is used
        let got = no_panic("", || building().compile_symbols());
        cover("library not declared");
        ensure!(!matches!(got, Ok(Ok(_))), "build-undeclared", "a library using one which is not declared is built");
        return Ok(());
    }
    let got = no_panic("build-panic", || building().compile_symbols())?;
    match got {
        Ok(sym) => {
            ensure!(silent || missing.is_empty(), "build-missing", "the library is built though {missing:?} are not provided");
            cover(if silent { "built, nothing said" } else { "built" });
            let want = want.symbolic();
            ensure!(sym.name() == want.name(), "build-name", "the library is called {}", sym.name());
            ensure!(sym.types().keys().eq(want.types().keys()), "build-types", "types are {:?} instead of {:?}", sym.types().keys().collect::<Vec<_>>(), want.types().keys().collect::<Vec<_>>());
            for (n, t) in want.types().iter() { ensure!(sym.types().get(n) == Some(t), "build-def", "{n} is {:?} instead of {t:?}", sym.types().get(n)); }
            ensure!(sym.extern_types() == want.extern_types(), "build-extern", "external types are {:?} instead of {:?}", sym.extern_types(), want.extern_types());
            let deps = |s: &strict_types::typelib::SymbolicLib| s.dependencies().iter().map(|d| (d.id, d.name.clone())).collect::<BTreeSet<_>>();
            ensure!(deps(&sym) == deps(&want), "build-deps", "dependencies are {:?} instead of {:?}", sym.dependencies(), want.dependencies());
            let lib = no_panic("build-compile-panic", || building().compile())?;
            match (lib, no_panic("build-compile-panic", || sym.compile())?) {
                (Ok(a), Ok(b)) => ensure!(a == b, "build-compile", "compiled at once the library differs"),
                (Err(a), Err(b)) => ensure!(a == b, "build-compile", "compiled at once the library is refused with {a}, and otherwise with {b}"),
                (a, b) => ensure!(false, "build-compile", "compiled at once: {a:?}, otherwise {b:?}"),
            }
        }
        Err(e) => {
            ensure!(!silent && !missing.is_empty(), "build-refused", "the library is refused with {e}");
            cover("type not provided");
            match e {
                TranspileError::DependencyMissesType(l, id, n) => ensure!(missing.contains(&(l.clone(), id)) && want.ext[&l][&id] == n, "build-error", "{l}.{n} is reported"),
                e => ensure!(false, "build-error-kind", "the library is refused with {e}"),
            }
        }
    }
    Ok(())
}
