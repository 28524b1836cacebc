//! Plain model of types and libraries, independent of the crate's own conversions and hashing.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{NonEmptyOrdMap, SmallOrdMap, TinyOrdMap, TinyOrdSet};
use sha2::{Digest, Sha256};
use strict_encoding::{LibName, Primitive, Sizing, StrictDecode, StrictEncode, StrictReader, StrictWriter, TypeName, Variant, FieldName};
use strict_types::ast::{Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{Dependency, ExternRef, InlineRef, InlineRef1, InlineRef2, SymbolRef, SymbolicLib, TranspileRef};
use strict_types::{LibRef, SemId, Ty, TypeLib, TypeLibId, TypeRef};

use crate::gen;
use crate::rng::Rng;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MTy {
    Prim(Primitive),
    Char,
    Enum(Vec<Variant>),
    Union(Vec<(Variant, MRef)>),
    Tuple(Vec<MRef>),
    Struct(Vec<(FieldName, MRef)>),
    Array(Box<MRef>, u16),
    List(Box<MRef>, Sizing),
    Set(Box<MRef>, Sizing),
    Map(Box<MRef>, Box<MRef>, Sizing),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum MRef {
    Inline(Box<MTy>),
    /// by name, in a symbolic library
    Name(TypeName),
    /// by id of a type of the same library
    Id(SemId),
    Ext { lib: LibName, name: TypeName, lib_id: TypeLibId, id: SemId },
}

impl MTy {
    pub fn refs(&self) -> Vec<&MRef> {
        match self {
            MTy::Prim(_) | MTy::Char | MTy::Enum(_) => vec![],
            MTy::Union(v) => v.iter().map(|(_, r)| r).collect(),
            MTy::Tuple(v) => v.iter().collect(),
            MTy::Struct(v) => v.iter().map(|(_, r)| r).collect(),
            MTy::Array(r, _) | MTy::List(r, _) | MTy::Set(r, _) => vec![r],
            MTy::Map(k, v, _) => vec![k, v],
        }
    }
    pub fn map(&self, f: &mut dyn FnMut(&MRef) -> MRef) -> MTy {
        match self {
            MTy::Prim(_) | MTy::Char | MTy::Enum(_) => self.clone(),
            MTy::Union(v) => MTy::Union(v.iter().map(|(n, r)| (n.clone(), f(r))).collect()),
            MTy::Tuple(v) => MTy::Tuple(v.iter().map(|r| f(r)).collect()),
            MTy::Struct(v) => MTy::Struct(v.iter().map(|(n, r)| (n.clone(), f(r))).collect()),
            MTy::Array(r, n) => MTy::Array(Box::new(f(r)), *n),
            MTy::List(r, s) => MTy::List(Box::new(f(r)), *s),
            MTy::Set(r, s) => MTy::Set(Box::new(f(r)), *s),
            MTy::Map(k, v, s) => { let k = f(k); MTy::Map(Box::new(k), Box::new(f(v)), *s) }
        }
    }
    /// Replaces every non-inline reference, at any depth.
    pub fn deep(&self, f: &mut dyn FnMut(&MRef) -> MRef) -> MTy {
        self.map(&mut |r| match r { MRef::Inline(t) => MRef::Inline(Box::new(t.deep(f))), r => f(r) })
    }
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a MRef>) {
        for r in self.refs() { match r { MRef::Inline(t) => t.leaves(out), r => out.push(r) } }
    }
    pub fn depth(&self) -> usize { self.refs().into_iter().map(|r| if let MRef::Inline(t) = r { 1 + t.depth() } else { 0 }).max().unwrap_or(0) }
    /// The bytes a definition commits to.
    pub fn bytes(&self, o: &mut Vec<u8>) {
        let name = |o: &mut Vec<u8>, s: &str| { o.push(s.len() as u8); o.extend(s.as_bytes()) };
        let sz = |o: &mut Vec<u8>, s: &Sizing| { o.extend(s.min.to_le_bytes()); o.extend(s.max.to_le_bytes()) };
        let var = |o: &mut Vec<u8>, v: &Variant| { name(o, v.name.as_str()); o.push(v.tag) };
        match self {
            MTy::Prim(p) => { o.push(0); o.push(p.into_code()) }
            MTy::Char => o.push(1),
            MTy::Enum(v) => { o.push(3); let mut v = v.clone(); v.sort_by_key(|v| v.tag); for x in &v { var(o, x) } }
            MTy::Union(v) => { o.push(4); let mut v = v.clone(); v.sort_by_key(|v| v.0.tag); for (x, r) in &v { var(o, x); r.bytes(o) } }
            MTy::Struct(v) => { o.push(5); for (n, r) in v { name(o, n.as_str()); r.bytes(o) } }
            MTy::Tuple(v) => { o.push(6); for r in v { r.bytes(o) } }
            MTy::Array(r, n) => { o.push(7); r.bytes(o); o.extend(n.to_le_bytes()) }
            MTy::List(r, s) => { o.push(8); r.bytes(o); sz(o, s) }
            MTy::Set(r, s) => { o.push(9); r.bytes(o); sz(o, s) }
            MTy::Map(k, v, s) => { o.push(10); k.bytes(o); v.bytes(o); sz(o, s) }
        }
    }
    pub fn preimage(&self, name: Option<&TypeName>) -> Vec<u8> {
        let mut o = vec![];
        if let Some(n) = name { o.push(n.len() as u8); o.extend(n.as_str().as_bytes()) }
        self.bytes(&mut o);
        o
    }
    pub fn sem_id(&self, name: Option<&TypeName>) -> SemId { SemId::from(tagged(b"urn:ubideco:strict-types:typ:v01", &self.preimage(name))) }
    /// The definition with every reference replaced by the id it stands for.
    pub fn flat(&self) -> Ty<SemId> { build::<SemId>(&self.map(&mut |r| MRef::Id(r.id()))).unwrap() }
}
impl MRef {
    pub fn bytes(&self, o: &mut Vec<u8>) {
        match self {
            MRef::Inline(t) => t.bytes(o),
            MRef::Name(n) => { o.push(n.len() as u8); o.extend(n.as_str().as_bytes()) }
            MRef::Id(id) | MRef::Ext { id, .. } => o.extend(id_bytes(id)),
        }
    }
    pub fn id(&self) -> SemId {
        match self { MRef::Inline(t) => t.sem_id(None), MRef::Id(id) | MRef::Ext { id, .. } => *id, MRef::Name(n) => panic!("unresolved {n}") }
    }
}
pub fn id_bytes(id: &SemId) -> [u8; 32] { use amplify::ByteArray; id.to_byte_array() }
pub fn tagged(tag: &[u8], data: &[u8]) -> [u8; 32] {
    let t = Sha256::digest(tag);
    Sha256::new().chain_update(t).chain_update(t).chain_update(data).finalize().into()
}

/// Reference kinds a model definition can be expressed with.
pub trait FromM: TypeRef { fn from_m(r: &MRef) -> Option<Self>; }
impl FromM for SemId { fn from_m(r: &MRef) -> Option<Self> { if let MRef::Id(i) = r { Some(*i) } else { None } } }
impl FromM for InlineRef2 {
    fn from_m(r: &MRef) -> Option<Self> {
        match r { MRef::Id(i) => Some(InlineRef2::Named(*i)), MRef::Ext { lib_id, id, .. } => Some(InlineRef2::Extern(ExternRef::with(*lib_id, *id))), _ => None }
    }
}
impl FromM for InlineRef1 {
    fn from_m(r: &MRef) -> Option<Self> {
        match r { MRef::Inline(t) => build(t).map(InlineRef1::Inline), MRef::Id(i) => Some(InlineRef1::Named(*i)), MRef::Ext { lib_id, id, .. } => Some(InlineRef1::Extern(ExternRef::with(*lib_id, *id))), _ => None }
    }
}
impl FromM for InlineRef {
    fn from_m(r: &MRef) -> Option<Self> {
        match r { MRef::Inline(t) => build(t).map(InlineRef::Inline), MRef::Id(i) => Some(InlineRef::Named(*i)), MRef::Ext { lib_id, id, .. } => Some(InlineRef::Extern(ExternRef::with(*lib_id, *id))), _ => None }
    }
}
impl FromM for LibRef {
    fn from_m(r: &MRef) -> Option<Self> {
        match r { MRef::Inline(t) => build(t).map(LibRef::Inline), MRef::Id(i) => Some(LibRef::Named(*i)), MRef::Ext { lib_id, id, .. } => Some(LibRef::Extern(ExternRef::with(*lib_id, *id))), _ => None }
    }
}
impl FromM for TranspileRef {
    fn from_m(r: &MRef) -> Option<Self> {
        match r {
            MRef::Inline(t) => build(t).map(|t| TranspileRef::Embedded(Box::new(t))),
            MRef::Name(n) => Some(TranspileRef::Named(n.clone())),
            MRef::Ext { lib, name, lib_id, id } => Some(TranspileRef::Extern(SymbolRef::with(lib.clone(), name.clone(), *lib_id, *id))),
            MRef::Id(_) => None,
        }
    }
}
/// `None` when the definition is nested too deep for the reference kind.
pub fn build<R: FromM>(t: &MTy) -> Option<Ty<R>> {
    Some(match t {
        MTy::Prim(p) => Ty::Primitive(*p),
        MTy::Char => Ty::UnicodeChar,
        MTy::Enum(v) => Ty::Enum(gen::enum_of(v)),
        MTy::Union(v) => Ty::Union(UnionVariants::try_from(v.iter().map(|(n, r)| Some((n.clone(), R::from_m(r)?))).collect::<Option<BTreeMap<_, _>>>()?).unwrap()),
        MTy::Tuple(v) => Ty::Tuple(UnnamedFields::try_from(v.iter().map(R::from_m).collect::<Option<Vec<_>>>()?).unwrap()),
        MTy::Struct(v) => Ty::Struct(NamedFields::try_from(v.iter().map(|(n, r)| Some(Field { name: n.clone(), ty: R::from_m(r)? })).collect::<Option<Vec<_>>>()?).unwrap()),
        MTy::Array(r, n) => Ty::Array(R::from_m(r)?, *n),
        MTy::List(r, s) => Ty::List(R::from_m(r)?, *s),
        MTy::Set(r, s) => Ty::Set(R::from_m(r)?, *s),
        MTy::Map(k, v, s) => Ty::Map(R::from_m(k)?, R::from_m(v)?, *s),
    })
}

/// A random definition; `leaf` makes the references which are not inline.
pub fn mty(r: &mut Rng, depth: usize, inline: (u64, u64), leaf: &mut dyn FnMut(&mut Rng) -> Option<MRef>) -> MTy {
    let mut mref = |r: &mut Rng| -> MRef {
        if depth > 0 && r.chance(inline.0, inline.1) { return MRef::Inline(Box::new(mty(r, depth - 1, inline, leaf))) }
        match leaf(r) {
            Some(l) => l,
            None if depth > 0 => MRef::Inline(Box::new(match r.below(4) { 0 => MTy::Char, 1 => MTy::Enum(gen::variants(r, 2)), _ => MTy::Prim(gen::primitive(r)) })),
            None => MRef::Id(gen::semid(r)),
        }
    };
    match r.below(13) {
        0 => MTy::Prim(gen::primitive(r)),
        1 => MTy::Char,
        2 => { let n = r.range(1, 4) as usize; MTy::Enum(gen::variants(r, n)) }
        3 | 4 => { let n = r.range(1, 4) as usize; MTy::Union(gen::variants(r, n).into_iter().map(|v| { let x = mref(r); (v, x) }).collect()) }
        5 | 6 => { let n = r.range(1, 4) as usize; MTy::Tuple((0..n).map(|_| mref(r)).collect()) }
        7 | 8 => { let n = r.range(1, 4) as usize; MTy::Struct(gen::fnames(r, n).into_iter().map(|f| { let x = mref(r); (f, x) }).collect()) }
        9 => MTy::Array(Box::new(mref(r)), r.next() as u16),
        10 => MTy::List(Box::new(mref(r)), gen::sizing(r)),
        11 => MTy::Set(Box::new(mref(r)), gen::sizing(r)),
        _ => { let k = mref(r); MTy::Map(Box::new(k), Box::new(mref(r)), gen::sizing(r)) }
    }
}

/// A library in the model: definitions refer to each other by name.
#[derive(Clone, Debug)]
pub struct MLib {
    pub name: LibName,
    pub deps: Vec<Dependency>,
    pub ext: BTreeMap<LibName, BTreeMap<SemId, TypeName>>,
    pub types: BTreeMap<TypeName, MTy>,
}
impl MLib {
    /// Names replaced by the ids of the named definitions; `None` when some name is undefined or circular.
    pub fn resolve(&self) -> Option<BTreeMap<TypeName, MTy>> {
        let mut ids: BTreeMap<TypeName, SemId> = BTreeMap::new();
        let mut out: BTreeMap<TypeName, MTy> = BTreeMap::new();
        loop {
            let mut more = false;
            for (n, t) in &self.types {
                if out.contains_key(n) { continue }
                let mut l = vec![];
                t.leaves(&mut l);
                if l.iter().all(|r| if let MRef::Name(n) = r { ids.contains_key(n) } else { true }) {
                    let t = t.deep(&mut |r| if let MRef::Name(n) = r { MRef::Id(ids[n]) } else { r.clone() });
                    ids.insert(n.clone(), t.sem_id(Some(n)));
                    out.insert(n.clone(), t);
                    more = true;
                }
            }
            if out.len() == self.types.len() { return Some(out) }
            if !more { return None }
        }
    }
    pub fn symbolic(&self) -> SymbolicLib {
        // the fields of a symbolic library in the order of their strict encoding
        let types: NonEmptyOrdMap<TypeName, Ty<TranspileRef>> = NonEmptyOrdMap::try_from(self.types.iter().map(|(n, t)| (n.clone(), build(t).unwrap())).collect::<BTreeMap<_, _>>()).unwrap();
        let mut w = StrictWriter::in_memory::<{ u32::MAX as usize }>();
        w = self.name.strict_encode(w).unwrap();
        w = depset(&self.deps).strict_encode(w).unwrap();
        w = self.extern_types().strict_encode(w).unwrap();
        w = types.strict_encode(w).unwrap();
        let data = w.unbox().unconfine();
        let mut rd = StrictReader::in_memory::<{ u32::MAX as usize }>(data);
        SymbolicLib::strict_decode(&mut rd).expect("model of a symbolic library")
    }
    pub fn extern_types(&self) -> TinyOrdMap<LibName, SmallOrdMap<SemId, TypeName>> {
        TinyOrdMap::try_from(self.ext.iter().map(|(l, m)| (l.clone(), SmallOrdMap::try_from(m.clone()).unwrap())).collect::<BTreeMap<_, _>>()).unwrap()
    }
    /// The library made of the given definitions (all references by id).
    pub fn lib(&self, types: &BTreeMap<TypeName, MTy>) -> Option<TypeLib> {
        let types = types.iter().map(|(n, t)| Some((n.clone(), build::<LibRef>(t)?))).collect::<Option<BTreeMap<_, _>>>()?;
        Some(TypeLib { name: self.name.clone(), dependencies: depset(&self.deps), extern_types: self.extern_types(), types: NonEmptyOrdMap::<TypeName, Ty<LibRef>, { u16::MAX as usize }>::try_from(types).unwrap() })
    }
    pub fn lib_id(&self, types: &BTreeMap<TypeName, MTy>) -> TypeLibId {
        let mut o = vec![self.name.len() as u8];
        o.extend(self.name.as_str().as_bytes());
        let deps: BTreeSet<[u8; 32]> = self.deps.iter().map(|d| { use amplify::ByteArray; d.id.to_byte_array() }).collect();
        o.push(deps.len() as u8);
        for d in deps { o.extend(d) }
        o.extend((types.len() as u16).to_le_bytes());
        for (n, t) in types { o.extend(id_bytes(&t.sem_id(Some(n)))) }
        TypeLibId::from(tagged(b"urn:ubideco:strict-types:lib:v01", &o))
    }
}
pub fn depset(deps: &[Dependency]) -> TinyOrdSet<Dependency> { TinyOrdSet::try_from(deps.iter().cloned().collect::<BTreeSet<_>>()).unwrap() }
pub fn libid(r: &mut Rng) -> TypeLibId { TypeLibId::from(id_bytes(&gen::semid(r))) }

/// Names of types, mostly short, so that the order of names and the order of use disagree.
pub fn tnames(r: &mut Rng, n: usize) -> Vec<TypeName> {
    let mut s = BTreeSet::new();
    while s.len() < n { s.insert(if r.chance(2, 3) { TypeName::try_from(format!("T{}", r.below(3 * n as u64 + 3))).unwrap() } else { gen::tname(r) }); }
    let mut v: Vec<_> = s.into_iter().collect();
    r.shuffle(&mut v);
    v
}
/// A library of acyclic definitions which uses the types of the libraries `known` (name, id, types).
pub fn mlib(r: &mut Rng, name: LibName, known: &[(LibName, TypeLibId, Vec<(TypeName, SemId)>)], depth: usize) -> MLib {
    let n = match r.below(6) { 0 => 1, 1..=3 => r.range(1, 5), _ => r.range(2, 12) } as usize;
    let names = tnames(r, n);
    let mut l = MLib { name, deps: vec![], ext: BTreeMap::new(), types: BTreeMap::new() };
    let mut ext: Vec<(LibName, TypeLibId, TypeName, SemId)> = vec![];
    for i in 0..n {
        let done = &names[..i];
        let t = mty(r, depth, (1, 3), &mut |r| {
            let k = r.below(4);
            if k == 0 && !known.is_empty() {
                let (lib, lid, tys) = r.pick(known);
                if !tys.is_empty() {
                    let (tn, id) = r.pick(tys);
                    ext.push((lib.clone(), *lid, tn.clone(), *id));
                    return Some(MRef::Ext { lib: lib.clone(), name: tn.clone(), lib_id: *lid, id: *id });
                }
            }
            if done.is_empty() || k == 1 { return None }
            Some(MRef::Name(r.pick(done).clone()))
        });
        // a leaf deeper than inlining goes cannot be a random id in a library made of names
        let t = t.deep(&mut |x| if let MRef::Id(_) = x { done.first().map(|n| MRef::Name(n.clone())).unwrap_or(MRef::Inline(Box::new(MTy::Prim(Primitive::U8)))) } else { x.clone() });
        l.types.insert(names[i].clone(), t);
    }
    for (lib, lid, tn, id) in ext {
        l.deps.push(Dependency::with(lid, lib.clone()));
        l.ext.entry(lib).or_default().insert(id, tn);
    }
    l
}
/// Several libraries, later ones using earlier ones; with their resolved definitions.
pub fn universe(r: &mut Rng, max: u64) -> Vec<(MLib, BTreeMap<TypeName, MTy>)> {
    let n = r.range(1, max) as usize;
    let mut names = BTreeSet::new();
    while names.len() < n { names.insert(if r.chance(1, 2) { LibName::try_from(format!("Lib{}", r.below(9))).unwrap() } else { gen::lname(r) }); }
    let mut names: Vec<_> = names.into_iter().collect();
    r.shuffle(&mut names);
    let mut out: Vec<(MLib, BTreeMap<TypeName, MTy>)> = vec![];
    let mut known = vec![];
    for name in names {
        let l = mlib(r, name, &known, 3);
        let t = l.resolve().expect("acyclic");
        // inlining one step further than the libraries support is replaced by the id of what is inlined
        let t: BTreeMap<_, _> = t;
        if build_ok(&t) {
            known.push((l.name.clone(), l.lib_id(&t), t.iter().map(|(n, t)| (n.clone(), t.sem_id(Some(n)))).collect()));
            out.push((l, t));
        }
    }
    out
}
pub fn build_ok(t: &BTreeMap<TypeName, MTy>) -> bool { t.values().all(|t| t.depth() <= 3) }
