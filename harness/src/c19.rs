//! C19: the binary form of union definitions against an independent codec.
use std::collections::BTreeMap;

use strict_encoding::{StrictDecode, StrictEncode, StrictReader, StrictWriter, Variant, VariantName};
use strict_types::ast::UnionVariants;
use strict_types::{SemId, Ty};

use crate::model::id_bytes;
use crate::rng::Rng;
use crate::{cover, ensure, gen, input, no_panic, Res};

type Entry = (u8, String, SemId);
fn bytes(v: &[Entry]) -> Vec<u8> {
    let mut o = vec![v.len() as u8];
    for (tag, name, id) in v {
        o.push(*tag);
        o.push(name.len() as u8);
        o.extend(name.as_bytes());
        o.extend(id_bytes(id));
    }
    o
}
/// What the bytes list, if they list anything: 1 to 255 variants by ascending tag with different names.
fn parse(b: &[u8]) -> Result<(Vec<Entry>, usize), &'static str> {
    let mut at = 1;
    let n = *b.first().ok_or("end")? as usize;
    let mut v: Vec<Entry> = vec![];
    for _ in 0..n {
        let tag = *b.get(at).ok_or("end")?;
        let len = *b.get(at + 1).ok_or("end")? as usize;
        let name = b.get(at + 2..at + 2 + len).ok_or("end")?;
        at += 2 + len;
        if len == 0 || len > 100 || !(name[0].is_ascii_lowercase() || name[0] == b'_') || !name.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { return Err("name") }
        let name = String::from_utf8(name.to_vec()).unwrap();
        let id: [u8; 32] = b.get(at..at + 32).ok_or("end")?.try_into().unwrap();
        at += 32;
        if v.last().is_some_and(|l| l.0 >= tag) { return Err("order") }
        v.push((tag, name, SemId::from(id)));
    }
    if v.is_empty() { return Err("empty") }
    for i in 0..v.len() { for j in 0..i { if v[i].1 == v[j].1 { return Err("repeated name") } } }
    Ok((v, at))
}
fn list(u: &UnionVariants<SemId>) -> Vec<Entry> { u.iter().map(|(v, t)| (v.tag, v.name.as_str().to_string(), *t)).collect() }
fn enc(u: &UnionVariants<SemId>) -> Vec<u8> { u.strict_encode(StrictWriter::in_memory::<{ u32::MAX as usize }>()).unwrap().unbox().unconfine() }
fn hex(b: &[u8]) -> String { b.iter().take(1500).map(|x| format!("{x:02x}")).collect() }

pub fn run(r: &mut Rng, case: u64) -> Res {
    let big = case % 4 == 0;
    let n = gen::count(r, big);
    let mut v: Vec<Entry> = gen::variants(r, n).into_iter().map(|v| (v.tag, v.name.as_str().to_string(), gen::semid(r))).collect();
    v.sort_by_key(|e| e.0);
    if r.chance(1, 2) {
        // encoding and decoding
        input(format!("union {v:?}"));
        let map: BTreeMap<Variant, SemId> = v.iter().map(|(tag, name, id)| (Variant { name: VariantName::try_from(name.clone()).unwrap(), tag: *tag }, *id)).collect();
        let u = UnionVariants::try_from(map).unwrap();
        let b = no_panic("encode", || enc(&u))?;
        ensure!(b == bytes(&v), "encoding", "encoded to {} and not to {}", hex(&b), hex(&bytes(&v)));
        let mut rd = StrictReader::in_memory::<{ u32::MAX as usize }>(b.clone());
        let d = no_panic("decode", || UnionVariants::<SemId>::strict_decode(&mut rd))?;
        match d {
            Ok(d) => ensure!(d == u && list(&d) == v, "round trip", "decoded to {:?}", list(&d)),
            Err(e) => crate::fail!("round trip", "{e}"),
        }
        // inside a type definition
        let t = Ty::Union(u);
        let tb = t.strict_encode(StrictWriter::in_memory::<{ u32::MAX as usize }>()).unwrap().unbox().unconfine();
        ensure!(tb.get(1..) == Some(&b[..]), "in type", "type encoded to {}", hex(&tb));
        let mut rd = StrictReader::in_memory::<{ u32::MAX as usize }>(tb);
        let d = Ty::<SemId>::strict_decode(&mut rd);
        ensure!(d.as_ref().ok() == Some(&t), "in type", "decoded to {d:?}");
        cover(format!("round trip, {} variants", if n == 1 { "1" } else if n < 12 { "2..11" } else { "12..255" }));
        return Ok(());
    }
    // altered bytes
    let mut b = bytes(&v);
    let kind = r.below(8);
    match kind {
        0 | 1 => if n > 1 {
            // one name twice
            let i = r.us(n);
            let j = (i + 1 + r.us(n - 1)) % n;
            v[i].1 = v[j].1.clone();
            if r.chance(1, 3) { let k = r.us(n); v[k].1 = v[j].1.clone(); }
            b = bytes(&v);
        },
        2 => { r.shuffle(&mut v); b = bytes(&v) }
        3 => { let i = r.us(n); v[i].0 = r.byte(); b = bytes(&v) }
        4 => { let i = r.us(b.len()); b[i] = r.byte() }
        5 => { let i = r.us(b.len() + 1); b.truncate(i) }
        6 => { b[0] = b[0].wrapping_add(if r.chance(1, 2) { 1 } else { 255 }) }
        _ => { let m = r.us(60); b = (0..m).map(|_| if r.chance(1, 3) { r.byte() } else { r.below(4) as u8 }).collect() }
    }
    if r.chance(1, 3) { for _ in 0..r.below(6) { b.push(r.byte()) } }
    input(format!("bytes {}", hex(&b)));
    let want = parse(&b);
    let mut rd = StrictReader::in_memory::<{ u32::MAX as usize }>(b.clone());
    let got = no_panic("decode", || UnionVariants::<SemId>::strict_decode(&mut rd))?;
    match (&want, &got) {
        (Ok((v, at)), Ok(u)) => {
            ensure!(list(u) == *v, "decoding", "decoded to {:?} and not to {v:?}", list(u));
            ensure!(enc(u) == b[..*at], "canonical", "encodes to {}", hex(&enc(u)));
            cover("decoded");
        }
        (Ok(_), Err(e)) => crate::fail!("refused", "refused: {e}"),
        (Err(w), Ok(u)) => crate::fail!(format!("accepted {w}"), "{w}: bytes decoded to {:?}", list(u)),
        (Err(w), Err(_)) => cover(format!("refused: {w}")),
    }
    Ok(())
}
