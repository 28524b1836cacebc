//! C20: conversions from JSON, YAML and TOML.
use strict_types::value::{EnumTag, StrictNum};
use strict_types::StrictVal;

use crate::rng::Rng;
use crate::{cover, ensure, fail, input, Res};

/// The data, independent of the format.
#[derive(Clone, Debug)]
enum Doc { Null, Bool(bool), U(u64), I(i64), Str(String), Seq(Vec<Doc>), Obj(Vec<(Doc, Doc)>), Tag(Box<Doc>) }

fn text(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => 0, 1 => r.range(1, 40), _ => r.range(1, 4) };
    (0..n).map(|_| match r.below(12) { 0 => 'é', 1 => '"', 2 => '\\', 3 => '\u{1F600}', 4 => '\0', 5 => '\n', _ => *r.pick(&['a', 'b', 'Z', '0', ' ', '1']) }).collect()
}
fn int(r: &mut Rng) -> Doc {
    match r.below(5) {
        0 => Doc::U(r.below(3)),
        1 => Doc::U(r.edgy()),
        2 => Doc::I(-(r.below(300) as i64) - 1),
        3 => Doc::I(i64::MIN + (r.edgy() >> 1) as i64),
        _ => Doc::U(*r.pick(&[i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, u32::MAX as u64 + 1, 255, 256, 1 << 53, (1 << 53) + 1])),
    }
}
fn doc(r: &mut Rng, depth: u32, fmt: u32) -> Doc {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        0 if fmt != 2 => Doc::Null,
        0 | 1 => Doc::Bool(r.chance(1, 2)),
        2 | 3 => match int(r) { Doc::U(u) if fmt == 2 => Doc::I(u as i64), Doc::I(i) if fmt != 2 && i >= 0 => Doc::U(i as u64), d => d },
        4 | 5 => Doc::Str(text(r)),
        6 | 7 => { let n = r.below(5); let d = r.below(depth as u64) as u32; Doc::Seq((0..n).map(|_| doc(r, d, fmt)).collect()) }
        8 if fmt == 1 => Doc::Tag(Box::new(doc(r, depth - 1, fmt))),
        _ => {
            let n = r.below(5);
            let d = r.below(depth as u64) as u32;
            let mut m: Vec<(Doc, Doc)> = vec![];
            for _ in 0..n {
                let k = if fmt == 1 && r.chance(1, 2) { doc(r, 0, fmt) } else { Doc::Str(text(r)) };
                let key = format!("{k:?}");
                if m.iter().all(|(x, _)| format!("{x:?}") != key) { m.push((k, doc(r, d, fmt))) }
            }
            Doc::Obj(m)
        }
    }
}
fn json(d: &Doc) -> serde_json::Value {
    use serde_json::Value as V;
    match d {
        Doc::Null => V::Null, Doc::Bool(b) => V::Bool(*b), Doc::U(u) => V::from(*u), Doc::I(i) => V::from(*i), Doc::Str(s) => V::String(s.clone()),
        Doc::Seq(s) => V::Array(s.iter().map(json).collect()),
        Doc::Obj(m) => V::Object(m.iter().map(|(k, v)| (match k { Doc::Str(s) => s.clone(), _ => unreachable!() }, json(v))).collect()),
        Doc::Tag(_) => unreachable!(),
    }
}
fn yaml(d: &Doc) -> serde_yaml::Value {
    use serde_yaml::Value as V;
    match d {
        Doc::Null => V::Null, Doc::Bool(b) => V::Bool(*b), Doc::U(u) => V::from(*u), Doc::I(i) => V::from(*i), Doc::Str(s) => V::String(s.clone()),
        Doc::Seq(s) => V::Sequence(s.iter().map(yaml).collect()),
        Doc::Obj(m) => V::Mapping(m.iter().map(|(k, v)| (yaml(k), yaml(v))).collect()),
        Doc::Tag(t) => V::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("some"), value: yaml(t) })),
    }
}
fn toml_(d: &Doc) -> toml::Value {
    use toml::Value as V;
    match d {
        Doc::Bool(b) => V::Boolean(*b), Doc::I(i) => V::Integer(*i), Doc::Str(s) => V::String(s.clone()),
        Doc::Seq(s) => V::Array(s.iter().map(toml_).collect()),
        Doc::Obj(m) => V::Table(m.iter().map(|(k, v)| (match k { Doc::Str(s) => s.clone(), _ => unreachable!() }, toml_(v))).collect()),
        _ => unreachable!(),
    }
}
fn is(d: &Doc, v: &StrictVal) -> Result<(), String> {
    let bad = || Err(format!("{d:?} became {v:?}"));
    match (d, v) {
        (Doc::Null, StrictVal::Unit) => Ok(()),
        (Doc::Bool(b), StrictVal::Enum(EnumTag::Ord(t))) if *t == *b as u8 => Ok(()),
        (Doc::U(u), StrictVal::Number(StrictNum::Uint(n))) if n == u => Ok(()),
        (Doc::I(i), StrictVal::Number(StrictNum::Int(n))) if n == i => Ok(()),
        (Doc::Str(a), StrictVal::String(b)) if a == b => Ok(()),
        (Doc::Seq(a), StrictVal::List(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(x, y)| is(x, y)),
        (Doc::Obj(a), StrictVal::Map(b)) if a.len() == b.len() => {
            for (k, x) in a {
                // keys of an object are distinct, so exactly one entry has to carry it
                let hits: Vec<_> = b.iter().filter(|(bk, _)| is(k, bk).is_ok()).collect();
                if hits.len() != 1 { return bad() }
                is(x, &hits[0].1)?;
            }
            Ok(())
        }
        (Doc::Tag(t), v) => is(t, v),
        _ => bad(),
    }
}
pub fn run(r: &mut Rng, _case: u64) -> Res {
    for (fmt, name) in [(0u32, "json"), (1, "yaml"), (2, "toml")] {
        let depth = r.below(5) as u32;
        let d = doc(r, depth, fmt);
        input(format!("{name} {d:?}"));
        cover(format!("{name} {}", match &d { Doc::Null => "null", Doc::Bool(_) => "bool", Doc::U(_) => "unsigned", Doc::I(_) => "signed", Doc::Str(_) => "string", Doc::Seq(_) => "sequence", Doc::Obj(_) => "object", Doc::Tag(_) => "tagged" }));
        let v = match fmt { 0 => StrictVal::from(json(&d)), 1 => StrictVal::from(yaml(&d)), _ => StrictVal::from(toml_(&d)) };
        if let Err(e) = is(&d, &v) { fail!(name, "{name}: {e}") }
        // the same from text
        if fmt == 0 {
            let parsed: serde_json::Value = serde_json::from_str(&json(&d).to_string()).unwrap();
            let v2 = StrictVal::from(parsed);
            ensure!(v2 == v, "json-text", "from text {v2:?}, from value {v:?}");
        }
    }
    Ok(())
}
