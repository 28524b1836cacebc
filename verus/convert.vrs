// ---------------------------------------------------------------------------------------------
// C20: conversions from JSON, YAML and TOML (src/value/convert.rs, constructors of src/value/val.rs)
// ---------------------------------------------------------------------------------------------
/// serde_json / serde_yaml numbers: an unsigned or a negative integer, or something else.
pub trait IntNumber: Sized {
    spec fn uint(&self) -> Option<u64>;
    spec fn int(&self) -> Option<i64>;
}
macro_rules! number_standin { ($t:ident) => { verus! {
    #[verifier::external_body] pub struct $t { v: u64 }
    impl IntNumber for $t { uninterp spec fn uint(&self) -> Option<u64>; uninterp spec fn int(&self) -> Option<i64>; }
    impl $t {
        #[verifier::external_body] pub fn is_u64(&self) -> (r: bool) ensures r == self.uint() is Some { unimplemented!() }
        #[verifier::external_body] pub fn is_i64(&self) -> (r: bool) ensures r == self.int() is Some { unimplemented!() }
        #[verifier::external_body] pub fn is_f64(&self) -> (r: bool) ensures r ==> self.uint() is None && self.int() is None { unimplemented!() }
        #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == self.uint() { unimplemented!() }
        #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == self.int() { unimplemented!() }
    }
} } }
number_standin!(JsonNumber);
number_standin!(YamlNumber);
/// A number that is both unsigned and signed has one value.
pub broadcast axiom fn json_number_one(n: JsonNumber) ensures (#[trigger] n.uint() is Some && n.int() is Some) ==> n.uint()->Some_0 == n.int()->Some_0;
pub open spec fn num_is<N: IntNumber>(n: N, r: StrictVal) -> bool {
    if n.uint() is Some { r == StrictVal::Number(StrictNum::Uint(n.uint()->Some_0)) }
    else if n.int() is Some { r == StrictVal::Number(StrictNum::Int(n.int()->Some_0)) }
    else { false }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Entries<K, V> { v: Vec<(K, V)> }
impl<K, V> Entries<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: VIter<(K, V)>) ensures r.fresh(self@) { unimplemented!() }
}
pub broadcast axiom fn entries_smaller<K, V>(m: &Entries<K, V>, i: int) requires 0 <= i < m@.len() ensures #[trigger] (decreases_to!(*m => m@[i]));
pub mod serde_json { use super::*; verus! {
    pub enum Value { Null, Bool(bool), Number(JsonNumber), String(String), Array(Vec<Value>), Object(Entries<String, Value>) }
} }
pub mod serde_yaml { use super::*; verus! {
    pub struct TaggedValue { pub value: Value }
    pub enum Value { Null, Bool(bool), Number(YamlNumber), String(String), Sequence(Vec<Value>), Mapping(Entries<Value, Value>), Tagged(Box<TaggedValue>) }
} }
pub mod toml { use super::*; verus! {
    #[verifier::external_body] pub struct Datetime { v: u64 }
    #[verifier::external_body] pub struct Float { v: u64 }
    pub enum Value { String(String), Integer(i64), Float(Float), Boolean(bool), Datetime(Datetime), Array(Vec<Value>), Table(Entries<String, Value>) }
} }
pub open spec fn bool_is(b: bool, r: StrictVal) -> bool { r == StrictVal::Enum(EnumTag::Ord(if b { 1u8 } else { 0u8 })) }
pub open spec fn string_is(s: String, r: StrictVal) -> bool { r == StrictVal::String(s) }
/// `r` is the JSON value `v` with all its data.
pub open spec fn json_is(v: serde_json::Value, r: StrictVal) -> bool
    decreases v via json_is_dec
{
    match v {
        serde_json::Value::Null => r is Unit,
        serde_json::Value::Bool(b) => bool_is(b, r),
        serde_json::Value::Number(n) => num_is(n, r),
        serde_json::Value::String(s) => string_is(s, r),
        serde_json::Value::Array(a) => match r { StrictVal::List(l) => l@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> json_is(a@[i], #[trigger] l@[i]), _ => false },
        serde_json::Value::Object(m) => match r { StrictVal::Map(l) => l@.len() == m@.len() && forall|i: int| 0 <= i < m@.len() ==> string_is(m@[i].0, (#[trigger] l@[i]).0) && json_is(m@[i].1, l@[i].1), _ => false },
    }
}
#[via_fn]
proof fn json_is_dec(v: serde_json::Value, r: StrictVal) {
    broadcast use entries_smaller;
    match v { serde_json::Value::Object(m) => { assert forall|i: int| 0 <= i < m@.len() implies (decreases_to!(v => #[trigger] m@[i].1)) by { assert(decreases_to!(m => m@[i])); } }, _ => {} }
}
pub open spec fn yaml_is(v: serde_yaml::Value, r: StrictVal) -> bool
    decreases v via yaml_is_dec
{
    match v {
        serde_yaml::Value::Null => r is Unit,
        serde_yaml::Value::Bool(b) => bool_is(b, r),
        serde_yaml::Value::Number(n) => num_is(n, r),
        serde_yaml::Value::String(s) => string_is(s, r),
        serde_yaml::Value::Sequence(a) => match r { StrictVal::List(l) => l@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> yaml_is(a@[i], #[trigger] l@[i]), _ => false },
        serde_yaml::Value::Mapping(m) => match r { StrictVal::Map(l) => l@.len() == m@.len() && forall|i: int| 0 <= i < m@.len() ==> yaml_is(m@[i].0, (#[trigger] l@[i]).0) && yaml_is(m@[i].1, l@[i].1), _ => false },
        serde_yaml::Value::Tagged(t) => yaml_is(t.value, r),
    }
}
#[via_fn]
proof fn yaml_is_dec(v: serde_yaml::Value, r: StrictVal) {
    broadcast use entries_smaller;
    match v { serde_yaml::Value::Mapping(m) => { assert forall|i: int| 0 <= i < m@.len() implies (decreases_to!(v => #[trigger] m@[i].1)) && (decreases_to!(v => m@[i].0)) by { assert(decreases_to!(m => m@[i])); } }, _ => {} }
}
pub open spec fn toml_is(v: toml::Value, r: StrictVal) -> bool
    decreases v via toml_is_dec
{
    match v {
        toml::Value::Boolean(b) => bool_is(b, r),
        toml::Value::Integer(n) => r == StrictVal::Number(StrictNum::Int(n)),
        toml::Value::Float(_) | toml::Value::Datetime(_) => false,
        toml::Value::String(s) => string_is(s, r),
        toml::Value::Array(a) => match r { StrictVal::List(l) => l@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> toml_is(a@[i], #[trigger] l@[i]), _ => false },
        toml::Value::Table(m) => match r { StrictVal::Map(l) => l@.len() == m@.len() && forall|i: int| 0 <= i < m@.len() ==> string_is(m@[i].0, (#[trigger] l@[i]).0) && toml_is(m@[i].1, l@[i].1), _ => false },
    }
}
#[via_fn]
proof fn toml_is_dec(v: toml::Value, r: StrictVal) {
    broadcast use entries_smaller;
    match v { toml::Value::Table(m) => { assert forall|i: int| 0 <= i < m@.len() implies (decreases_to!(v => #[trigger] m@[i].1)) by { assert(decreases_to!(m => m@[i])); } }, _ => {} }
}
pub open spec fn not_int_json(v: serde_json::Value) -> bool { match v { serde_json::Value::Number(n) => n.uint() is None && n.int() is None, _ => false } }
pub open spec fn not_int_yaml(v: serde_yaml::Value) -> bool { match v { serde_yaml::Value::Number(n) => n.uint() is None && n.int() is None, _ => false } }
pub open spec fn not_int_toml(v: toml::Value) -> bool { match v { toml::Value::Float(_) | toml::Value::Datetime(_) => true, _ => false } }
pub open spec fn list_seq(v: StrictVal) -> Seq<StrictVal> { match v { StrictVal::List(l) => l@, _ => seq![] } }
/// `Into<StrictVal>`: what the conversion of an item yields.
pub trait IntoSV: Sized { spec fn sv(self, r: StrictVal) -> bool; fn into_sv(self) -> (r: StrictVal) ensures self.sv(r); }
impl IntoSV for StrictVal { open spec fn sv(self, r: StrictVal) -> bool { r == self } fn into_sv(self) -> StrictVal { self } }
// derived `From<String>`
impl IntoSV for String { open spec fn sv(self, r: StrictVal) -> bool { string_is(self, r) } fn into_sv(self) -> StrictVal { StrictVal::String(self) } }
impl IntoSV for serde_yaml::Value { open spec fn sv(self, r: StrictVal) -> bool { yaml_is(self, r) } fn into_sv(self) -> StrictVal { StrictVal::from_yaml_nested(self) } }
/// `Into<StrictNum>` (derived)
pub trait IntoNum: Sized { spec fn sn(self) -> StrictNum; fn into_sn(self) -> (r: StrictNum) ensures r == self.sn(); }
impl IntoNum for u64 { open spec fn sn(self) -> StrictNum { StrictNum::Uint(self) } fn into_sn(self) -> StrictNum { StrictNum::Uint(self) } }
impl IntoNum for i64 { open spec fn sn(self) -> StrictNum { StrictNum::Int(self) } fn into_sn(self) -> StrictNum { StrictNum::Int(self) } }
/// `Into<EnumTag>` (derived)
pub trait IntoTag: Sized { spec fn tg(self) -> EnumTag; fn into_tg(self) -> (r: EnumTag) ensures r == self.tg(); }
impl IntoTag for u8 { open spec fn tg(self) -> EnumTag { EnumTag::Ord(self) } fn into_tg(self) -> EnumTag { EnumTag::Ord(self) } }
impl StrictVal {
//@fn src/value/val.rs StrictVal::num
//@ sig fn num(n: impl Into<StrictNum>) -> Self ==> pub fn num<N: IntoNum>(n: N) -> (r: StrictVal)
//@ subst n.into() ==> n.into_sn()
//@ spec ensures r == StrictVal::Number(n.sn())
//@end
//@fn src/value/val.rs StrictVal::enumer
//@ sig fn enumer(tag: impl Into<EnumTag>) -> Self ==> pub fn enumer<N: IntoTag>(tag: N) -> (r: StrictVal)
//@ subst tag.into() ==> tag.into_tg()
//@ spec ensures r == StrictVal::Enum(tag.tg())
//@end
//@fn src/value/val.rs StrictVal::bool
//@ ret r
//@ spec ensures bool_is(v, r)
//@end
//@fn src/value/val.rs StrictVal::list
//@ sig fn list(items: impl IntoIterator<Item = impl Into<StrictVal>>) -> Self ==> pub fn list(items: VIter<StrictVal>) -> (r: StrictVal)
//@ subst v.into() ==> v
//@ veciter
//@ subst items.into_iter() ==> items
//@ spec ensures r is List, (r->List_0)@ == items.rem()
//@ at end
 proof { assert(list_seq(__ret) =~= items.rem()); }
//@end
//@fn src/value/val.rs StrictVal::map
//@ sig fn map(items: impl IntoIterator<Item = (impl Into<StrictVal>, impl Into<StrictVal>)>,) -> Self ==> pub fn map<K: IntoSV, V: IntoSV>(items: VIter<(K, V)>) -> (r: StrictVal)
//@ subst ?n.into() ==> n.into_sv()
//@ subst ?v.into() ==> v.into_sv()
//@ subst items.into_iter() ==> items
//@ closure 1 -> (__r: (StrictVal, StrictVal)) ensures __a0.0.sv(__r.0) && __a0.1.sv(__r.1)
//@ spec ensures r is Map, (r->Map_0)@.len() == items.rem().len(),
//@ spec forall|i: int| #![trigger (r->Map_0)@[i]] 0 <= i < items.rem().len() ==> items.rem()[i].0.sv((r->Map_0)@[i].0) && items.rem()[i].1.sv((r->Map_0)@[i].1)
//@end
// Nested values: the conversions are called recursively, against their own contracts.
#[verifier::external_body] pub fn from_json_nested(v: serde_json::Value) -> (r: StrictVal) ensures json_is(v, r) { unimplemented!() }
#[verifier::external_body] pub fn from_yaml_nested(v: serde_yaml::Value) -> (r: StrictVal) ensures yaml_is(v, r) { unimplemented!() }
#[verifier::external_body] pub fn from_toml_nested(v: toml::Value) -> (r: StrictVal) ensures toml_is(v, r) { unimplemented!() }
//@fn src/value/convert.rs <StrictVal as From<serde_json::Value>>::from
//@ sig fn from(json: serde_json::Value) -> Self ==> pub fn from_json(json: serde_json::Value) -> (r: StrictVal)
//@ subst StrictVal::from ==> StrictVal::from_json_nested
//@ veciter
//@ at start
 let ghost __no = not_int_json(json);
//@ refuse __no
//@ closure 1 -> (__r: (String, StrictVal)) ensures __r.0 == __a0.0 && json_is(__a0.1, __r.1)
//@ spec ensures json_is(json, r)
//@end
//@fn src/value/convert.rs <StrictVal as From<serde_yaml::Value>>::from
//@ sig fn from(yaml: serde_yaml::Value) -> Self ==> pub fn from_yaml(yaml: serde_yaml::Value) -> (r: StrictVal)
//@ subst StrictVal::from ==> StrictVal::from_yaml_nested
//@ veciter
//@ at start
 let ghost __no = not_int_yaml(yaml);
//@ refuse __no
//@ closure 1 -> (__r: (serde_yaml::Value, StrictVal)) ensures __r.0 == __a0.0 && yaml_is(__a0.1, __r.1)
//@ spec ensures yaml_is(yaml, r)
//@end
//@fn src/value/convert.rs <StrictVal as From<toml::Value>>::from
//@ sig fn from(toml: toml::Value) -> Self ==> pub fn from_toml(toml: toml::Value) -> (r: StrictVal)
//@ subst StrictVal::from ==> StrictVal::from_toml_nested
//@ veciter
//@ at start
 let ghost __no = not_int_toml(toml);
//@ refuse __no
//@ closure 1 -> (__r: (String, StrictVal)) ensures __r.0 == __a0.0 && toml_is(__a0.1, __r.1)
//@ spec ensures toml_is(toml, r)
//@end
}
