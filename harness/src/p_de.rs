//! What is deserialised is what the document holds.
use crate::sym::*;
use kdl::*;
use serde::Deserialize;
use serde::de::DeserializeOwned;
use std::collections::BTreeMap;

/// What the documented mapping says about reading some part of a document.
pub enum W<T> {
    /// this value
    Must(T),
    /// this value or an error
    May(T),
    /// an error
    Err,
    /// nothing
    Free,
}
use W::*;
impl<T> W<T> {
    fn map<U>(self, f: impl FnOnce(T) -> U) -> W<U> { match self { Must(x) => Must(f(x)), May(x) => May(f(x)), Err => Err, Free => Free } }
    fn may(self) -> W<T> { match self { Must(x) => May(x), x => x } }
    fn and<U>(self, o: W<U>) -> W<(T, U)> {
        match (self, o) { (Err, _) | (_, Err) => Err, (Free, _) | (_, Free) => Free, (Must(a), Must(b)) => Must((a, b)), (Must(a) | May(a), Must(b) | May(b)) => May((a, b)) }
    }
}
fn all<T>(it: impl Iterator<Item = W<T>>) -> W<Vec<T>> { it.fold(Must(vec![]), |a, x| a.and(x).map(|(mut v, x)| { v.push(x); v })) }
fn opt<T>(r: Option<T>) -> W<T> { match r { Some(x) => Must(x), None => Err } }

fn args(n: &KdlNode) -> Vec<&KdlEntry> { n.entries().iter().filter(|e| e.name().is_none()).collect() }
fn props(n: &KdlNode) -> Vec<(&str, &KdlEntry)> { n.entries().iter().filter_map(|e| e.name().map(|k| (k.value(), e))).collect() }
fn kids(n: &KdlNode) -> &[KdlNode] { match n.children() { Some(d) => d.nodes(), None => &[] } }
fn lone(n: &KdlNode) -> Option<&KdlEntry> { if n.entries().len() == 1 && n.children().is_none() { n.entries().iter().find(|e| e.name().is_none()) } else { None } }
fn empty(n: &KdlNode) -> bool { n.entries().is_empty() && n.children().is_none() }

pub trait Read: Sized + DeserializeOwned + PartialEq {
    fn entry(e: &KdlEntry) -> W<Self>;
    fn node(n: &KdlNode) -> W<Self> { match lone(n) { Some(e) => Self::entry(e), None => Err } }
    fn group(_: &[&KdlNode]) -> W<Self> { Err }
    /// a field of a struct without anything to read it from
    fn none() -> W<Self> { Err }
    /// the same for a child or property of a nested struct
    fn omitted() -> W<Self> { Self::none() }
    fn nodes(ns: &[&KdlNode]) -> W<Self> { match ns { [] => Self::none(), [n] => Self::node(n), ns => Self::group(ns) } }
}
macro_rules! ints { ($($t:ident)*) => { $(impl Read for $t { fn entry(e: &KdlEntry) -> W<Self> { match e.value() { KdlValue::Integer(i) if *i >= $t::MIN as i128 && *i <= $t::MAX as i128 => Must(*i as $t), _ => Err } } })* } }
ints!(i8 u8 i16 u32 i64 u64);
impl Read for f64 {
    fn entry(e: &KdlEntry) -> W<Self> {
        match e.value() {
            KdlValue::Float(f) => Must(*f),
            // a double holds these exactly, serde itself rounds others
            KdlValue::Integer(i) if i.unsigned_abs() <= 1 << 53 => Must(*i as f64),
            KdlValue::Integer(i) => May(*i as f64),
            _ => Err,
        }
    }
}
impl Read for f32 { fn entry(e: &KdlEntry) -> W<Self> { match e.value() { KdlValue::Float(f) => Must(*f as f32), KdlValue::Integer(i) if i.unsigned_abs() <= 1 << 24 => Must(*i as f32), KdlValue::Integer(i) => May(*i as f32), _ => Err } } }
impl Read for bool {
    fn entry(e: &KdlEntry) -> W<Self> { opt(e.value().as_bool()) }
    fn node(n: &KdlNode) -> W<Self> { if empty(n) { return Must(true) } match lone(n) { Some(e) => Self::entry(e), None => Err } }
    fn omitted() -> W<Self> { Must(false) }
}
impl Read for String { fn entry(e: &KdlEntry) -> W<Self> { opt(e.value().as_string().map(str::to_string)) } }
impl Read for char { fn entry(e: &KdlEntry) -> W<Self> { opt(e.value().as_string().and_then(|s| { let mut it = s.chars(); let c = it.next()?; if it.next().is_some() { None } else { Some(c) } })) } }
impl Read for () {
    fn entry(e: &KdlEntry) -> W<Self> { if e.value() == &KdlValue::Null { Must(()) } else { Err } }
    fn node(n: &KdlNode) -> W<Self> { match lone(n) { Some(e) if e.value() == &KdlValue::Null => Must(()), _ => Free } }
    fn omitted() -> W<Self> { Free }
}
impl<T: Read> Read for Option<T> {
    fn entry(e: &KdlEntry) -> W<Self> { if e.value() == &KdlValue::Null { Must(None) } else { T::entry(e).map(Some) } }
    fn node(n: &KdlNode) -> W<Self> { if empty(n) { return Must(None) } match lone(n) { Some(e) if e.value() == &KdlValue::Null => Must(None), _ => T::node(n).map(Some) } }
    fn group(ns: &[&KdlNode]) -> W<Self> { T::group(ns).map(Some) }
    fn none() -> W<Self> { Must(None) }
}
impl<T: Read> Read for Vec<T> {
    fn entry(_: &KdlEntry) -> W<Self> { Err }
    fn node(n: &KdlNode) -> W<Self> {
        let (a, p) = (args(n), props(n));
        match n.children() {
            None if p.is_empty() => all(a.into_iter().map(T::entry)),
            Some(_) if a.is_empty() && p.is_empty() => all(kids(n).iter().map(T::node)).may(),
            _ => Free,
        }
    }
    fn group(ns: &[&KdlNode]) -> W<Self> { all(ns.iter().map(|n| T::node(n))) }
}
impl<A: Read, B: Read> Read for (A, B) {
    fn entry(_: &KdlEntry) -> W<Self> { Err }
    fn node(n: &KdlNode) -> W<Self> {
        let a = args(n);
        if !props(n).is_empty() { return Free }
        if n.children().is_none() {
            if a.len() < 2 { return Err }
            let r = A::entry(a[0]).and(B::entry(a[1]));
            return if a.len() == 2 { r } else { r.may() };
        }
        let k = kids(n);
        if !a.is_empty() { return Free }
        if k.len() < 2 { return Err }
        A::node(&k[0]).and(B::node(&k[1])).may()
    }
    fn group(ns: &[&KdlNode]) -> W<Self> { A::node(ns[0]).and(B::node(ns[1])).may() }
}
impl<T: Read> Read for BTreeMap<String, T> {
    fn entry(_: &KdlEntry) -> W<Self> { Err }
    fn node(n: &KdlNode) -> W<Self> {
        if empty(n) || lone(n).is_some() { return Free }
        let mut keys: Vec<&str> = vec![];
        if kids(n).iter().any(|c| props(n).iter().any(|p| p.0 == c.name().value())) { return Free }
        for (k, _) in props(n) { keys.push(k) }
        for c in kids(n) { keys.push(c.name().value()) }
        keys.dedup();
        let r = all(keys.iter().map(|k| field(n, k).map(|x| (k.to_string(), x)))).map(|v| v.into_iter().collect::<BTreeMap<_, _>>());
        keys.sort();
        let k = keys.len();
        keys.dedup();
        // arguments have no place; a key that is there more than once is last one's or none's
        if k != keys.len() { return Free }
        if args(n).is_empty() { r } else { r.may() }
    }
}
/// A child or property of a node.
fn field<T: Read>(n: &KdlNode, name: &str) -> W<T> {
    let p: Vec<_> = props(n).into_iter().filter(|e| e.0 == name).map(|e| e.1).collect();
    let c: Vec<_> = kids(n).iter().filter(|c| c.name().value() == name).collect();
    match (&p[..], &c[..]) {
        ([], []) => T::omitted(),
        ([e], []) => T::entry(e),
        ([.., e], []) => T::entry(e).may(),
        ([], c) => T::nodes(c),
        _ => Err,
    }
}
fn arg<T: Read>(n: &KdlNode, i: usize) -> W<T> { match args(n).get(i) { Some(e) => T::entry(e), None => T::none() } }
fn prop<T: Read>(n: &KdlNode, name: &str) -> W<T> {
    let p: Vec<_> = props(n).into_iter().filter(|e| e.0 == name).collect();
    match &p[..] { [] => T::none(), [e] => T::entry(e.1), [.., e] => T::entry(e.1).may() }
}
fn ty(t: Option<&KdlIdentifier>) -> W<Option<String>> { Must(t.map(|t| t.value().to_string())) }

macro_rules! read { ($t:ty, |$n:ident| $e:expr) => { impl Read for $t { fn entry(_: &KdlEntry) -> W<Self> { Err } fn node($n: &KdlNode) -> W<Self> { $e } } } }
#[derive(Deserialize, PartialEq)]
pub struct St { a: i8, b: Option<String>, c: bool }
read!(St, |n| field(n, "a").and(field(n, "b")).and(field(n, "c")).map(|((a, b), c)| St { a, b, c }));
#[derive(Deserialize, PartialEq)]
pub struct Wide { a: Vec<i8>, b: Option<St> }
read!(Wide, |n| field(n, "a").and(field(n, "b")).map(|(a, b)| Wide { a, b }));
#[derive(Deserialize, PartialEq)]
pub struct Pos { #[serde(rename = "#1")] b: Option<String>, #[serde(rename = "#0")] a: i8, c: bool }
read!(Pos, |n| arg(n, 0).and(arg(n, 1)).and(field(n, "c")).map(|((a, b), c)| Pos { a, b, c }));
#[derive(Deserialize, PartialEq)]
pub struct Rest { #[serde(rename = "#1")] a: i8, #[serde(rename = "#rest")] r: Vec<i8> }
read!(Rest, |n| arg(n, 1).and(all(args(n).into_iter().enumerate().filter(|e| e.0 != 1).map(|e| i8::entry(e.1)))).map(|(a, r)| Rest { a, r }));
#[derive(Deserialize, PartialEq)]
pub struct Args { #[serde(rename = "#args")] r: Vec<i8>, a: Option<bool> }
read!(Args, |n| all(args(n).into_iter().map(i8::entry)).and(field(n, "a")).map(|(r, a)| Args { r, a }));
#[derive(Deserialize, PartialEq)]
pub struct Props { a: Option<bool>, #[serde(rename = "#@a")] p: i8, #[serde(rename = "#@b")] q: Option<String> }
read!(Props, |n| {
    // the property a is for the field that asks for it, the child for the other
    let c: Vec<_> = kids(n).iter().filter(|c| c.name().value() == "a").collect();
    prop(n, "a").and(prop(n, "b")).and(Read::nodes(&c)).map(|((p, q), a)| Props { a, p, q })
});
#[derive(Deserialize, PartialEq)]
pub struct Types { #[serde(rename = "#name")] n: String, #[serde(rename = "#type")] t: Option<String>, #[serde(rename = "#0#type")] u: Option<String>, #[serde(rename = "#@a#type")] v: Option<String>, #[serde(rename = "#@a")] a: Option<i8> }
read!(Types, |n| {
    let p: Vec<_> = props(n).into_iter().filter(|e| e.0 == "a").collect();
    let v = if p.len() > 1 { Free } else { ty(p.last().and_then(|e| e.1.ty())) };
    ty(n.ty()).and(ty(args(n).first().and_then(|e| e.ty()))).and(v).and(prop(n, "a")).map(|(((t, u), v), a)| Types { n: n.name().value().into(), t, u, v, a })
});
#[derive(Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct Deny { a: i8, #[serde(rename = "#0")] b: Option<i8> }
read!(Deny, |n| {
    let known = props(n).iter().all(|e| e.0 == "a") && kids(n).iter().all(|c| c.name().value() == "a");
    let r = field(n, "a").and(arg(n, 0)).map(|(a, b)| Deny { a, b });
    if !known { Err } else if args(n).len() > 1 { r.may() } else { r }
});
#[derive(Deserialize, PartialEq)]
pub struct New(i8);
impl Read for New { fn entry(e: &KdlEntry) -> W<Self> { i8::entry(e).map(New) } fn node(n: &KdlNode) -> W<Self> { i8::node(n).map(New) } }
#[derive(Deserialize, PartialEq)]
pub enum En { A, B, New(i8), Tup(i8, String), St { a: i8, b: Option<String> } }
impl Read for En {
    fn entry(e: &KdlEntry) -> W<Self> { match e.value().as_string() { Some("A") => Must(En::A), Some("B") => Must(En::B), _ => Err } }
    fn node(n: &KdlNode) -> W<Self> {
        if let Some(e) = lone(n) { if e.value().is_string() { return Self::entry(e) } }
        if n.children().is_some() {
            let [c] = kids(n) else { return alone(n) };
            let r = match c.name().value() {
                "A" => if empty(c) { Must(En::A) } else { Free },
                "B" => if empty(c) { Must(En::B) } else { Free },
                "New" => i8::node(c).map(En::New),
                "Tup" => <(i8, String)>::node(c).map(|(a, b)| En::Tup(a, b)),
                "St" => if kids(c).iter().chain([c]).all(|x| x.entries().is_empty() || x.name().value() != "St") && !n.entries().is_empty() { Free } else { present(c, "a").and(present::<Option<String>>(c, "b")).map(|(a, b)| En::St { a, b }) },
                _ => Err,
            };
            return if n.entries().is_empty() { r } else { r.may() };
        }
        if let ([(k, e)], []) = (&props(n)[..], &args(n)[..]) { return match *k { "A" | "B" => Free, "New" => i8::entry(e).map(En::New), _ => Err } }
        alone(n)
    }
}
/// A node may be a variant itself.
fn alone(n: &KdlNode) -> W<En> { if ["A", "B", "New", "Tup", "St"].contains(&n.name().value()) { Free } else { Err } }
fn present<T: Read>(n: &KdlNode, name: &str) -> W<T> { if props(n).iter().all(|p| p.0 != name) && kids(n).iter().all(|c| c.name().value() != name) { T::none() } else { field(n, name) } }

const DOCS: &[&str] = &[
    "x §X", "x §X §Y", "x", "x §F=§X", "x §F=§X §F=§Y", "x {§F §X}", "x {§F §X;§F §Y}", "x §X §F=§Y", "x §F=§X {§F §Y}", "x §X;x §Y", "x §X {§F §Y}", "", "y §X", "(t)x (u)§X §F=(v)§Y", "x {§F}", "x {§F;§F}", "x {}",
    "x {§F {§F §X}}", "x {§H §X}", "x {§H §F=§X b=§Y}", "x {§H §X §Y}", "x {§H {§F §X}}", "x §H=§X", "x §H", "x a=1 {§H §X}", "x /-§X §Y", "x §X §Y §Y", "x a=1 §F=§X", "x {a 1;§F §X §Y}", "x {a 1 2;b §F=§X}", "x;x", "x §X;y 1;x §Y",
    "x §G§P§9", "x §9.§9", "x §9e§9", "x a=§G§P§9", "x \"§A\"", "x \"§B§A\"", "x \"§S\"", "x a=1 b=\"§B\"", "x {a 1;b \"§A\"}", "x §0", "x a=§0",
    "x a=1 §R=§X", "x 1 §R=§X", "x 1 {§R §X}", "x §R=§X",
];
#[derive(Deserialize, PartialEq)]
struct Top<T> { x: T }
fn read<T: Read>(s: &str, d: &KdlDocument) {
    let ns: Vec<_> = d.nodes().iter().filter(|n| n.name().value() == "x").collect();
    settle(T::nodes(&ns), kdl::de::from_str::<Top<T>>(s).map(|t| t.x))
}
/// 1 an error where there is a value, 2 another value, 3 a value where there should be an error
fn settle<T: PartialEq, E>(w: W<T>, r: Result<T, E>) {
    match (w, r) {
        (Must(_), Result::Err(_)) => fail(1),
        (Must(v) | May(v), Ok(x)) => { check(v == x, 2); reach(3) }
        (Err, Ok(_)) => fail(3),
        (Err, Result::Err(_)) => reach(4),
        _ => {}
    }
}
/// scn = shape * 100 + document
#[unsafe(no_mangle)]
pub extern "C" fn h_de(scn: u32) {
    let s = text(DOCS[(scn % 100) as usize]);
    let Ok(d) = KdlDocument::parse(&s) else { return };
    reach(1);
    match scn / 100 {
        0 => read::<i8>(&s, &d), 1 => read::<u8>(&s, &d), 2 => read::<i16>(&s, &d), 3 => read::<u32>(&s, &d), 4 => read::<i64>(&s, &d), 5 => read::<u64>(&s, &d), 6 => read::<f64>(&s, &d), 7 => read::<f32>(&s, &d), 8 => read::<bool>(&s, &d), 9 => read::<String>(&s, &d), 10 => read::<char>(&s, &d), 11 => read::<()>(&s, &d),
        12 => read::<Option<i8>>(&s, &d), 13 => read::<Option<bool>>(&s, &d), 14 => read::<Vec<i8>>(&s, &d), 15 => read::<Vec<Option<String>>>(&s, &d), 16 => read::<Option<Vec<i8>>>(&s, &d), 17 => read::<(i8, String)>(&s, &d), 18 => read::<BTreeMap<String, i8>>(&s, &d), 19 => read::<St>(&s, &d), 20 => read::<Wide>(&s, &d), 21 => read::<Pos>(&s, &d), 22 => read::<Rest>(&s, &d), 23 => read::<Args>(&s, &d), 24 => read::<Props>(&s, &d), 25 => read::<Types>(&s, &d), 26 => read::<Deny>(&s, &d), 27 => read::<New>(&s, &d), 28 => read::<En>(&s, &d), 29 => read::<Option<En>>(&s, &d), 30 => read::<Vec<St>>(&s, &d), 31 => read::<Option<St>>(&s, &d), 32 => read::<Vec<En>>(&s, &d),
        // the whole document
        40 => settle(all(d.nodes().iter().map(i8::node)), kdl::de::from_str::<Vec<i8>>(&s)),
        41 => settle(all(d.nodes().iter().map(St::node)), kdl::de::from_str::<Vec<St>>(&s)),
        42 => settle(all(d.nodes().iter().map(En::node)), kdl::de::from_str::<Vec<En>>(&s)),
        43 => {
            let mut m: BTreeMap<String, Vec<&KdlNode>> = BTreeMap::new();
            for n in d.nodes() { m.entry(n.name().value().into()).or_default().push(n) }
            settle(all(m.into_iter().map(|(k, ns)| <Vec<i8>>::nodes(&ns).map(|v| (k, v)))).map(|v| v.into_iter().collect()), kdl::de::from_str::<BTreeMap<String, Vec<i8>>>(&s))
        }
        _ => panic!(),
    }
    reach(2);
}
