//! KDL 1 and KDL 2: conversion and fallback.
use crate::common::*;
use crate::templates::template;
use crate::sym::*;
use kdl::*;
use kdlv1 as v1;

fn id1(a: Option<&v1::KdlIdentifier>, b: Option<&KdlIdentifier>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.value() == y.value(), _ => false }
}
fn val1(a: &v1::KdlValue, b: &KdlValue) -> bool {
    use v1::KdlValue as V;
    match (a, b) {
        (V::RawString(x) | V::String(x), KdlValue::String(y)) => x == y,
        (V::Base2(x) | V::Base8(x) | V::Base10(x) | V::Base16(x), KdlValue::Integer(y)) => i128::from(*x) == *y,
        (V::Base10Float(x), KdlValue::Float(y)) => x.to_bits() == y.to_bits(),
        (V::Bool(x), KdlValue::Bool(y)) => x == y,
        (V::Null, KdlValue::Null) => true,
        _ => false,
    }
}
fn same1(a: &v1::KdlDocument, b: &KdlDocument) -> bool {
    a.nodes().len() == b.nodes().len() && a.nodes().iter().zip(b.nodes()).all(|(x, y)| {
        id1(x.ty(), y.ty()) && x.name().value() == y.name().value() && x.entries().len() == y.entries().len()
            && x.entries().iter().zip(y.entries()).all(|(e, f)| id1(e.ty(), f.ty()) && id1(e.name(), f.name()) && val1(e.value(), f.value()))
            && match (x.children(), y.children()) { (None, None) => true, (Some(k), Some(l)) => same1(k, l), _ => false }
    })
}
/// what version 1 has a way to write
fn in_v1(d: &KdlDocument) -> bool {
    d.nodes().iter().all(|n| {
        n.entries().iter().all(|e| match e.value() { KdlValue::Integer(i) => i64::try_from(*i).is_ok(), KdlValue::Float(f) => f.is_finite(), _ => true })
            && n.children().is_none_or(in_v1)
    })
}

const ONE: &[&str] = &[
    "a \"§A\"", "a \"§A§A\"", "a \"\\§A§A\"", "a \"x§Ay§A\"", "a r\"§A§A\"", "a r#\"§A§A\"#", "a r#\"x§A\"§A\"#", "a \"\\u{§A§A}\"",
    "a §A§A", "a §A1§A", "a 0x§A§A", "a 1.§A§A", "a 1e§A§A", "a tru§A", "a b=§A§A", "a b=\"§A§A\"", "a \"§A\"=1", "\"§A§A\" 1", "§A§A", "§A§Ab 1", "(§A)a (b§A)1", "(\"§A§A\")a",
    "a §W", "§N §W", "a §W §W", "a §N=§W", "(§N)a §W", "a (§N)§W", "a {§N §W;}", "a {b {c §W;};}", "a §W§T1§T", "§Ta§T§N=1§T", "§Ta§T{b§T}§T", "§Ta§T;b§T", "a {}§T§Tb", "a /-§W§T1", "a {§T§T}", "/-§Ta§W", "a§T§T§Tb", "§T§T§N",
    "a §B1", "a \"§B\"", "§B", "a\n§A b", "a {§Ab§A}", "a//§A\n§A", "a /*§A*/§A1", "a \\§A§A1", "/-a§A§Ab", "a /-1§A§A", "a /-{}§A§A", "a;§A§Ab", "a 0x1§A000000§A", "a (true)1",
];
/// the dependency's parser panics for a keyword as the type of an entry: left to the one template that is just that
fn keyword_type(scn: u32, s: &str) -> bool { scn < 1000 && (scn as usize) + 1 < ONE.len() && s.contains("(true)") }
fn text1(scn: u32) -> String { text(if scn < 1000 { ONE[scn as usize] } else { template(scn) }) }

/// 1 the converted text is not KDL 2, 2 it means something else, 3 version 1 text rejected, 4 version 1 text misread, 5 invalid version 1 text accepted,
/// 6 the tree after ensure_v2 differs from that of the text, 7 converting fails
#[unsafe(no_mangle)]
pub extern "C" fn h_v1_to_v2(scn: u32) {
    let s = text1(scn);
    note(&s);
    if keyword_type(scn, &s) { return }
    let a: Result<v1::KdlDocument, _> = s.parse();
    let b = KdlDocument::parse_v1(&s);
    match (a, b) {
        (Err(_), Err(e)) => { reach(2); check(!e.diagnostics.is_empty(), 5) }
        (Err(_), Ok(_)) => fail(5),
        (Ok(_), Err(_)) => fail(3),
        (Ok(a), Ok(mut d)) => {
            reach(1);
            check(same1(&a, &d), 4);
            d.ensure_v2();
            let t = d.to_string();
            note(&t);
            let Ok(f) = KdlDocument::parse_v2(&t) else { fail(1) };
            check(same1(&a, &f), 2);
            check(doc_same(&d, &f), 6);
            match KdlDocument::v1_to_v2(&s) { Ok(u) => check(u == t, 7), Err(_) => fail(7) }
        }
    }
}
/// 1 the converted text is not KDL 1, 2 it means something else, 6 there and back is not KDL 2 or something else, 7 converting fails
#[unsafe(no_mangle)]
pub extern "C" fn h_v2_to_v1(scn: u32) {
    let s = text(template(scn));
    note(&s);
    let Ok(d) = KdlDocument::parse_v2(&s) else { reach(2); check(KdlDocument::v2_to_v1(&s).is_err(), 7); return };
    if !in_v1(&d) { reach(3); return }
    reach(1);
    let mode = choose(3);
    let mut e = d.clone();
    if mode == 1 { e.clear_format_recursive() }
    if mode == 2 { e.autoformat() }
    e.ensure_v1();
    let t = e.to_string();
    note(&t);
    if mode == 0 { match KdlDocument::v2_to_v1(&s) { Ok(u) => check(u == t, 7), Err(_) => fail(7) } }
    let a: Result<v1::KdlDocument, _> = t.parse();
    let Ok(a) = a else { fail(1) };
    check(same1(&a, &d), 2);
    e.ensure_v2();
    let u = e.to_string();
    note(&u);
    let Ok(f) = KdlDocument::parse_v2(&u) else { fail(6) };
    check(doc_same(&d, &f), 6);
}
const PART: &[&str] = &["§W", "§N", "§N=§W", "§N §W", "(§N)§W", "(§N)a", "§A§A", "a §A§A", "\"§A\"", "r\"§A§A\"", "§Aa=1", "a tru§A", "§B"];
fn ent1(a: &v1::KdlEntry, b: &KdlEntry) -> bool { id1(a.ty(), b.ty()) && id1(a.name(), b.name()) && val1(a.value(), b.value()) }
/// the same for single nodes, entries and identifiers
#[unsafe(no_mangle)]
pub extern "C" fn h_fallback_part(scn: u32) {
    let s = text(PART[scn as usize]);
    note(&s);
    // what would not be the whole of a part in the text around it
    let plain = !s.contains(['\n', '\r', '\u{85}', '\u{c}', '\u{b}', '\u{2028}', '\u{2029}', ';', '{', '\\', '/', '\u{feff}']) && s.trim() == s && !s.is_empty();
    if !plain && !s.contains('"') { return }
    let mode = choose(3);
    // version 1 keywords as names: the dependency's parser panics (recorded for documents)
    if s.contains("(true)") || s.contains("true=") || mode != 1 && (s.starts_with("true") || s.starts_with("null") || s.contains(")true") || s.contains(")null")) { return }
    match mode {
        0 => {
            let a = KdlDocument::parse_v2(&s).ok().filter(|d| d.nodes().len() == 1);
            let b: Result<v1::KdlNode, _> = s.parse();
            match KdlNode::parse(&s) {
                Err(_) => { check(a.is_none() && b.is_err(), 1); reach(3) }
                Ok(n) => match (a, b) {
                    (Some(a), _) => { reach(1); check(node_same(&n, &a.nodes()[0]), 3) }
                    (None, Ok(b)) => { reach(2); check(id1(b.ty(), n.ty()) && b.name().value() == n.name().value() && b.entries().len() == n.entries().len() && b.entries().iter().zip(n.entries()).all(|(x, y)| ent1(x, y)), 3) }
                    _ => fail(2),
                },
            }
        }
        1 => {
            let a = KdlDocument::parse_v2(&format!("x {s}")).ok().filter(|d| d.nodes().len() == 1 && d.nodes()[0].entries().len() == 1);
            let b: Result<v1::KdlEntry, _> = s.parse();
            match KdlEntry::parse(&s) {
                Err(_) => { check(a.is_none() && b.is_err(), 1); reach(3) }
                Ok(n) => match (a, b) {
                    (Some(a), _) => { reach(1); check(entry_same(&n, &a.nodes()[0].entries()[0]), 3) }
                    (None, Ok(b)) => { reach(2); check(ent1(&b, &n), 3) }
                    _ => fail(2),
                },
            }
        }
        _ => {
            let a = KdlDocument::parse_v2(&s).ok().filter(|d| d.nodes().len() == 1 && d.nodes()[0].entries().is_empty() && d.nodes()[0].ty().is_none());
            let b: Result<v1::KdlIdentifier, _> = s.parse();
            match KdlIdentifier::parse(&s) {
                Err(_) => { check(a.is_none() && b.is_err(), 1); reach(3) }
                Ok(n) => match (a, b) {
                    (Some(a), _) => { reach(1); check(n.value() == a.nodes()[0].name().value(), 3) }
                    (None, Ok(b)) => { reach(2); check(n.value() == b.value(), 3) }
                    _ => fail(2),
                },
            }
        }
    }
}
/// parsing with fallback: 1 rejected though a version accepts it, 2 accepted though none does, 3 not the tree of the preferred version
#[unsafe(no_mangle)]
pub extern "C" fn h_fallback(scn: u32) {
    let s = text1(scn);
    note(&s);
    if keyword_type(scn, &s) { return }
    let a = KdlDocument::parse_v2(&s);
    let b: Result<v1::KdlDocument, _> = s.parse();
    match KdlDocument::parse(&s) {
        Err(e) => { check(a.is_err() && b.is_err(), 1); check(!e.diagnostics.is_empty(), 1); reach(3) }
        Ok(d) => match (a, b) {
            (Ok(a), _) => { reach(1); check(d == a, 3) }
            (Err(_), Ok(b)) => { reach(2); check(same1(&b, &d), 3) }
            _ => fail(2),
        },
    }
}
