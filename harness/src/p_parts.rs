//! Single nodes, entries and identifiers; totality of every entry point; spans.
use crate::common::*;
use crate::p_parse::{entry_eq, node_eq, template};
use crate::refkdl::P;
use crate::sym::*;
use kdl::*;
use std::sync::Arc;

fn bounds(span: miette_span::Span, s: &str, code: i32) -> (usize, usize) {
    let (a, n) = span;
    let b = a.wrapping_add(n);
    check(a <= b && b <= s.len(), code);
    check(s.is_char_boundary(a) && s.is_char_boundary(b), code + 1);
    (a, b)
}
mod miette_span { pub type Span = (usize, usize); }
macro_rules! sp { ($x:expr) => {{ let q = $x; (q.offset(), q.len()) }}; }

fn error_ok(e: &KdlError, s: &str) {
    check(!e.diagnostics.is_empty(), 10);
    check(*e.input == s, 11);
    let mut severe = false;
    for d in &e.diagnostics {
        check(Arc::ptr_eq(&d.input, &e.input) || *d.input == s, 12);
        bounds(sp!(d.span), s, 13);
        severe |= matches!(d.severity, miette::Severity::Error);
    }
    check(severe, 15);
}

/// Which entry point: scn / 10000.
/// 1 printing differs, 10.. error report (see error_ok)
fn each(scn: u32, s: &str) {
    match scn / 10000 {
        0 => match KdlDocument::parse_v2(s) { Ok(d) => { reach(1); check(d.to_string() == *s, 1) } Err(e) => { reach(2); error_ok(&e, s) } },
        1 => match KdlNode::parse(s) { Ok(d) => { reach(1); check(d.to_string() == *s, 1) } Err(e) => { reach(2); error_ok(&e, s) } },
        2 => match KdlEntry::parse(s) { Ok(d) => { reach(1); check(d.to_string() == *s, 1) } Err(e) => { reach(2); error_ok(&e, s) } },
        3 => match KdlIdentifier::parse(s) { Ok(d) => { reach(1); check(d.to_string() == *s, 1) } Err(e) => { reach(2); error_ok(&e, s) } },
        4 => match s.parse::<KdlDocument>() { Ok(d) => { reach(1); check(d.to_string() == *s, 1) } Err(e) => { reach(2); error_ok(&e, s) } },
        _ => panic!(),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total(scn: u32) {
    let s = text(template(scn % 10000));
    each(scn, &s);
}

/// single parts against the reference reader
#[unsafe(no_mangle)]
pub extern "C" fn h_conform_part(scn: u32) {
    let s = text(template(scn % 10000));
    let mut p = P::new(&s);
    match scn / 10000 {
        1 => match (p.single_node(), KdlNode::parse(&s)) {
            (Ok(t), Ok(d)) => { reach(1); check(node_eq(&d, &t), 3) }
            (Err(_), Err(_)) => reach(3),
            (Ok(_), Err(_)) => check(p.loose, 1),
            (Err(_), Ok(_)) => check(p.loose, 2),
        },
        2 => match (p.single_entry(), KdlEntry::parse(&s)) {
            (Ok(t), Ok(d)) => { reach(1); check(entry_eq(&d, &t), 3) }
            (Err(_), Err(_)) => reach(3),
            (Ok(_), Err(_)) => check(p.loose, 1),
            (Err(_), Ok(_)) => check(p.loose, 2),
        },
        3 => match (p.single_ident(), KdlIdentifier::parse(&s)) {
            (Ok(t), Ok(d)) => { reach(1); check(d.value() == t, 3) }
            (Err(_), Err(_)) => reach(3),
            (Ok(_), Err(_)) => check(p.loose, 1),
            (Err(_), Ok(_)) => check(p.loose, 2),
        },
        _ => panic!(),
    }
}

/// 1/2 out of bounds or inside a character, 3 order or nesting, 4 identifier text, 5 entry text, 6 node text
#[unsafe(no_mangle)]
pub extern "C" fn h_span(scn: u32) {
    let s = text(template(scn));
    let Ok(d) = KdlDocument::parse_v2(&s) else { return };
    reach(1);
    let all = bounds(sp!(d.span()), &s, 1);
    let mut last = all.0;
    for n in d.nodes() { last = node_span(n, &s, last, all.1); }
    if !d.nodes().is_empty() { reach(2) }
}
fn ident_span(i: &KdlIdentifier, s: &str, lo: usize, hi: usize) -> (usize, usize) {
    let r = bounds(sp!(i.span()), s, 1);
    check(lo <= r.0 && r.1 <= hi, 3);
    check(s[r.0..r.1] == i.to_string(), 4);
    r
}
/// returns the end of the node's span
fn node_span(n: &KdlNode, s: &str, lo: usize, hi: usize) -> usize {
    let r = bounds(sp!(n.span()), s, 1);
    check(lo <= r.0 && r.1 <= hi, 3);
    // starts at the annotation or the name
    let mut at = r.0;
    if let Some(t) = n.ty() {
        check(s[r.0..].starts_with('('), 6);
        at = ident_span(t, s, at, r.1).1;
        let nm = ident_span(n.name(), s, at, r.1);
        at = nm.1;
    } else {
        let nm = ident_span(n.name(), s, at, r.1);
        check(nm.0 == r.0, 6);
        at = nm.1;
    }
    for e in n.entries() {
        let x = bounds(sp!(e.span()), s, 1);
        check(at <= x.0 && x.1 <= r.1, 3);
        let mut c = e.clone();
        if let Some(f) = c.format_mut() { f.leading.clear(); f.trailing.clear(); }
        check(s[x.0..x.1] == c.to_string(), 5);
        if let Some(t) = e.ty() { ident_span(t, s, x.0, x.1); }
        if let Some(t) = e.name() { check(ident_span(t, s, x.0, x.1).0 == x.0, 5); }
        at = x.1;
    }
    if let Some(c) = n.children() {
        reach(3);
        let x = bounds(sp!(c.span()), s, 1);
        check(at <= x.0 && x.1 <= r.1, 3);
        let mut last = x.0;
        for k in c.nodes() { last = node_span(k, s, last, x.1); }
        at = x.1;
    }
    check(at <= r.1, 3);
    // the spanned text is the node
    match KdlNode::parse(&s[r.0..r.1]) { Ok(m) => check(node_same(&m, n), 6), Err(_) => fail(7) }
    r.1
}
