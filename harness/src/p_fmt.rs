//! Formatting never changes what a document says.
use crate::common::*;
use crate::p_parse::template;
use crate::sym::*;
use kdl::*;

fn start(scn: u32) -> Option<KdlDocument> {
    let s = text(template(scn));
    KdlDocument::parse_v2(&s).ok()
}
fn again(t: &str, code: i32) -> KdlDocument {
    match KdlDocument::parse_v2(t) { Ok(d) => d, Err(_) => fail(code) }
}

/// 1 output does not parse, 2 output means something else, 3 not idempotent, 4 more than one way of printing the same thing (format_no_comments etc.)
#[unsafe(no_mangle)]
pub extern "C" fn h_autoformat(scn: u32) {
    let Some(d) = start(scn) else { return };
    reach(1);
    let mut e = d.clone();
    e.autoformat();
    let t = e.to_string();
    note(&t);
    check(doc_same(&e, &d), 4);
    let mut f = again(&t, 1);
    check(doc_same(&f, &d), 2);
    reach(2);
    f.autoformat();
    let u = f.to_string();
    note(&u);
    check(u == t, 3);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_autoformat_nc(scn: u32) {
    let Some(d) = start(scn) else { return };
    reach(1);
    let mut e = d.clone();
    e.autoformat_no_comments();
    let t = e.to_string();
    note(&t);
    check(doc_same(&e, &d), 4);
    let f = again(&t, 1);
    check(doc_same(&f, &d), 2);
    reach(2);
}

/// 1 output does not parse, 2 output means something else, 3 formatting not canonical
/// the same tree without anything it remembers of a text
fn bare(d: &KdlDocument) -> KdlDocument {
    let id = |i: &KdlIdentifier| KdlIdentifier::from(i.value());
    let mut b = KdlDocument::new();
    for n in d.nodes() {
        let mut m = KdlNode::new(id(n.name()));
        m.clear_format();
        if let Some(t) = n.ty() { m.set_ty(id(t)) }
        for e in n.entries() {
            let mut f = match e.name() { Some(k) => KdlEntry::new_prop(id(k), e.value().clone()), None => KdlEntry::new(e.value().clone()) };
            if let Some(t) = e.ty() { f.set_ty(id(t)) }
            m.entries_mut().push(f);
        }
        if let Some(k) = n.children() { m.set_children(bare(k)) }
        b.nodes_mut().push(m);
    }
    b
}
#[unsafe(no_mangle)]
pub extern "C" fn h_clear(scn: u32) {
    let Some(d) = start(scn) else { return };
    reach(1);
    let mut e = d.clone();
    e.clear_format_recursive();
    let t = e.to_string();
    note(&t);
    check(doc_same(&e, &d), 4);
    check(t == bare(&d).to_string(), 5);
    let mut f = again(&t, 1);
    check(doc_same(&f, &d), 2);
    reach(2);
    f.clear_format_recursive();
    check(f.to_string() == t, 3);
}
/// clearing only the document's, or one node's, or one entry's format
#[unsafe(no_mangle)]
pub extern "C" fn h_clear_one(scn: u32) {
    let Some(mut e) = start(scn) else { return };
    let d = e.clone();
    reach(1);
    match choose(3) {
        0 => e.clear_format(),
        1 => { if e.nodes().is_empty() { return; } let k = choose(e.nodes().len() as u8); e.nodes_mut()[k as usize].clear_format(); }
        _ => {
            if e.nodes().is_empty() { return; }
            let k = choose(e.nodes().len() as u8);
            let n = &mut e.nodes_mut()[k as usize];
            if n.entries().is_empty() { return; }
            let j = choose(n.entries().len() as u8);
            n.entries_mut()[j as usize].clear_format();
        }
    }
    let t = e.to_string();
    note(&t);
    let f = again(&t, 1);
    check(doc_same(&f, &d), 2);
    reach(2);
}

fn comments(s: &str) -> usize { s.matches("/*c*/").count() + s.matches("//c").count() }
/// comments around nodes, not inside them
fn outer_comments(d: &KdlDocument) -> usize {
    let mut c = d.format().map_or(0, |f| comments(&f.leading) + comments(&f.trailing));
    for n in d.nodes() {
        c += n.format().map_or(0, |f| comments(&f.leading));
        if let Some(k) = n.children() { c += outer_comments(k) }
    }
    c
}
/// every node on a line of its own, indented to its depth: `above` is what the text has before the first
fn indented(d: &KdlDocument, level: usize, indent: &str, above: &str) -> bool {
    let newline = ['\n', '\r', '\u{85}', '\u{b}', '\u{c}', '\u{2028}', '\u{2029}'];
    let mut above = format!("{above}{}", d.format().map_or("", |f| &f.leading));
    for n in d.nodes() {
        let Some(f) = n.format() else { return false };
        above += &f.leading;
        let line = match above.rfind(newline) { Some(i) => above[i..].trim_start_matches(newline), None => above.trim_start_matches('\u{feff}') };
        if line != indent.repeat(level) || !n.children().is_none_or(|k| indented(k, level + 1, indent, "{")) { return false }
        above = format!("{}{}", f.terminator, f.trailing);
    }
    true
}
fn has_empty_block(d: &KdlDocument) -> bool {
    d.nodes().iter().any(|n| n.children().is_some_and(|k| k.nodes().is_empty() || has_empty_block(k)))
}
fn reprs(d: &KdlDocument, v: &mut Vec<String>) {
    for n in d.nodes() {
        for e in n.entries() { v.push(e.format().map_or_else(|| e.value().to_string(), |f| f.value_repr.clone())) }
        if let Some(k) = n.children() { reprs(k, v) }
    }
}
/// 1-4 as above, 5 indentation, 6 a comment lost or left, 7 notation of a value changed, 8 another node's text changed
#[unsafe(no_mangle)]
pub extern "C" fn h_autoformat_cfg(scn: u32) {
    let Some(d) = start(scn % 10000) else { return };
    let mut c = FormatConfig::default();
    let k = if scn < 10000 { choose(6) } else { (scn / 10000 - 1) as u8 };
    c.indent = ["    ", "", "\t", "  ", " ", "\u{3000} "][k as usize];
    c.indent_level = [0, 0, 1, 2, 1, 1][k as usize];
    c.no_comments = k == 1 || k == 4;
    c.entry_autoformate_keep = matches!(k, 0 | 3 | 4);
    reach(1);
    let mut e = d.clone();
    let mode = choose(3);
    if mode == 1 {
        // one node only
        if d.nodes().is_empty() { return }
        let i = choose(d.nodes().len() as u8) as usize;
        e.nodes_mut()[i].autoformat_config(&c);
        let t = e.to_string();
        note(&t);
        check(doc_same(&again(&t, 1), &d), 2);
        for (j, (a, b)) in d.nodes().iter().zip(e.nodes()).enumerate() { check(i == j || a.to_string() == b.to_string(), 8) }
        reach(3);
        return;
    }
    if mode == 2 { e.clear_format_recursive() }
    e.autoformat_config(&c);
    let t = e.to_string();
    note(&t);
    check(doc_same(&e, &d), 4);
    let mut f = again(&t, 1);
    check(doc_same(&f, &d), 2);
    check(indented(&f, c.indent_level, c.indent, ""), 5);
    if mode == 2 {}
    else if c.no_comments { check(outer_comments(&e) == 0, 6) } else { check(outer_comments(&e) >= outer_comments(&d), 6) }
    if c.entry_autoformate_keep && mode == 0 {
        let (mut a, mut b) = (vec![], vec![]);
        reprs(&d, &mut a);
        reprs(&f, &mut b);
        check(a == b, 7);
    }
    reach(2);
    // blocks built without anything in them are formatted without the empty line that those in a text get
    if mode == 2 && has_empty_block(&d) { return }
    f.autoformat_config(&c);
    let u = f.to_string();
    note(&u);
    check(u == t, 3);
}
