//! What is built through the API prints as text with that meaning.
use crate::common::*;
use crate::sym::*;
use kdl::*;

pub const STRS: &[&str] = &[
    "", "§A", "§B", "§S", "§A§A", "§A§B", "§B§A", "§K§K§K", "-§A", "+§A", ".§A", "-.§A", "+.§A", "--§A", "..§A", "0§A", "-0§A", ".0§A", "#§A", "\"§A", "\\§A", "\\u§A", "r#§A",
    "\u{feff}§A", "§A\u{feff}", "/§A", "//§A", "/-§A", "/*§A", "in§A", "-in§A", "+inf§A", "na§A", "tru§A", "fals§A", "nul§A", "§Arue", "§Ainf", "§Anan", "a§Ab", "a b§A", "é§A", "§A\u{3000}", "\r§A", "§A\n", "\"\"\"§A", "\"\"\"\n§A", "§Q§Q", "§Q§Q§Q",
    "§D§D", "-§D§D", ".§D", "§G§D.§D", "§Gin§A", "§Gnan§A", "§T§T", "§K-§K", "=§A", "(§A)", "{§A}", ";§A", "\u{7f}§A", "\u{85}§A", "\u{2028}§A", "\u{200e}§B", "\u{202a}§B", "\u{2066}§B", "\u{10ffff}§S", "§A§A§A", "§K§K§K§K",
];
const INTS: &[i128] = &[0, 1, 9, 10, 99, 100, 255, 256, 65535, 1 << 31, 1 << 32, 1 << 52, 1 << 53, 1 << 63, 1 << 64, 1 << 65, 1 << 100, 10_i128.pow(18), 10_i128.pow(19), 10_i128.pow(20), 10_i128.pow(37), 10_i128.pow(38), i128::MAX - 1, i128::MAX - 2, 17, 123456789012345678901234567890];

fn doc_back(d: &KdlDocument) {
    let t = d.to_string();
    note(&t);
    match KdlDocument::parse_v2(&t) { Ok(e) => check(doc_same(d, &e), 2), Err(_) => fail(1) }
    check(d.len() == t.len() && d.is_empty() == t.is_empty(), 9);
}
fn node_back(n: &KdlNode) {
    let t = n.to_string();
    note(&t);
    match KdlNode::parse(&t) { Ok(e) => check(node_same(n, &e), 4), Err(_) => fail(3) }
}
fn entry_back(n: &KdlEntry) {
    let t = n.to_string();
    note(&t);
    match KdlEntry::parse(&t) { Ok(e) => check(entry_same(n, &e), 6), Err(_) => fail(5) }
    check(n.len() == t.len(), 9);
}
fn one(n: KdlNode) {
    let mut d = KdlDocument::new();
    d.nodes_mut().push(n);
    d.nodes_mut().push(KdlNode::new("end"));
    doc_back(&d);
}

/// A string in one position. scn = position * 1000 + string.
/// 1/2 document does not parse / means something else, 3/4 node, 5/6 entry, 7/8 identifier, 9 length
#[unsafe(no_mangle)]
pub extern "C" fn h_build_str(scn: u32) {
    let s = text(STRS[(scn % 1000) as usize]);
    let bare = choose(2) == 1;
    let mut n = KdlNode::new("n");
    if bare { n.clear_format() }
    match scn / 1000 {
        0 => n.push(s.as_str()),
        1 => n.push((s.as_str(), 1)),
        2 => { n.insert("k", s.as_str()); }
        3 => n.set_name(s.as_str()),
        4 => { n.set_ty(s.as_str()); }
        5 => { let mut e = KdlEntry::new(true); e.set_ty(s.as_str()); n.push(e) }
        6 => { let mut e = KdlEntry::new_prop("p", KdlValue::Null); e.set_ty(s.clone()); n.push(e); n.push(2) }
        7 => { // edits of a parsed document
            let Ok(mut d) = KdlDocument::parse_v2("(t)a /*c*/ (u)\"v\" k = #\"w\"# { x 0xff; }\nb") else { fail(90) };
            match choose(7) {
                0 => d.nodes_mut()[0].set_name(s.as_str()),
                1 => d.nodes_mut()[0].name_mut().set_value(s.as_str()),
                2 => d.nodes_mut()[0].set_ty(s.as_str()),
                3 => d.nodes_mut()[0].entries_mut()[0].set_value(s.as_str()),
                4 => d.nodes_mut()[0].entries_mut()[1].set_name(Some(s.as_str())),
                5 => d.nodes_mut()[0].entries_mut()[0].ty_mut().unwrap().set_value(s.as_str()),
                _ => d.nodes_mut()[0].entries_mut()[1].name_mut().unwrap().set_value(s.as_str()),
            }
            reach(1);
            doc_back(&d);
            return;
        }
        8 => { let i = KdlIdentifier::from(s.as_str()); let t = i.to_string(); note(&t); check(i.len() == t.len(), 9); match KdlIdentifier::parse(&t) { Ok(j) => check(j.value() == s, 8), Err(_) => fail(7) } reach(1); return }
        9 => { let e = KdlEntry::new(s.as_str()); entry_back(&e); let e = KdlEntry::new_prop(s.as_str(), s.as_str()); entry_back(&e); reach(1); return }
        _ => { n.set_name(s.as_str()); n.set_ty(s.as_str()); n.push((s.as_str(), s.as_str())); n.push(s.as_str()); n.ensure_children().nodes_mut().push(KdlNode::new(s.as_str())); node_back(&n) }
    }
    reach(1);
    one(n);
}
fn num() -> KdlValue {
    if choose(2) == 0 {
        let k = choose(INTS.len() as u8 + 1) as usize;
        let i = if k == INTS.len() { i128::MIN } else { INTS[k] + choose(3) as i128 - if choose(2) == 0 { 0 } else { 2 * INTS[k] } };
        KdlValue::Integer(i)
    } else {
        // every exponent, a few fractions
        let e = (choose(128) as u64) << 4 | choose(16) as u64;
        let m = [0u64, 1, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000, 0x9_9999_9999_999a][choose(5) as usize];
        KdlValue::Float(f64::from_bits((choose(2) as u64) << 63 | e << 52 | m))
    }
}
/// numbers and keywords in every position; scn = position
#[unsafe(no_mangle)]
pub extern "C" fn h_build_num(scn: u32) {
    let v = match scn / 10 { 0 => num(), _ => match choose(3) { 0 => KdlValue::Bool(true), 1 => KdlValue::Bool(false), _ => KdlValue::Null } };
    reach(1);
    let mut n = KdlNode::new("n");
    match scn % 10 {
        0 => n.push(v),
        1 => { n.push(("k", v)); n.push("x") }
        2 => { let mut e = KdlEntry::new(v); e.set_ty("t"); entry_back(&e); n.push(e) }
        _ => {
            let Ok(mut d) = KdlDocument::parse_v2("a \"v\" k=#\"w\"# /*c*/ { x 0xff; }\nb") else { fail(90) };
            match choose(3) { 0 => d.nodes_mut()[0].entries_mut()[0].set_value(v), 1 => { d.nodes_mut()[0].insert("k", v); } _ => { d.nodes_mut()[0].insert(0, v); } }
            doc_back(&d);
            return;
        }
    }
    one(n);
}
fn some_entry() -> KdlEntry {
    let mut e = match choose(4) { 0 => KdlEntry::new("v"), 1 => KdlEntry::new(-1), 2 => KdlEntry::new_prop("k", "w x"), _ => KdlEntry::new_prop("k l", KdlValue::Null) };
    if choose(2) == 1 { e.set_ty("t"); }
    e
}
fn some_node(depth: u32, wide: u8) -> KdlNode {
    let mut n = KdlNode::new("n");
    if choose(2) == 1 { n.clear_format() }
    if choose(2) == 1 { n.set_ty("ty") }
    for _ in 0..choose(wide) { n.push(some_entry()) }
    if depth > 0 {
        match choose(3) {
            0 => {}
            1 => { n.ensure_children(); }
            _ => { let d = some_doc(depth - 1, 2, 2); n.set_children(d) }
        }
    }
    n
}
fn some_doc(depth: u32, nodes: u8, wide: u8) -> KdlDocument {
    let mut d = KdlDocument::new();
    if choose(2) == 1 { d.set_format(KdlDocumentFormat::default()) }
    for _ in 0..choose(nodes + 1) { d.nodes_mut().push(some_node(depth, wide)) }
    d
}
/// whole trees: 0 flat, 1 one level of children, 2 parsed document with things added, 3 autoformatted tree, 4 cleared tree, 5 node alone
#[unsafe(no_mangle)]
pub extern "C" fn h_build_tree(scn: u32) {
    match scn {
        0 => { let d = some_doc(0, 1, 3); reach(1); doc_back(&d) }
        1 => { let mut d = KdlDocument::new(); d.nodes_mut().push(some_node(1, 1)); d.nodes_mut().push(KdlNode::new("z")); reach(1); doc_back(&d) }
        2 => { // things added to a parsed document
            let t = ["a", "a\n", "a;", "a {b}", "a {b;}", "a{b\n}\n", "a {}", "a 1 \\\n k=v", "a //c\n", "a /*c*/ ", "a; ", "/-a", "/-a\n", "", "//c", "a /-{}", "a {\n}\n//c\n", "a {/-b}", "a {b /-c}", "a {//c\n}", "a {b //c\n}", "a {b} c", "a \"\"\"\n x\n \"\"\""][choose(23) as usize];
            let Ok(mut d) = KdlDocument::parse_v2(t) else { return };
            note(t);
            reach(1);
            let k = choose(7);
            let bare = choose(2) == 1;
            let mut x = KdlNode::new("new");
            if bare { x.clear_format() }
            match k {
                0 => d.nodes_mut().push(x),
                1 => d.nodes_mut().insert(0, x),
                2 => { let Some(n) = d.nodes_mut().last_mut() else { return }; n.ensure_children().nodes_mut().push(x) }
                3 => { let Some(n) = d.nodes_mut().last_mut() else { return }; n.ensure_children().nodes_mut().insert(0, x) }
                4 => { let Some(n) = d.nodes_mut().last_mut() else { return }; n.push(some_entry()) }
                5 => { let Some(n) = d.nodes_mut().last_mut() else { return }; n.insert(0, 5); n.insert("k", 6); }
                _ => { let Some(n) = d.nodes_mut().last_mut() else { return }; if n.entries().is_empty() { return } n.entries_mut().remove(0); }
            }
            doc_back(&d)
        }
        3 => { let mut d = some_doc(0, 1, 3); reach(1); d.autoformat(); doc_back(&d) }
        4 => { let mut d = KdlDocument::new(); d.nodes_mut().push(some_node(1, 1)); reach(1); if choose(2) == 1 { d.autoformat() } else { d.clear_format_recursive() } doc_back(&d) }
        5 => { let n = some_node(0, 2); reach(1); node_back(&n) }
        6 => { let mut d = some_doc(0, 2, 2); d.nodes_mut().push(KdlNode::new("z")); reach(1); doc_back(&d) }
        _ => { let mut d = KdlDocument::new(); d.nodes_mut().push(some_node(2, 1)); reach(1); doc_back(&d) }
    }
}
