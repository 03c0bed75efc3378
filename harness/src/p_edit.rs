//! One edit of a parsed document changes the text of that part only.
use crate::common::*;
use crate::p_parse::template;
use crate::sym::*;
use kdl::*;

pub const EDITS: &[&str] = &[
    "§Ta§U b§Uk=§U1§T\nb", "§Ta§Tb§Tc", "a 1 2 k=3§U\n§Tb", "(t§U)a (u)§U1§U\nb c", "a§U{§Tb 1§T}§U\nc", "a {b}§U;c§T", "a 1§U{b; c 2;}§T\nd", "§Ta", "a§T", "a 1;b 2;c k=3", "a §V §V", "a k=§V§U\nb", "a§U/-§Ux 1\nb", "a /-x§Uy /-{c}§U{d}§U\nb",
    "a {b {c 1}§U}\nd", "a {\n    b 1 // c\n    c 2\n}§T", "/-a\nb§U1\n/-c", "a \"x\"§Uk=#\"y\"#§U\n\"b c\" \"\"\"\n  z\n  \"\"\"", "a 1 \\\n §U2§U\n", "§U\n§Ta 1\n§T\nb 2§U", "a {}§U\nb {§T}", "a 1 k=2 k=3 1§U;b", "\u{feff}a 1§T", "a;§Lb§Lc", "a 0xff 1_000 1.50e3§U{b #true}", "a 1§U\\", "/-a§U\\", "a {b§U\\\n}", "a {}§U/-{b}", "(§Ut)§Ua (§Uu§U)1",
    "a /-\"\\n§A\"§T", "a /-#\"\\\"#§Tb",
];
fn tpl(scn: u32) -> &'static str { if scn / 1000 == 20 { EDITS[(scn % 1000) as usize] } else { template(scn) } }

fn count(d: &KdlDocument) -> usize { let mut c = 0; for n in d.nodes() { c += 1; if let Some(x) = n.children() { c += count(x) } } c }
fn nth<'a>(d: &'a mut KdlDocument, k: &mut usize) -> Option<&'a mut KdlNode> {
    for n in d.nodes_mut() {
        if *k == 0 { return Some(n) }
        *k -= 1;
        let inner = match n.children() { Some(x) => count(x), None => 0 };
        if *k < inner { return nth(n.children_mut().as_mut().unwrap(), k) }
        *k -= inner;
    }
    None
}
fn at(d: &mut KdlDocument, k: usize) -> &mut KdlNode { let mut k = k; match nth(d, &mut k) { Some(n) => n, None => fail(91) } }
/// (start of the node's text, end of its name, ends of its entries, start and end of its braces, end of its text)
struct Pos { start: usize, name: (usize, usize), entries: Vec<(usize, usize)>, block: Option<(usize, usize, usize)>, end: usize }
fn pos(n: &KdlNode) -> Pos {
    let f = n.format().unwrap();
    let name = (n.name().span().offset(), n.name().span().offset() + n.name().span().len());
    let ty = match n.ty() { Some(t) => 2 + f.before_ty_name.len() + f.after_ty_name.len() + f.after_ty.len() + t.to_string().len(), None => 0 };
    let start = name.0 - ty - f.leading.len();
    let mut x = name.1;
    let mut entries = vec![];
    for e in n.entries() { let l = e.to_string().len(); entries.push((x, x + l)); x += l; }
    let block = n.children().map(|c| (x, x + f.before_children.len(), x + f.before_children.len() + 2 + c.to_string().len()));
    Pos { start, name, entries, block, end: start + n.to_string().len() }
}
/// `t` is `a` + newlines or spaces + `x` + newlines or spaces + `b`
fn around(t: &str, a: &str, x: &str, b: &str) -> bool {
    if !t.starts_with(a) || !t.ends_with(b) || t.len() < a.len() + b.len() { return false }
    t[a.len()..t.len() - b.len()].trim_matches(['\n', ' ']) == x
}
/// 1 the result does not parse, 2 it means something else, 3 the text of another part changed
#[unsafe(no_mangle)]
pub extern "C" fn h_edit(scn: u32) {
    let s = text(tpl(scn));
    let Ok(mut d) = KdlDocument::parse_v2(&s) else { return };
    let n = count(&d);
    if n == 0 { return }
    let k = choose(n as u8) as usize;
    let p = pos(at(&mut d, k));
    if !s.is_char_boundary(p.start) || !s.is_char_boundary(p.end) { fail(92) }
    let cut = |a: usize, b: usize, x: &str| { let mut r = String::from(&s[..a]); r.push_str(x); r.push_str(&s[b..]); r };
    let ne = p.entries.len();
    let bt = at(&mut d, k).format().unwrap().before_terminator.len();
    let node = at(&mut d, k);
    reach(1);
    let mut want = String::new();
    let mut loose = None;
    match choose(13) {
        0 => { node.set_name("new"); want = cut(p.name.0, p.name.1, "new") }
        1 => { node.name_mut().set_value("new name"); want = cut(p.name.0, p.name.1, "\"new name\"") }
        2 => { // set a value
            if ne == 0 { return }
            let j = choose(ne as u8) as usize;
            let e = &mut node.entries_mut()[j];
            let f = e.format().unwrap();
            let (end, l) = (p.entries[j].1 - f.trailing.len(), f.value_repr.len());
            let x: KdlValue = match choose(3) { 0 => 7.into(), 1 => "x y".into(), _ => KdlValue::Null };
            e.set_value(x.clone());
            want = cut(end - l, end, &x.to_string());
        }
        3 => { // replace a property by its key, or set an argument through an entry
            let mut key = None;
            for (j, e) in node.entries().iter().enumerate() { if let Some(q) = e.name() { key = Some((j, q.value().to_string())) } }
            let Some((j, q)) = key else { return };
            let old = node.insert(q.as_str(), 7);
            if old.is_none() { fail(4) }
            want = cut(p.entries[j].0, p.entries[j].1, &format!(" {}=7", KdlIdentifier::from(q)));
        }
        4 => { // rename a property, or turn an argument into one
            if ne == 0 { return }
            let j = choose(ne as u8) as usize;
            let e = &mut node.entries_mut()[j];
            let f = e.format().unwrap();
            let a = p.entries[j].0 + f.leading.len();
            let (b, x) = match e.name() { Some(q) => (a + q.to_string().len(), "new"), None => (a, "new=") };
            e.set_name(Some("new"));
            want = cut(a, b, x);
        }
        5 => { // push an entry
            node.push(("new", "x y"));
            let a = match p.entries.last() { Some(e) => e.1, None => p.name.1 };
            want = cut(a, a, " new=\"x y\"");
        }
        6 => { // insert an argument
            let args: Vec<usize> = node.entries().iter().enumerate().filter(|(_, e)| e.name().is_none()).map(|(j, _)| j).collect();
            let i = choose(args.len() as u8 + 1) as usize;
            node.insert(i, "new");
            let a = if i < args.len() { p.entries[args[i]].0 } else { match p.entries.last() { Some(e) => e.1, None => p.name.1 } };
            want = cut(a, a, " new");
        }
        7 => { // remove an entry
            if ne == 0 { return }
            let j = choose(ne as u8) as usize;
            node.entries_mut().remove(j);
            want = cut(p.entries[j].0, p.entries[j].1, "");
        }
        8 => { // remove a node: the top ones
            if k >= d.nodes().len() { return }
            let p = pos(&d.nodes()[k]);
            d.nodes_mut().remove(k);
            want = cut(p.start, p.end, "");
        }
        9 => { // add a node at the top
            let i = choose(d.nodes().len() as u8 + 1) as usize;
            let a = if i < d.nodes().len() { pos(&d.nodes()[i]).start } else { pos(&d.nodes()[i - 1]).end };
            let x = if choose(2) == 0 { KdlNode::new("new") } else { let mut n = KdlNode::new("new"); n.clear_format(); n };
            d.nodes_mut().insert(i, x);
            loose = Some((a, a, "new"));
        }
        10 => { // remove the children block
            let Some((a, _, c)) = p.block else { return };
            node.clear_children();
            loose = Some((a, c, ""));
        }
        11 => { // put the nodes, or a node's entries, into another order
            if choose(2) == 0 { if d.nodes().len() < 2 { return } d.nodes_mut().reverse() }
            else { if ne < 2 { return } at(&mut d, k).entries_mut().reverse() }
            let t = d.to_string();
            note(&t);
            match KdlDocument::parse_v2(&t) { Ok(e) => check(doc_same(&e, &d), 2), Err(_) => fail(1) }
            return;
        }
        _ => { // give it a children block, or a further child
            match p.block {
                Some((_, b, c)) => {
                    let kids = node.ensure_children();
                    kids.nodes_mut().push(KdlNode::new("new"));
                    let tail = kids.format().map_or(0, |f| f.trailing.len());
                    let _ = b;
                    loose = Some((c - 1 - tail, c - 1 - tail, "new"));
                }
                None => {
                    node.ensure_children().nodes_mut().push(KdlNode::new("new"));
                    let a = match p.entries.last() { Some(e) => e.1, None => p.name.1 };
                    let t = d.to_string();
                    note(&t);
                    // whatever spacing, between the same texts
                    let kids = |m: &str| m.trim_start().starts_with('{') && m.contains("new") && m.ends_with('}');
                    let between = |a: usize| t.strip_prefix(&s[..a]).and_then(|x| x.strip_suffix(&s[a..]));
                    // slashdashed entries stay in front of the block
                    check(between(a).is_some_and(kids) || between(a + bt).is_some_and(kids), 3);
                    match KdlDocument::parse_v2(&t) { Ok(e) => check(doc_same(&e, &d), 2), Err(_) => fail(1) }
                    return;
                }
            }
        }
    }
    let t = d.to_string();
    note(&t);
    match loose {
        None => { note(&want); check(t == want, 3) }
        Some((a, b, x)) => check(around(&t, &s[..a], x, &s[b..]), 3),
    }
    match KdlDocument::parse_v2(&t) { Ok(e) => check(doc_same(&e, &d), 2), Err(_) => fail(1) }
    reach(2);
}
