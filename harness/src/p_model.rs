//! Lookup and mutation against a plain list model.
use crate::sym::*;
use kdl::*;

/// One-letter symbolic name.
fn nm() -> String { chr(b'A').to_string() }
/// An identifier for `n`, bare or with the text of another spelling.
fn spelt(n: &str, k: u8) -> KdlIdentifier {
    let mut i = KdlIdentifier::from(n);
    if k > 0 { i.set_repr(if k == 1 { "\"spelt\"" } else { "#\"spelt\"#" }); }
    i
}
fn same_id(a: Option<&KdlIdentifier>, b: Option<&KdlIdentifier>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.value() == b.value() && a.repr() == b.repr(), _ => false }
}
fn fmt_same(a: &KdlEntryFormat, b: &KdlEntryFormat) -> bool {
    a.value_repr == b.value_repr && a.leading == b.leading && a.trailing == b.trailing && a.after_ty == b.after_ty && a.before_ty_name == b.before_ty_name
        && a.after_ty_name == b.after_ty_name && a.after_key == b.after_key && a.after_eq == b.after_eq && a.autoformat_keep == b.autoformat_keep
}
/// Everything about an entry, formatting included.
fn same(a: &KdlEntry, b: &KdlEntry) -> bool {
    same_id(a.name(), b.name()) && same_id(a.ty(), b.ty()) && crate::common::val_same(a.value(), b.value())
        && match (a.format(), b.format()) { (None, None) => true, (Some(a), Some(b)) => fmt_same(a, b), _ => false }
}
fn osame(a: Option<&KdlEntry>, b: Option<&KdlEntry>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false } }
fn ovsame(a: Option<&KdlValue>, b: Option<&KdlValue>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => crate::common::val_same(a, b), _ => false } }

/// A fresh entry, the `i`-th made; argument or property by symbolic choice.
fn entry(i: i128, kind: u8) -> KdlEntry {
    let mut e = if kind == 0 { KdlEntry::new(i) } else { KdlEntry::new_prop(spelt(&nm(), (i % 3) as u8), i) };
    if i & 1 == 1 { e.set_format(KdlEntryFormat { leading: " ".repeat(i as usize), value_repr: i.to_string(), ..Default::default() }); e.set_ty("t"); }
    e
}
struct M { v: Vec<KdlEntry> }
impl M {
    fn by_name(&self, n: &str) -> Option<usize> {
        let mut r = None;
        for (i, e) in self.v.iter().enumerate() { if let Some(x) = e.name() { if x.value() == n { r = Some(i) } } }
        r
    }
    fn first(&self, n: &str) -> Option<usize> {
        for (i, e) in self.v.iter().enumerate() { if let Some(x) = e.name() { if x.value() == n { return Some(i) } } }
        None
    }
    fn by_idx(&self, k: usize) -> Option<usize> {
        let mut c = 0;
        for (i, e) in self.v.iter().enumerate() { if e.name().is_none() { if c == k { return Some(i) } c += 1; } }
        None
    }
    fn args(&self) -> usize { self.v.iter().filter(|e| e.name().is_none()).count() }
}
fn agree(n: &KdlNode, m: &M, code: i32) {
    check(n.len() == m.v.len() && n.is_empty() == m.v.is_empty() && n.entries().len() == m.v.len(), code);
    for (a, b) in n.entries().iter().zip(&m.v) { check(same(a, b), code); }
    let mut c = 0;
    for a in n.iter() { check(c < m.v.len() && same(a, &m.v[c]), code); c += 1; }
    check(c == m.v.len(), code);
    // the rest of the node is not touched
    check(n.name().value() == "node" && n.ty().map(|t| t.value()) == Some("ty") && n.children().is_some_and(|d| d.nodes().len() == 1 && d.nodes()[0].name().value() == "child"), code + 1);
    check(n.format().is_some_and(|f| f.leading == "/*l*/" && f.terminator == ";" && f.before_children == "  "), code + 1);
}
/// 40 lookup by name, 41 lookup by index
fn observe(n: &mut KdlNode, m: &M) {
    if choose(2) == 0 {
        let q = nm();
        let want = m.by_name(&q).map(|i| &m.v[i]);
        check(osame(n.entry(q.as_str()), want), 40);
        check(ovsame(n.get(q.as_str()), want.map(|e| e.value())), 40);
        check(osame(n.entry_mut(q.clone()).as_deref(), want), 40);
        check(ovsame(n.get_mut(q.as_str()).as_deref(), want.map(|e| e.value())), 40);
        check(ovsame(n.get(NodeKey::Key(spelt(&q, 2))), want.map(|e| e.value())), 40);
        if want.is_some() { check(ovsame(Some(&n[q.as_str()]), want.map(|e| e.value())), 40); reach(2) }
    } else {
        let k = u8() as usize;
        let want = m.by_idx(k).map(|i| &m.v[i]);
        check(osame(n.entry(k), want), 41);
        check(ovsame(n.get(k), want.map(|e| e.value())), 41);
        check(osame(n.entry_mut(k).as_deref(), want), 41);
        check(ovsame(n.get_mut(k).as_deref(), want.map(|e| e.value())), 41);
        if want.is_some() { check(ovsame(Some(&n[k]), want.map(|e| e.value())), 41); }
    }
}
/// One mutation; what it returns is checked here, what it leaves by the caller.
fn mutate(op: u32, n: &mut KdlNode, m: &mut M, fresh: i128) {
    match op {
        0 => {}
        1 => { // insert by name, entry without a name
            let q = nm();
            let mut e = KdlEntry::new(fresh);
            e.set_ty("new");
            let k = choose(2);
            let r = if k == 0 { n.insert(q.as_str(), e.clone()) } else { n.insert(NodeKey::Key(spelt(&q, 1)), e.clone()) };
            let mut named = e; named.set_name(Some(if k == 0 { KdlIdentifier::from(q.as_str()) } else { spelt(&q, 1) }));
            match m.by_name(&q) {
                Some(i) => { let old = std::mem::replace(&mut m.v[i], named); check(osame(r.as_ref(), Some(&old)), 10); reach(3) }
                None => { m.v.push(named); check(r.is_none(), 10) }
            }
        }
        2 => { // insert by name, named entry
            let e = entry(fresh, 1);
            let q = e.name().unwrap().value().to_string();
            let r = n.insert(q.as_str(), e.clone());
            match m.by_name(&q) {
                Some(i) => { let old = std::mem::replace(&mut m.v[i], e); check(osame(r.as_ref(), Some(&old)), 11); reach(3) }
                None => { m.v.push(e); check(r.is_none(), 11) }
            }
        }
        3 => { // insert by index
            let k = u8() as usize;
            let e = entry(fresh, 0);
            if k > m.args() { reach(4); expect_panic(12); n.insert(k, e); return; }
            let r = n.insert(k, e.clone());
            check(r.is_none(), 12);
            match m.by_idx(k) { Some(i) => m.v.insert(i, e), None => m.v.push(e) }
        }
        4 => { // remove by name
            let q = nm();
            let r = if choose(2) == 0 { n.remove(q.as_str()) } else { n.remove(NodeKey::Key(spelt(&q, 2))) };
            match m.first(&q) {
                Some(i) => { let old = m.v.remove(i); check(osame(r.as_ref(), Some(&old)), 13); reach(5) }
                None => check(r.is_none(), 13),
            }
        }
        5 => { // remove by index
            let k = u8() as usize;
            match m.by_idx(k) {
                Some(i) => { let r = n.remove(k); let old = m.v.remove(i); check(osame(r.as_ref(), Some(&old)), 14); reach(5) }
                None => { reach(4); expect_panic(14); n.remove(k); }
            }
        }
        6 => { // push
            match choose(3) {
                0 => { let e = entry(fresh, choose(2)); n.push(e.clone()); m.v.push(e); }
                1 => { n.push(fresh); m.v.push(KdlEntry::new(fresh)); }
                _ => { let q = nm(); n.push((q.as_str(), fresh)); m.v.push(KdlEntry::new_prop(q, fresh)); }
            }
        }
        7 => { // get_mut and friends write to the entry they name and no other
            let v = KdlValue::Integer(fresh);
            match choose(6) {
                0 => { let q = nm(); match (n.get_mut(q.as_str()), m.by_name(&q)) { (Some(p), Some(i)) => { *p = v.clone(); *m.v[i].value_mut() = v } (None, None) => {} _ => fail(15) } }
                1 => { let k = u8() as usize; match (n.get_mut(k), m.by_idx(k)) { (Some(p), Some(i)) => { *p = v.clone(); *m.v[i].value_mut() = v } (None, None) => {} _ => fail(15) } }
                2 => { let q = nm(); match (n.entry_mut(q.as_str()), m.by_name(&q)) { (Some(p), Some(i)) => { p.set_ty("x"); *p.value_mut() = v.clone(); m.v[i].set_ty("x"); *m.v[i].value_mut() = v } (None, None) => {} _ => fail(15) } }
                3 => { let k = u8() as usize; match (n.entry_mut(k), m.by_idx(k)) { (Some(p), Some(i)) => { p.clear_format(); m.v[i].clear_format() } (None, None) => {} _ => fail(15) } }
                4 => { // indexing by name makes a missing property
                    let q = nm();
                    if m.by_name(&q).is_none() { m.v.push(KdlEntry::new_prop(q.as_str(), KdlValue::Null)); }
                    let i = m.by_name(&q).unwrap();
                    let p = &mut n[q.as_str()];
                    check(ovsame(Some(p), Some(m.v[i].value())), 15);
                    *p = v.clone(); *m.v[i].value_mut() = v;
                }
                _ => { let k = u8() as usize; match m.by_idx(k) { Some(i) => { n[k] = v.clone(); *m.v[i].value_mut() = v } None => { reach(4); expect_panic(15); n[k] = v; } } }
            }
        }
        8 => { // retain, clear
            match choose(3) {
                0 => { let b = u8() as i128; n.retain(|e| e.value().as_integer().unwrap() < b); m.v.retain(|e| e.value().as_integer().unwrap() < b); }
                1 => { let q = nm(); n.retain(|e| e.name().map(|x| x.value()) != Some(q.as_str())); m.v.retain(|e| match e.name() { Some(x) => x.value() != q, None => true }); }
                _ => { n.clear(); m.v = vec![]; }
            }
        }
        9 => { // sorting is stable
            let key = |e: &KdlEntry| match e.name() { Some(x) => x.value().as_bytes()[0], None => 0 };
            if choose(2) == 0 { n.sort_by_key(key) } else { n.sort_by(|a, b| key(a).cmp(&key(b))) }
            // insertion sort of the model
            let mut out: Vec<KdlEntry> = vec![];
            for e in m.v.drain(..) { let mut j = out.len(); while j > 0 && key(&out[j - 1]) > key(&e) { j -= 1; } out.insert(j, e); }
            m.v = out;
        }
        10 => { // misuse
            if choose(2) == 0 { let q = nm(); let e = entry(fresh, 1); if e.name().unwrap().value() == q { return; } reach(4); expect_panic(16); n.insert(q.as_str(), e); }
            else { let k = u8() as usize; let e = entry(fresh, 1); reach(4); expect_panic(16); n.insert(k, e); }
        }
        _ => { // through the entries themselves
            match choose(3) {
                0 => { let i = u8() as usize; for (j, e) in n.iter_mut().enumerate() { if j == i { e.set_name(None::<KdlIdentifier>); } } if i < m.v.len() { m.v[i].set_name(None::<KdlIdentifier>); } }
                1 => { let i = u8() as usize; let q = nm(); if i < m.v.len() { n.entries_mut()[i].set_name(Some(q.as_str())); m.v[i].set_name(Some(q)); } }
                _ => { let i = u8() as usize; let q = nm(); if let Some(x) = n.entries_mut().get_mut(i).and_then(|e| e.name_mut()) { x.set_value(q.as_str()); let y = m.v[i].name_mut().unwrap(); *y = spelt(&q, 0); } }
            }
        }
    }
}
fn node() -> KdlNode {
    let mut n = KdlNode::new("node");
    n.set_ty("ty");
    let mut d = KdlDocument::new();
    d.nodes_mut().push(KdlNode::new("child"));
    n.set_children(d);
    n.set_format(KdlNodeFormat { leading: "/*l*/".into(), terminator: ";".into(), before_children: "  ".into(), ..Default::default() });
    n
}
/// scn = len * 10000 + second operation * 100 + first operation.
/// 10..16 an operation returned the wrong thing, 20/21 it left the wrong thing, 30/31 after the second operation, 40/41 lookup
#[unsafe(no_mangle)]
pub extern "C" fn h_node_ops(scn: u32) {
    let mut n = node();
    let mut m = M { v: vec![] };
    for i in 0..scn / 10000 { let e = entry(i as i128, choose(2)); n.entries_mut().push(e.clone()); m.v.push(e); }
    mutate(scn % 100, &mut n, &mut m, 5);
    agree(&n, &m, 20);
    if scn / 100 % 100 > 0 { mutate(scn / 100 % 100, &mut n, &mut m, 6); agree(&n, &m, 30); }
    reach(1);
    observe(&mut n, &m);
}

/// Documents: a list of nodes whose names are symbolic, each with entries chosen symbolically.
/// 1 get, 2 get_mut, 3 get_arg, 4 iter_args, 5 get_arg_mut, 6 iter_dash_args, 7 iteration, 8 nodes_mut, 9 children of a node
#[unsafe(no_mangle)]
pub extern "C" fn h_doc_ops(scn: u32) {
    let mut d = KdlDocument::new();
    let mut args: Vec<Vec<i128>> = vec![];
    let mut names: Vec<String> = vec![];
    let len = scn / 100;
    for i in 0..len {
        let q = nm();
        let mut n = KdlNode::new(spelt(&q, (i % 3) as u8));
        names.push(q);
        let mut a = vec![];
        let id = (i as i128 + 1) * 10;
        match choose(4) {
            0 => {}
            1 => { n.push(id); a.push(id) }
            2 => { n.push(("p", id + 1)); n.push(id + 2); n.push(("q", 1)); n.push(id + 3); a.extend([id + 2, id + 3]) }
            _ => n.push(("p", id + 1)),
        }
        args.push(a);
        d.nodes_mut().push(n);
    }
    let q = nm();
    let mut hit = None;
    for (i, n) in names.iter().enumerate() { if hit.is_none() && *n == q { hit = Some(i); } }
    match scn % 100 {
        0 => {
            let a = d.get(&q).map(|n| n as *const KdlNode);
            check(a == hit.map(|i| &d.nodes()[i] as *const KdlNode), 1);
            let w = hit.map(|i| &d.nodes()[i] as *const KdlNode);
            check(d.get_mut(&q).map(|n| n as *const KdlNode) == w, 2);
            if hit.is_some() { reach(1) } else { reach(2) }
        }
        1 => {
            let want: &[i128] = match hit { Some(i) => &args[i], None => &[] };
            check(d.get_arg(&q).map(|v| v.as_integer()) == want.first().map(|v| Some(*v)), 3);
            let got: Vec<Option<i128>> = d.iter_args(&q).map(|v| v.as_integer()).collect();
            check(got.len() == want.len(), 4);
            for (a, b) in got.iter().zip(want) { check(*a == Some(*b), 4); }
            match (d.get_arg_mut(&q), want.first()) { (Some(p), Some(_)) => { *p = KdlValue::Integer(77); check(d.get_arg(&q).and_then(|v| v.as_integer()) == Some(77), 5); reach(1) } (None, None) => reach(2), _ => fail(5) }
            for (i, n) in d.nodes().iter().enumerate() {
                let got: Vec<i128> = n.entries().iter().filter(|e| e.name().is_none()).map(|e| e.value().as_integer().unwrap()).collect();
                let mut w = args[i].clone();
                if hit == Some(i) && !w.is_empty() { w[0] = 77; }
                check(got == w, 5);
            }
        }
        2 => { // iter_dash_args of a node whose children are the list
            let mut out = KdlDocument::new();
            let o = nm();
            let mut n = KdlNode::new(o.as_str());
            n.set_children(d);
            if choose(2) == 0 { out.nodes_mut().push(KdlNode::new("b")); }
            let shadowed = out.nodes().len() == 1 && o == "b";
            out.nodes_mut().push(n);
            let mut want = vec![];
            if o == q && !shadowed { for (i, nme) in names.iter().enumerate() { if nme == "-" && !args[i].is_empty() { want.push(args[i][0]); } } }
            let got: Vec<i128> = out.iter_dash_args(&q).map(|v| v.as_integer().unwrap()).collect();
            check(got == want, 6);
            if want.is_empty() { reach(2) } else { reach(1) }
        }
        3 => { // iteration in order
            let mut c = 0;
            for n in &d { check(c < names.len() && n.name().value() == names[c], 7); c += 1; }
            check(c == names.len(), 7);
            c = 0;
            for n in &mut d { check(n.name().value() == names[c], 7); n.set_name(format!("n{c}")); c += 1; }
            check(c == names.len(), 7);
            for (i, n) in d.into_iter().enumerate() {
                check(n.name().value() == format!("n{i}"), 7);
                let got: Vec<i128> = n.entries().iter().filter(|e| e.name().is_none()).map(|e| e.value().as_integer().unwrap()).collect();
                check(got == args[i], 7);
                c -= 1;
            }
            check(c == 0, 7);
            reach(1); reach(2);
        }
        4 => { // children of a node
            let mut n = KdlNode::new(spelt(&q, 1));
            n.push(1); n.set_ty("t");
            check(n.children().is_none() && n.iter_children().next().is_none() && n.iter_children_mut().next().is_none(), 9);
            match choose(3) { 0 => n.set_children(d), 1 => *n.children_mut() = Some(d), _ => { for x in d { n.ensure_children().nodes_mut().push(x); } } }
            if len > 0 { check(n.children().is_some(), 9); }
            let mut c = 0;
            for x in n.iter_children() { check(c < names.len() && x.name().value() == names[c], 9); c += 1; }
            check(c == names.len(), 9);
            for x in n.iter_children_mut() { x.set_ty("z"); }
            n.ensure_children();
            let d2 = n.children().unwrap();
            check(d2.nodes().len() == names.len(), 9);
            for (i, x) in d2.nodes().iter().enumerate() { check(x.name().value() == names[i] && x.ty().is_some_and(|t| t.value() == "z"), 9); }
            check(n.name().value() == q && n.ty().is_some_and(|t| t.value() == "t") && n.len() == 1, 9);
            n.clear_children();
            check(n.children().is_none() && n.name().value() == q && n.len() == 1, 9);
            n.set_name(spelt("other", 0));
            check(n.name().value() == "other" && n.ty().is_some_and(|t| t.value() == "t"), 9);
            n.name_mut().set_value("third");
            check(n.name().value() == "third" && n.name().repr().is_none(), 9);
            *n.ty_mut() = None;
            check(n.ty().is_none() && n.len() == 1, 9);
            reach(1); reach(2);
        }
        _ => { // clear_format of a document leaves its nodes alone
            d.set_format(KdlDocumentFormat { leading: "//x\n".into(), trailing: "\n".into() });
            for n in d.nodes_mut() { n.set_format(KdlNodeFormat { leading: " ".into(), terminator: ";".into(), ..Default::default() }); }
            let c = d.clone();
            d.clear_format();
            check(d.format().is_none() && c.format().is_some_and(|f| f.leading == "//x\n" && f.trailing == "\n"), 8);
            check(d.nodes().len() == names.len(), 8);
            for (i, n) in d.nodes().iter().enumerate() { check(n.name().value() == names[i] && n.name().repr() == c.nodes()[i].name().repr() && n.format().is_some_and(|f| f.leading == " " && f.terminator == ";"), 8); }
            d.clear_format_recursive();
            for (i, n) in d.nodes().iter().enumerate() { check(n.name().value() == names[i] && n.name().repr().is_none() && n.format().is_none(), 8); check(n.entries().len() == c.nodes()[i].entries().len(), 8); }
            reach(1); reach(2);
        }
    }
}
