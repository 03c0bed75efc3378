//! Equality, ordering, hashing, conversions.
use crate::sym::*;
use kdl::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records what is hashed.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
fn h<T: Hash>(t: &T) -> Vec<u8> { let mut r = Rec(vec![]); t.hash(&mut r); r.0 }

fn int() -> i128 { ((u64() as u128) << 64 | u64() as u128) as i128 }
fn st() -> String { let mut s = String::new(); for _ in 0..choose(3) { s.push(chr(b'A')) } s }
const FLOATS: [f64; 16] = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 1e300, -1e300, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 9007199254740993.0];
/// what a value is, as plain data; floats through their bits
#[derive(Clone)]
enum W { S(String), I(i128), F(u64), B(bool), N }
fn any(floats: bool) -> W {
    match choose(5) {
        0 => W::S(st()),
        1 => W::I(int()),
        2 => W::F(if floats { u64() } else { FLOATS[choose(16) as usize].to_bits() }),
        3 => { let b = u8(); assume(b < 2); W::B(b == 1) }
        _ => W::N,
    }
}
fn kv(w: &W) -> KdlValue {
    match w { W::S(s) => KdlValue::String(s.clone()), W::I(i) => KdlValue::Integer(*i), W::F(b) => KdlValue::Float(f64::from_bits(*b)), W::B(b) => KdlValue::Bool(*b), W::N => KdlValue::Null }
}
/// the place of a float in the order: infinities with the largest finite values, not-a-number with zero
fn key(b: u64) -> i64 {
    let mag = b & !(1 << 63);
    let neg = b >> 63 == 1;
    let mag = if mag > 0x7ff0_0000_0000_0000 { 0 } else if mag == 0x7ff0_0000_0000_0000 { 0x7fef_ffff_ffff_ffff } else { mag };
    if neg { -(mag as i64) } else { mag as i64 }
}
fn rank(w: &W) -> u8 { match w { W::S(_) => 0, W::I(_) => 1, W::F(_) => 2, W::B(_) => 3, W::N => 4 } }
fn want(a: &W, b: &W) -> Ordering {
    match (a, b) {
        (W::S(a), W::S(b)) => {
            let (a, b) = (a.as_bytes(), b.as_bytes());
            let mut i = 0;
            loop {
                if i == a.len() || i == b.len() { return a.len().cmp(&b.len()) }
                if a[i] != b[i] { return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater } }
                i += 1;
            }
        }
        (W::I(a), W::I(b)) => if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater },
        (W::F(a), W::F(b)) => { let (a, b) = (key(*a), key(*b)); if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
        (W::B(a), W::B(b)) => (*a as u8).cmp(&(*b as u8)),
        _ => rank(a).cmp(&rank(b)),
    }
}
fn conv(x: KdlValue, w: &W, code: i32) {
    check(crate::common::val_same(&x, &kv(w)), code);
    check(x.as_string() == match w { W::S(s) => Some(s.as_str()), _ => None }, code);
    check(x.as_integer() == match w { W::I(i) => Some(*i), _ => None }, code);
    check(x.as_float().map(|f| f.to_bits()) == match w { W::F(b) => Some(*b), _ => None }, code);
    check(x.as_bool() == match w { W::B(b) => Some(*b), _ => None }, code);
    check(x.is_string() == (rank(w) == 0) && x.is_integer() == (rank(w) == 1) && x.is_float() == (rank(w) == 2) && x.is_bool() == (rank(w) == 3) && x.is_null() == (rank(w) == 4), code);
}
/// a name, sometimes with a spelling of its own
fn ident() -> (KdlIdentifier, String, Option<String>) {
    let v = chr(b'A').to_string();
    let mut i = KdlIdentifier::from(v.as_str());
    let mut r = None;
    if choose(2) == 1 { let s = chr(b'A').to_string(); i.set_repr(s.as_str()); r = Some(s); }
    (i, v, r)
}
fn fmts(e: &mut KdlEntry, k: u8) {
    let x = chr(b'A').to_string();
    let mut f = KdlEntryFormat::default();
    *(match k { 1 => &mut f.value_repr, 2 => &mut f.leading, 3 => &mut f.trailing, 4 => &mut f.after_ty, 5 => &mut f.before_ty_name, 6 => &mut f.after_ty_name, 7 => &mut f.after_key, _ => &mut f.after_eq }) = x;
    e.set_format(f);
}
/// Two things that agree exactly when `same`: equality, its symmetry, and hashing.
fn pair<T: PartialEq + Hash + Clone>(a: &T, b: &T, same: bool, code: i32) {
    check((a == b) == same, code);
    check((b == a) == same && (a != b) == !same, code);
    check(a.clone() == *a, code + 1);
    if same { check(h(a) == h(b), code + 2); reach(1) } else { reach(2) }
}

/// 0 equality and order of two values, 1 transitivity, 2 hashing, 3 identifiers, 4 entries, 5 nodes, 6 documents, 7 conversions, 8 names as keys
#[unsafe(no_mangle)]
pub extern "C" fn h_eq(scn: u32) {
    match scn {
        0 => {
            let (wa, wb) = (any(true), any(true));
            let (a, b) = (kv(&wa), kv(&wb));
            let o = want(&wa, &wb);
            let eq = o == Ordering::Equal;
            check((a == b) == eq, 1);
            check((b == a) == eq && (a != b) == !eq, 2);
            check(a == a && a == a.clone(), 3);
            check(a.partial_cmp(&b) == Some(o), 4);
            check(b.partial_cmp(&a) == Some(o.reverse()), 5);
            check((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater) && (a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less), 6);
            if eq { reach(1) } else { reach(2) }
        }
        1 => {
            let (wa, wb, wc) = (any(true), any(true), any(true));
            let (a, b, c) = (kv(&wa), kv(&wb), kv(&wc));
            if a == b && b == c { check(a == c, 10); reach(1) }
            if a < b && b < c { check(a < c, 11); reach(2) }
            if a == b && b < c { check(a < c, 12) }
        }
        2 => {
            let (wa, wb) = (any(false), any(false));
            let (a, b) = (kv(&wa), kv(&wb));
            if a == b { check(h(&a) == h(&b), 20); reach(1) } else { reach(2) }
            check(h(&a) == h(&a.clone()), 21);
        }
        3 => {
            let (mut a, va, ra) = ident();
            let (b, vb, rb) = ident();
            a.set_span((3, 4));
            pair(&a, &b, va == vb && ra == rb, 30);
        }
        4 => {
            let mk = || {
                let (v, k) = (chr(b'A') as u8 as i128, choose(3));
                let mut e = KdlEntry::new(v);
                let (mut n, mut t) = (None, None);
                if k == 1 { let (i, v, r) = ident(); e.set_name(Some(i)); n = Some((v, r)); }
                if k == 2 { let (i, v, r) = ident(); e.set_ty(i); t = Some((v, r)); }
                (e, v, n, t)
            };
            let (mut a, av, an, at) = mk();
            let (b, bv, bn, bt) = mk();
            a.set_span((3, 4));
            pair(&a, &b, av == bv && an == bn && at == bt, 40);
        }
        5 => { // formats of an entry
            let (k, l) = (choose(9), choose(9));
            let (mut a, mut b) = (KdlEntry::new(1), KdlEntry::new(1));
            if k > 0 { fmts(&mut a, k) }
            if l > 0 { fmts(&mut b, l) }
            let same = match (a.format(), b.format()) {
                (None, None) => true,
                (Some(f), Some(g)) => f.value_repr == g.value_repr && f.leading == g.leading && f.trailing == g.trailing && f.after_ty == g.after_ty && f.before_ty_name == g.before_ty_name && f.after_ty_name == g.after_ty_name && f.after_key == g.after_key && f.after_eq == g.after_eq,
                _ => false,
            };
            pair(&a, &b, same, 50);
        }
        6 => { // nodes
            let mk = || {
                let (i, v, r) = ident();
                let mut n = KdlNode::new(i);
                let k = choose(6);
                let mut x = String::new();
                match k {
                    1 => { x = chr(b'A').to_string(); n.set_ty(x.as_str()) }
                    2 => { x = chr(b'A').to_string(); n.push(x.as_str()) }
                    3 => { x = chr(b'A').to_string(); n.ensure_children().nodes_mut().push(KdlNode::new(x.as_str())); }
                    4 => { x = chr(b'A').to_string(); assume(x != "\n"); n.set_format(KdlNodeFormat { trailing: x.clone(), ..Default::default() }) }
                    5 => { n.ensure_children(); }
                    _ => {}
                }
                (n, v, r, k, x)
            };
            let (mut a, av, ar, ak, ax) = mk();
            let (b, bv, br, bk, bx) = mk();
            a.set_span((3, 4));
            let same = av == bv && ar == br && ak == bk && ax == bx;
            pair(&a, &b, same, 60);
            let (mut d, mut e) = (KdlDocument::new(), KdlDocument::new());
            d.nodes_mut().push(a); e.nodes_mut().push(b);
            d.set_span((1, 2));
            pair(&d, &e, same, 65);
        }
        7 => { // documents: order, number and format matter
            let mk = || {
                let mut d = KdlDocument::new();
                let mut names = vec![];
                for _ in 0..choose(3) { let c = chr(b'A').to_string(); d.nodes_mut().push(KdlNode::new(c.as_str())); names.push(c); }
                let k = choose(3);
                let mut x = String::new();
                if k == 1 { x = chr(b'A').to_string(); d.set_format(KdlDocumentFormat { leading: x.clone(), trailing: String::new() }) }
                if k == 2 { x = chr(b'A').to_string(); d.set_format(KdlDocumentFormat { leading: String::new(), trailing: x.clone() }) }
                (d, names, k, x)
            };
            let (a, an, ak, ax) = mk();
            let (b, bn, bk, bx) = mk();
            pair(&a, &b, an == bn && ak == bk && ax == bx, 70);
        }
        8 => { // conversions
            let i = int();
            conv(i.into(), &W::I(i), 80);
            conv(Some(i).into(), &W::I(i), 81);
            conv(None::<i128>.into(), &W::N, 82);
            let s = st();
            conv(s.as_str().into(), &W::S(s.clone()), 83);
            conv(s.clone().into(), &W::S(s.clone()), 84);
            conv(Some(s.clone()).into(), &W::S(s.clone()), 85);
            let b = u8() & 1 == 1;
            conv(b.into(), &W::B(b), 86);
            let f = u64();
            conv(f64::from_bits(f).into(), &W::F(f), 87);
            let e: KdlEntry = s.as_str().into();
            check(e.name().is_none() && e.ty().is_none() && e.format().is_none() && e.value().as_string() == Some(&s), 88);
            let e: KdlEntry = (s.as_str(), i).into();
            check(e.name().map(|n| n.value()) == Some(&s) && e.ty().is_none() && e.format().is_none() && e.value().as_integer() == Some(i), 88);
            let e = KdlEntry::new_prop(s.clone(), b);
            check(e.name().map(|n| n.value()) == Some(&s) && e.value().as_bool() == Some(b), 88);
            let x: KdlIdentifier = s.clone().into();
            check(x.value() == s && x.repr().is_none(), 89);
            let y: String = x.into();
            check(y == s, 89);
            reach(1); reach(2);
        }
        _ => { // keys
            let (s, t) = (st(), st());
            let (a, b): (NodeKey, NodeKey) = (s.as_str().into(), t.clone().into());
            check((a == b) == (s == t), 90);
            let (i, j) = (u64() as usize, u64() as usize);
            let (c, d): (NodeKey, NodeKey) = (i.into(), j.into());
            check((c == d) == (i == j) && a != c, 91);
            if s == t { reach(1) } else { reach(2) }
        }
    }
}
