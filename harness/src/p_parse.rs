use crate::sym::*;
use crate::templates::*;

pub use crate::templates::template;

#[unsafe(no_mangle)]
pub extern "C" fn h_roundtrip(scn: u32) {
    let s = text(template(scn));
    match kdl::KdlDocument::parse_v2(&s) {
        Ok(d) => { reach(1); check(d.to_string() == s, 1) }
        Err(e) => { reach(2); check(!e.diagnostics.is_empty(), 2) }
    }
}

// ----- conformance with the reference reader -----
use crate::refkdl::*;
use kdl::*;

fn val_eq(a: &KdlValue, b: &RVal) -> bool {
    match (a, b) {
        (KdlValue::String(x), RVal::Str(y)) => x == y,
        (KdlValue::Integer(x), RVal::Int(y)) => x == y,
        (KdlValue::Float(x), RVal::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (KdlValue::Bool(x), RVal::Bool(y)) => x == y,
        (KdlValue::Null, RVal::Null) => true,
        _ => false,
    }
}
fn opt_eq(a: Option<&KdlIdentifier>, b: &Option<String>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.value() == y, _ => false }
}
pub fn entry_eq(a: &KdlEntry, b: &REntry) -> bool { opt_eq(a.name(), &b.name) && opt_eq(a.ty(), &b.ty) && val_eq(a.value(), &b.val) }
pub fn node_eq(a: &KdlNode, b: &RNode) -> bool {
    if !opt_eq(a.ty(), &b.ty) || a.name().value() != b.name || a.entries().len() != b.entries.len() { return false; }
    for (x, y) in a.entries().iter().zip(&b.entries) { if !entry_eq(x, y) { return false; } }
    match (a.children(), &b.children) { (None, None) => true, (Some(x), Some(y)) => nodes_eq(x.nodes(), y), _ => false }
}
pub fn nodes_eq(a: &[KdlNode], b: &[RNode]) -> bool {
    if a.len() != b.len() { return false; }
    for (x, y) in a.iter().zip(b) { if !node_eq(x, y) { return false; } }
    true
}

/// 1: valid text rejected, 2: invalid text accepted, 3: accepted with the wrong tree
#[unsafe(no_mangle)]
pub extern "C" fn h_conform(scn: u32) {
    let s = text(template(scn));
    conform(&s);
}
pub fn conform(s: &str) {
    let mut p = P::new(s);
    let r = p.document();
    let k = KdlDocument::parse_v2(s);
    match (&r, &k) {
        (Ok(t), Ok(d)) => { reach(1); check(nodes_eq(d.nodes(), t), 3); reach(2) }
        (Err(_), Err(_)) => reach(3),
        (Ok(_), Err(_)) => check(p.loose, 1),
        (Err(_), Ok(_)) => check(p.loose, 2),
    }
}

