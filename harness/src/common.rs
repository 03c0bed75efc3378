//! Shared helpers: equality of meaning, ignoring formatting and spans.
use kdl::*;
pub fn id_same(a: Option<&KdlIdentifier>, b: Option<&KdlIdentifier>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.value() == y.value(), _ => false }
}
pub fn val_same(a: &KdlValue, b: &KdlValue) -> bool {
    match (a, b) {
        (KdlValue::String(x), KdlValue::String(y)) => x == y,
        (KdlValue::Integer(x), KdlValue::Integer(y)) => x == y,
        (KdlValue::Float(x), KdlValue::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (KdlValue::Bool(x), KdlValue::Bool(y)) => x == y,
        (KdlValue::Null, KdlValue::Null) => true,
        _ => false,
    }
}
pub fn entry_same(a: &KdlEntry, b: &KdlEntry) -> bool { id_same(a.name(), b.name()) && id_same(a.ty(), b.ty()) && val_same(a.value(), b.value()) }
pub fn node_same(a: &KdlNode, b: &KdlNode) -> bool {
    if !id_same(a.ty(), b.ty()) || a.name().value() != b.name().value() || a.entries().len() != b.entries().len() { return false; }
    for (x, y) in a.entries().iter().zip(b.entries()) { if !entry_same(x, y) { return false; } }
    match (a.children(), b.children()) { (None, None) => true, (Some(x), Some(y)) => doc_same(x, y), _ => false }
}
pub fn doc_same(a: &KdlDocument, b: &KdlDocument) -> bool {
    if a.nodes().len() != b.nodes().len() { return false; }
    for (x, y) in a.nodes().iter().zip(b.nodes()) { if !node_same(x, y) { return false; } }
    true
}
