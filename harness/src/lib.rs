pub mod sym;
pub mod templates;
pub mod common;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod p_parse;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod p_fmt;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod p_parts;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod p_model;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod p_eq;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod p_build;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod p_edit;
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
pub mod refkdl;
#[cfg(feature = "se")]
pub mod p_serde;
#[cfg(feature = "de")]
pub mod p_de;
#[cfg(feature = "v1")]
pub mod p_v1;

pub type Entry = extern "C" fn(u32);
macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => { pub const ENTRIES: &[(&str, Entry)] = &[$((stringify!($f), $m::$f)),*]; } }
#[cfg(feature = "v1")]
entries!(p_v1::h_v1_to_v2, p_v1::h_v2_to_v1, p_v1::h_fallback, p_v1::h_fallback_part);
#[cfg(feature = "de")]
entries!(p_de::h_de);
#[cfg(feature = "se")]
entries!(
    p_serde::h_serde,
);
#[cfg(not(any(feature = "se", feature = "de", feature = "v1")))]
entries!(
    p_parse::h_roundtrip,
    p_parse::h_conform,
    p_fmt::h_autoformat,
    p_fmt::h_autoformat_nc,
    p_fmt::h_autoformat_cfg,
    p_fmt::h_clear,
    p_fmt::h_clear_one,
    p_parts::h_total,
    p_parts::h_conform_part,
    p_parts::h_span,
    p_model::h_node_ops,
    p_model::h_doc_ops,
    p_eq::h_eq,
    p_build::h_build_str,
    p_build::h_build_num,
    p_build::h_build_tree,
    p_edit::h_edit,
);
