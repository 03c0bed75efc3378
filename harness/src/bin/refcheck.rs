//! Validates the reference reader against files: prints ACCEPT/REJECT for the
//! reference and for kdl-rs, and whether the trees agree.
#[unsafe(no_mangle)] pub extern "C" fn sym_u8() -> u8 { 0 }
#[unsafe(no_mangle)] pub extern "C" fn sym_u16() -> u16 { 0 }
#[unsafe(no_mangle)] pub extern "C" fn sym_u64() -> u64 { 0 }
#[unsafe(no_mangle)] pub extern "C" fn sym_assume(_c: bool) {}
#[unsafe(no_mangle)] pub extern "C" fn sym_fail(_code: i32) {}
#[unsafe(no_mangle)] pub extern "C" fn sym_reach(_id: i32) {}
#[unsafe(no_mangle)] pub extern "C" fn sym_expect_panic(_c: i32) {}
#[unsafe(no_mangle)] pub extern "C" fn sym_note(_p: *const u8, _n: usize) {}
fn main() {
    for f in std::env::args().skip(1) {
        let Ok(s) = std::fs::read_to_string(&f) else { println!("{f} unreadable"); continue };
        let mut p = kdlsym::refkdl::P::new(&s);
        let r = p.document();
        let k = kdl::KdlDocument::parse_v2(&s);
        let same = match (&r, &k) { (Ok(t), Ok(d)) => kdlsym::p_parse::nodes_eq(d.nodes(), t), (Err(_), Err(_)) => true, _ => false };
        println!("{} ref={} kdl={} loose={} same={}", f, r.is_ok(), k.is_ok(), p.loose, same);
    }
}
