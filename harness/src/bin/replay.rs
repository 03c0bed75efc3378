//! Native replay: runs one harness entry on concrete values of the symbolic
//! variables, against the ordinary build of the real code.
//!   replay ENTRY SCENARIO v0,v1,...
//! Last line: OUTCOME done | assume | fail <code> | nopanic | panic
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::OnceLock;
static VALS: OnceLock<Vec<u64>> = OnceLock::new();
static IX: AtomicUsize = AtomicUsize::new(0);
static EXPECT: AtomicBool = AtomicBool::new(false);
fn next() -> u64 { let i = IX.fetch_add(1, Relaxed); VALS.get().unwrap().get(i).copied().unwrap_or(0) }
fn end(s: &str) -> ! { println!("OUTCOME {s}"); std::process::exit(0) }
#[unsafe(no_mangle)]
pub extern "C" fn sym_concretize(_p: *mut u8, _n: usize) {}
#[unsafe(no_mangle)] pub extern "C" fn sym_u8() -> u8 { next() as u8 }
#[unsafe(no_mangle)] pub extern "C" fn sym_u16() -> u16 { next() as u16 }
#[unsafe(no_mangle)] pub extern "C" fn sym_u64() -> u64 { next() }
#[unsafe(no_mangle)] pub extern "C" fn sym_assume(c: bool) { if !c { end("assume") } }
#[unsafe(no_mangle)] pub extern "C" fn sym_fail(code: i32) { end(&format!("fail {code}")) }
#[unsafe(no_mangle)] pub extern "C" fn sym_reach(id: i32) { println!("REACH {id}") }
#[unsafe(no_mangle)] pub extern "C" fn sym_expect_panic(_c: i32) { EXPECT.store(true, Relaxed) }
#[unsafe(no_mangle)] pub extern "C" fn sym_note(p: *const u8, n: usize) {
    let s = String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned();
    println!("NOTE {s:?}")
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let vals = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    VALS.set(vals).unwrap();
    std::panic::set_hook(Box::new(|i| {
        if EXPECT.load(Relaxed) { end("done") }
        println!("PANIC {}", i.to_string().replace('\n', " "));
        end("panic")
    }));
    let f = kdlsym::ENTRIES.iter().find(|e| e.0 == a[1]).expect("entry").1;
    f(a[2].parse().unwrap());
    end(if EXPECT.load(Relaxed) { "nopanic" } else { "done" })
}
