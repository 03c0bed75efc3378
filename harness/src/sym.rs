//! The interface between a harness and whatever runs it: the symbolic
//! executor intercepts these by name; the native replay binary defines them.
unsafe extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u64() -> u64;
    fn sym_assume(c: bool);
    fn sym_fail(code: i32);
    fn sym_reach(id: i32);
    fn sym_expect_panic(code: i32);
    fn sym_concretize(p: *mut u8, n: usize);
}
pub fn u8() -> u8 { unsafe { sym_u8() } }
pub fn u16() -> u16 { unsafe { sym_u16() } }
pub fn u64() -> u64 { unsafe { sym_u64() } }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
/// Record a violation with a code and stop this path.
pub fn fail(code: i32) -> ! { unsafe { sym_fail(code) }; loop {} }
/// Reachability witness.
pub fn reach(id: i32) { unsafe { sym_reach(id) } }
pub fn expect_panic(code: i32) { unsafe { sym_expect_panic(code) } }
pub fn check(c: bool, code: i32) { if !c { fail(code) } }

/// A choice in 0..n.
pub fn choose(n: u8) -> u8 { let mut x = u8(); assume(x < n); unsafe { sym_concretize(&mut x, 1) } x }

/// KDL-significant alphabet.
pub fn in_alphabet(c: u16) -> bool {
    let mut r = false;
    for a in "ab0 \n\r\t\"\\{}()=;#/*-+._r~xn\u{feff}\u{2028}\u{3000}\u{85}\u{e9}".encode_utf16() { r |= a == c; }
    r
}

pub fn chr(kind: u8) -> char {
    match kind {
        b'A' => { let x = u8(); assume(x < 128); x as char }
        b'9' => { let x = u8(); assume((x >= b'0') & (x <= b'9')); x as char }
        b'B' => { let x = u16(); assume((x < 0xd800) | (x > 0xdfff)); unsafe { char::from_u32_unchecked(x as u32) } }
        b'S' => { let x = u16(); unsafe { char::from_u32_unchecked(0x10000 + x as u32) } }
        b'K' => { let x = u16(); assume(in_alphabet(x)); unsafe { char::from_u32_unchecked(x as u32) } }
        _ => panic!("hole kind"),
    }
}

/// Symbolic choice between whole pieces of text.
fn pieces(k: char) -> Option<&'static [&'static str]> {
    Some(match k {
        'T' => &["", " ", "\n", ";", "/*c*/", "//c\n", "\\\n", "/-x ", "/-x\n", "/-{}"],
        'U' => &["", " ", "/*c*/", "\\ //c\n", "\n"],
        'L' => &["\n", "\r\n", "\r", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}"],
        'I' => &["", " ", "  ", "\t", "\u{3000}", "\\\n", " \\  \n "],
        'Q' => &["", "\"", "\"\"", "\"\"\"", "\"#", "\"\"\"#", "\"\"\"##", "\\\"", "#", "\\", "\\s"],
        'D' => &["", "0", "1", "_", "9", "00", "_5", "7f", "e1", "."],
        'G' => &["", "+", "-"],
        'V' => &["b", "\"b\"", "#\"b\"#", "1", "-1.50e+3", "#null", "(t)b", "0xFf", "#nan", "\"\"\"\n  b\n  \"\"\""],
        'W' => &["1", "\"b\"", "true", "null", "r\"b\"", "r#\"b\"\\c\"#", "(t)\"b\"", "\"a\\nb\"", "\"\n x\"", "\"x/\\/\"", "\"true\"", "\"\"", "0x1_F", "-1.50e+3", "\"r\"", "\"\\u{7f}\"", "r#\"\n \"\"\"x\"#", "\"#\"", "\"a b\""],
        'N' => &["a", "\"b\"", "true", "\"true\"", "\"a b\"", "r\"\\\"", "#", "\"\"", "-1", "inf", "a,b", "<", "\"\\n\"", "é", "\"]\""],
        'X' => &["1", "-1", "300", "1.5", "#true", "#false", "#null", "s", "\"\"", "A", "New"],
        'Y' => &["2", "s", "#null"],
        'P' => &["12", "25", "3276", "429496729", "922337203685477580", "1844674407370955161", "900719925474099"],
        'F' => &["a", "b", "c", "z"],
        'H' => &["A", "New", "Tup", "St", "a", "Z"],
        'R' => &["\"#0\"", "\"#@a\"", "\"#args\"", "\"#rest\"", "\"#type\"", "\"#name\"", "\"#1\""],
        '0' => &["127", "128", "-128", "-129", "255", "256", "32767", "-32769", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-0", "0.1", "1e30", "1e40", "1e400", "#inf", "#-inf", "-1.0", "0xff", "16777217", "2.0"],
        _ => return None,
    })
}

/// Instantiate a template: '§' + kind letter is a symbolic character.
pub fn text(t: &str) -> String {
    let mut s = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '§' {
            let k = it.next().unwrap();
            match pieces(k) { Some(l) => s.push_str(l[choose(l.len() as u8) as usize]), None => s.push(chr(k as u32 as u8)) }
        } else { s.push(c); }
    }
    note(&s);
    s
}

unsafe extern "C" { fn sym_note(p: *const u8, n: usize); }
/// Shown by the replay binary only.
pub fn note(s: &str) { unsafe { sym_note(s.as_ptr(), s.len()) } }
