//! Symbolic input families.  '§' + kind is one symbolic character:
//! A any ASCII, B any BMP scalar, S any plane-1 scalar, K the KDL-significant alphabet;
//! T, U trivia, L newline, I indentation, Q quotes, D digits, G sign, V value: one of the pieces in sym.rs.

/// document structure: nodes, entries, types, children, terminators
pub const STRUCT: &[&str] = &[
    "§A", "§B", "§S", "§A§A", "§A§A§A", "§K§K§K",
    "a§A§A", "a§A§Ab", "a§K§K§K", "a §K§K§K", "a §K§K§Kb",
    "a b§A§A", "a b§A§Ac", "a b§K§K§Kc", "a b=§A§A", "a b=§A§Ac", "a b§A=§Ac", "a b=c§A§Ad",
    "a=§A§A", "a \"b\"§A§A", "a \"b\"§A§Ac", "a 1§A§A", "a 1§A§Ab", "a #true§A§Ab", "a #null§A§A",
    "(§A§A)a", "(b)§A§Aa", "(b§A)§Aa", "§A(b)a§A", "a (b)§A§Ac", "a (§Ab§A)c", "a (b)c=§A§A", "a b=(c)§A§Ad", "a b=(§A§A)d",
    "a{§A§A}", "a {§A§A}", "a {b§A§A}", "a {b§A§Ac}", "a {§A}§Ab", "a {}§A§A", "a {}§A§Ab", "a {b}§A§Ac", "a§A{}§Ab", "a {b {§A§A}}", "a {b {}§A§A}", "a b {c§A}§Ad",
    "a;§A§A", "a;§A§Ab", "a\n§A§Ab", "a §A;§Ab", "a b§A;§Ac", "{§A§A}", "}§A§A", "a }§A§A", "a {\n§A§A}",
    "§B§B", "a§B§B", "a§Bb", "a §B§Bb", "a b§Bc", "a b=§Bc", "a {§Bb}", "a {}§Bb", "(§B)a", "a§B{}", "a\n§Bb",
];

/// slashdash, comments, escaped newlines, byte order mark, version marker
pub const COMMENTS: &[&str] = &[
    "/-§A§A", "/-a§A§Ab", "/-§Aa§Ab", "a /-§A§Ab", "a /-b§A§Ac", "a /-§Ab§Ac", "a§A/-b§Ac", "a /-b=§A§Ac", "a /-b=c§A§Ad",
    "a /-{§A}§Ab", "a /-{}§A§A", "a /-{}§A§Ab", "a§A/-{}§A{}", "a /-{} {}§A§Ab", "a {}§A/-{}§A", "a {} /-{}§A§Ab", "a /-b /-c§A§Ad", "a /-b /-{}§A{}", "a b /-c§A§A{}",
    "a {/-§A§A}", "a {/-b§A§A}", "a {b /-§Ac§A}", "/-a {}§A§Ab", "/-a {b}§A§Ac", "/-a /-b§A§Ac", "/-(b)a§A§Ac", "/-\"a\"§A§A", "/-a\n§A/-b§A", "a\n/-§A§Ab",
    "//§A§A", "//§A§Aa", "a//§A§Ab", "a //§A\n§Ab", "a b//§A§Ac", "a {//§A§A}", "a {}//§A§Ab", "//a\n§A§A",
    "/*§A§A*/", "/*§A§A*/a", "a/*§A*/§Ab", "a /*§A*/§Ab", "a b=/*§A*/§Ac", "a b/*§A*/=§Ac", "a /*/*§A*/§A*/ b", "a /*§A§A", "/**§A§A", "(/*§A*/b§A)a", "a {/*§A§A*/}", "a /*b*/§A§A{}",
    "a \\§A§A", "a \\§A§Ab", "a\\§A§Ab", "a \\\n§A§Ab", "a \\ §A\n§Ab", "a \\//§A\n§Ab", "a \\/*§A*/§Ab", "a b \\\n§A{§A}", "\\§A§Aa", "a b=\\§A§Ac", "a b\\\n§A=c§A", "/-\\§A§Aa", "a \\\n\\§A§Ab",
    "\u{feff}§A§A", "§A\u{feff}a", "a\u{feff}§A", "\u{feff}§Ba", "a \\§B§Bb", "//§B§Ba", "/*§B§B*/a", "a /-§B§Bb", "/-§B§Ba",
    "/- kdl-version 2§A§A", "/-§Akdl-version§A2\n", "/-kdl-version 2\n§Aa",
];

/// strings and identifiers
pub const STRINGS: &[&str] = &[
    "\"§A§A\"", "\"§A§A§A\"", "\"\\§A§A\"", "\"a\\§A§Ab\"", "a \"§A\\§Ab\"", "\"§B§B\"", "\"§Ba\"", "\"\\§B\"", "\"\\§B§Ba\"", "\"§S\"",
    "\"\\u{§A}\"", "\"\\u{§A§A}\"", "\"\\u{d§A§A0}\"", "\"\\u{1§A§A000}\"", "\"\\u{§A0§A000}\"", "\"\\u{00§A§A41}\"", "\"\\u{000§A§A41}\"", "\"\\u§A41§A\"", "\"\\u{41§A§A",
    "\"\"\"§A§A\"\"\"", "\"\"\"\n§A§A\"\"\"", "\"\"\"\n§A§A\n\"\"\"", "\"\"\"\n§Aa\n§A\"\"\"", "\"\"\"\n §Aa\n§A \"\"\"", "\"\"\"\n§A§Aa\n  \"\"\"", "\"\"\"\n  a\n§A§A\"\"\"", "\"\"\"\n  a\n§A§A\n  \"\"\"", "\"\"\"\n a\\§A§A\n \"\"\"", "\"\"\"\n a\\\n§A§A\"\"\"", "\"\"\"\n a§A\"\"§A\n \"\"\"", "\"\"\"§Aa§A\"\"\"", "\"\"\"\n a§A§A b\n \"\"\"", "\"\"\"\n\\§A§Aa\n\"\"\"", "\"\"\"\n a\n \\§A§A\"\"\"", "\"\"\"\n§K§K§K\"\"\"", "\"\"\"\n a\n§K§K§K\"\"\"",
    "#\"§A§A\"#", "#\"§A\"§A#", "#\"a\"§A§A", "##\"§A\"#§A", "##\"a\"§A§A\"##", "#§A§A#", "#§A\"a\"§A#", "#\"\"\"\n§A§A\n\"\"\"#", "#\"\"\"\n§Aa\n§A\"\"\"#", "#\"\"\"\n  a\n§A§A\"\"\"#", "#\"\"\"§A§A\"\"\"#", "#\"\"\"\n a§A\"\"\"§A\n \"\"\"#", "##\"\"\"\n§A\"\"\"#§A\n\"\"\"##", "#\"\"\"\n§K§K§K\"\"\"#", "#\"§B§B\"#", "#\"\"\"\n§Ba\n§B\"\"\"#",
    "\"\"\"\n§Ba\n§B\"\"\"", "\"\"\"§Ba§B\"\"\"", "\"\"\"\na§B§B\"\"\"",
    "§A§A a", "§A.§A", "+§A§A", "-§A§A", ".§A§A", "+.§A§A", "a §A.§A", "a +§A§A", "a -.§A", "a .§A§A", "tru§A", "a nul§A", "a §Anf", "a -in§A", "a i§Af", "a na§A", "§Btrue", "a true§B", "a§B", "a §B", "a -§B", "a +.§B", "r\"§A§A\"", "r#\"a§A§A", "\"\\u{00000§A§A§A}\"", "a \"\\u{§A§A00041§A}\"",
];

/// numbers and keywords
pub const NUMBERS: &[&str] = &[
    "a 1§A", "a 1§A§A", "a §A1", "a §A1§A", "a +1§A§A", "a -1§A§A", "a 0§A§A", "a 0x§A§A", "a 0x§A_§A", "a 0xf§A§A", "a 0o§A§A", "a 0o7§A§A", "a 0b§A§A", "a 0b1§A§A", "a -0x§A§A", "a +0b§A§A", "a -0o§A§A",
    "a 1_§A§A", "a 1.§A§A", "a 1.5§A§A", "a 1e§A§A", "a 1.5e§A§A", "a 1e1§A§A", "a 1e+§A§A", "a 1E-§A§A", "a 1_0.§A", "a -1.§A", "a +.§A", "a 1.5_§A", "a 1.5e1_§A", "a -0.§Ae1",
    "a #§A§A", "a #tru§A§A", "a #fals§A§A", "a #nul§A§A", "a #in§A§A", "a #-in§A§A", "a #na§A§A", "a #§Anf", "a #§Arue", "a #-§Anf",
    "a 17014118346046923173168730371588410572§A", "a -17014118346046923173168730371588410572§A", "a 0x7fffffffffffffffffffffffffffffff§A", "a 0x7ffffffffffffffffffffffffffffff§A", "a -0x8000000000000000000000000000000§A", "a 0x8000000000000000000000000000000§A", "a 0o177777777777777777777777777777777777777777§A", "a 922337203685477580§A",
    "a 0b0000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000§A",
    "a 200000000000000000000000000000000000000000.§A", "a 1.200000000000000000000000000000000000000000§A", "a 1e200§A",
    "a §B1", "a 1§B", "a 1.§B", "a 0x§B", "a #§B", "a 1e§B", "a -§B1",
];

/// single nodes, entries, identifiers
pub const PARTS: &[&str] = &[
    "§A§A§A", "§K§K§K", "§Aa§A", "§Aa§A§A", "a §A§A", "§A a", " a§A§Ab ", "(§A)§Aa", "(a)§A§A", "\"§A§A\"", "§A=§A", "a=§A§A", "§Aa=b§A", "a §A= §A", "(§Aa)§A1", "a=(§A)§A", "§A1§A", "1§A§A", "#§Arue", "#t§A§A",
    "a {§A}§A", "a {}§A§A", "/-§A a§A", "//§A\na§A", "/*§A*/a§A", "a/*§A*/§A", "a;§A§A", "a§A;§A", "a\n§A§A", "a //§A§A", "§Ba", "a§B", "a §B", "§B1", "a=§Bb", "§S§A", "\\§A§Aa", "a \\§A§A", "a /-§A§A", "\u{feff}§A§A", "\"a\"§A§A", "#\"a\"#§A§A", "\"\"\"\n§Aa\n§A\"\"\"", "a§A\\\n§A", "§A\na§A",
];

/// broken texts: several errors, unfinished constructs, recovery
pub const ERRORS: &[&str] = &[
    "a {§A§A", "a {b§A§A", "a \"§A§A", "a \"b\\§A§A", "a (§A§A", "a (b§A§A", "(§A§A", "a=1\n§A}\nb {§A", "}§A{§A", "a }§A{§A", "a { { §A§A", "a {§A\"}§A", "a 1§A 2§A }", "a=§A b=§A", "a =§A§A", "a b= §A§A", "a /*§A§A", "a /-§A§A{", "a #§A§A #x", "a 0x§A 0b§A", "a 1.§A 1e§A", "a \"\"\"§A§A", "a \"\"\"\n§A§A", "a #\"§A§A", "a ##\"\"\"\n§A\"#§A", "a r\"§A\"§A", "a true§A§A", "true§A§A", "1§A§A b", "a\n1§A\nb §A", "a {\n§A\n}\n}§A", "a (b)§A§A", "a (b)(§A)c§A", "(a)(§A)§Ab", "a b=c=§A§A", "a \\§A§A b }", "\u{1f600}§A{§A", "a \u{1f600}\"§A§A", "\u{e9}=§A§A", "a {\u{3000}§A=§A}", "§B{§A", "a §B\"§A", "a {§B=}", "a \"\u{1f600}\\§A§A", "a §S=§A", "a \"\u{1f600}\\u{§A§A", "a {b \"§A\n}§A", "a \"\\u{§A00000§A0§A}\"", "a \"\\u{11111§A§A§A}\"", "a \"\\u{0000004§A§A\"",
];

/// trivia in several gaps at once
pub const GAPS: &[&str] = &[
    "§Ta§Tb§T", "§Ta§T{§T}", "a§Tb§T{}§T", "a§T{§Tb§T}", "a§T=§Tb§T", "a b§T=§Tc§T", "(§Tt§T)§Ta", "a (§Tt§T)§Tb", "a b=(§Tt§T)§Tc", "a§T;§Tb§T", "a {}§T{}§T", "a§T/-§Tb§Tc", "/-§Ta§Tb§Tc", "a§T/-§T{§T}", "a /-{§T}§T{}§T", "a {b§Tc§T}§T", "\u{feff}§Ta§T", "a§T(t)b§T", "a§T(t)§Tb", "a {}§T/-{}§Tb", "a {}§T}§T", "a§T{§T", "§T§T§Ta", "a§T§T§T", "a {}§T§T§Tb", "a b§T§T§T{}", "a {§T§T§T}", "a \"b\"§T§T§Tc", "a§V§T§V", "a §V§T§V", "§V§T§V", "a b=§V§T{}§T", "(t)§V§T(u)§V", "\"a\"§T=§T§V",
    "a {b §V; c d=§V}", "a {b {c §V}}\nd §V", "a b=(\"t\")§V (#\"u\"#)§V", "(\"t\")\"a\" \"b\"=§V{(t)§V §V}", "§V §V=§V",
];
/// more gaps than the quick tier takes
pub const DEEP: &[&str] = &[
    "a §V§T=§T§V", "§T§V§T{§T}", "a /-§V§T§V§T", "a {§V§T§V}§T", "§Ta§Tb§T\nc§Td", "(§Ut§U)§Ua§U(§Uu§U)§Ub", "a§Ub§U=§U(§Ut§U)§Uc", "a§U/-§Ub§U/-§Uc§U", "a§U/-§U{§U}§U{§U}", "a§U{§Ub§U{§U}§U}", "/-§Ua§U{§U}§U;§Ub", "a§U{§U}§U/-§U{§U}", "§Ua§U=§U\"b\"§U{§U}§T", "a§Ub§Tc§T{§Td§T}", "a§Tb§T;§Tc§T", "a {§Tb§T}§Tc§T", "a§T/-b§T/-c§T{}§T", "§U/-§Ua§U{§Ub§U}§T", "(t§U)a§U(§Uu)b§U=§U(v§U)c",
];
/// whole multi-line and raw strings
pub const BLOCKS: &[&str] = &[
    "\"\"\"§L§Ia§L§I\"\"\"", "\"\"\"\n§Ia§I\n§I\"\"\"", "\"\"\"\n§Ia\n§I\n§I\"\"\"", "\"\"\"\n§I\n§Ia\n§I\"\"\"", "\"\"\"\n§Ia\n§Ib\n§I\"\"\"", "\"\"\"§La§L§Lb§L\"\"\"", "\"\"\"\n a§Lb§L c\n \"\"\"", "\"\"\"\n§Qx§Q\n\"\"\"", "\"\"\"\n§Q§Q§Q\n\"\"\"", "\"\"\"§Q§L§Q\"\"\"", "\"\"\"\n x§Q\n §Q\n \"\"\"", "\"\"\"\nx§I§I§Iy\n\"\"\"", "\"\"\"\nx\\§L§I§Ly\n\"\"\"",
    "\"§Qx§Q\"", "\"§Q§Q§Q\"", "\"x§Iy§I\"", "\"x\\§L§Iy\"", "\"§Lx\"",
    "#\"\"\"§L§Ia§L§I\"\"\"#", "#\"\"\"\n§Ia§I\n§I\"\"\"#", "#\"\"\"\n§Ia\n§I\n§I\"\"\"#", "#\"\"\"\n§Ia\n§Ib\n§I\"\"\"#", "#\"\"\"§La§L§Lb§L\"\"\"#", "#\"\"\"\n§Qx§Q\n\"\"\"#", "##\"\"\"\n§Qx§Q\n\"\"\"##", "##\"\"\"\n§Q§Q§Q\n\"\"\"##", "#\"\"\"§Q§L§Q\"\"\"#", "#\"§Qx§Q\"#", "##\"§Qx§Q\"##", "#\"§Q§Q§Q\"#", "##\"§Q§Q§Q\"##", "###\"§Q§Q\"##§Q", "##\"\"\"\n x§Q\n §Qy\n \"\"\"##",
    "a {\n/-x \"\"\"§L§Ib§L§I\"\"\"\nc\n}", "a \"\"\"\n§Ia\n§I\"\"\"§Tb", "a b=\"\"\"\n§Qa\n\"\"\"§T{}",
];
/// whole numbers
pub const DIGITS: &[&str] = &[
    "a §G1§D§D§D", "a §G§D.§D", "a §G1§D.1§D", "a §G1§De§G§D", "a §G1.5§DE§G1§D", "a §G0x§D§D", "a §G0x1§D§D§D", "a §G0o1§D§D", "a §G0b1§D§D", "a §G0b§D§D§D", "a §G1§D.5§De§G2§D", "a b=§G1§D§D",
    "a §G17014118346046923173168730371588410572§D§D", "a §G0x7fffffffffffffffffffffffffffffff§D§D", "a §G0o377777777777777777777777777777777777777777§D", "a §G0b111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111§D§D", "a §G1§D.0000000000000000000000000000000000000000000001§D", "a §G12345678901234567890123456789012345678901234§D.5§D", "a §G1e30§D", "a §G1e-32§D", "a §G.§D§D", "a §G§D§D§D", "a #§Ginf§D", "a §Ginf§D", "a #§Gnan§D",
];
/// trivia around single nodes, entries and identifiers
pub const PGAPS: &[&str] = &[
    "§Ta§Tb§T", "§Ta§T=§Tb", "§T(§Tt§T)§Ta", "§T(t)§Ta§T", "§Ta§T{§T}", "§Ta§T", "§T§V§T", "a§T=§T§V", "a=§V§T§T", "§T/-x§Ta§T", "a§V§T§V", "a {}§T§T", "a {b}§T;§T", "(t)§V§T=§V", "§T\"a\"§T§T", "§Q§Qa", "\"§Qa§Q\"", "#\"§Qa§Q\"#", "§G§D§D", "\"\"\"\n§Ia\n§I\"\"\"§T",
];

pub fn template(scn: u32) -> &'static str {
    let f = match scn / 1000 { 0 => STRUCT, 1 => COMMENTS, 2 => STRINGS, 3 => NUMBERS, 4 => PARTS, 5 => ERRORS, 6 => GAPS, 7 => BLOCKS, 8 => DIGITS, 9 => PGAPS, 10 => DEEP, _ => panic!() };
    f[(scn % 1000) as usize]
}
