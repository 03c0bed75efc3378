//! Serde: what is serialised comes back, and what is read is what the document holds.
use crate::sym::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// A value with symbolic parts.
pub trait Sym: Sized + Serialize + DeserializeOwned + PartialEq {
    fn sym() -> Self;
    /// Written as a lone `#null` or `#false`, or left out: the documented mapping cannot tell it from `None` within `Some`
    fn nullish(&self) -> bool { false }
    /// What a struct at the top of a document leaves out
    fn left_out(&self) -> bool { false }
}
/// One leaf of each value varies fully, the others little.
fn full() -> bool {
    static mut USED: bool = false;
    unsafe {
        if USED || choose(2) == 0 { return false }
        USED = true;
    }
    true
}
macro_rules! ints { ($($t:ident)*) => { $(impl Sym for $t {
    fn sym() -> Self {
        if !full() { return $t::MIN }
        if $t::BITS == 8 { return u8() as $t }
        let k = $t::MAX >> ($t::BITS / 2);
        let b = [0, $t::MAX - 3, $t::MIN, $t::MIN / 2, $t::MAX / 2, k][choose(6) as usize];
        b.wrapping_add((u8() & 7) as $t).wrapping_sub(2)
    }
})* } }
ints!(i8 u8 i16 u16 i32 u32 i64 u64);
impl Sym for bool { fn sym() -> Self { choose(2) == 1 } fn left_out(&self) -> bool { !*self } }
impl Sym for f64 { fn sym() -> Self { if !full() { return 1.5 } [0.0, -0.0, 1.0, -2.25e-3, 0.1, 1e16, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 1e21][choose(12) as usize] } }
impl Sym for f32 { fn sym() -> Self { if !full() { return 1.5 } [0.0, -0.0, 1.0, 0.1, 16777216.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY][choose(10) as usize] } }
impl Sym for char { fn sym() -> Self { if !full() { return 'c' } chr([b'A', b'B', b'S'][choose(3) as usize]) } }
impl Sym for String { fn sym() -> Self { text(if !full() { "s" } else { ["§A", "§B", "§K§K", "true", "#null", "-§D", "§V", "x§L y", ""][choose(9) as usize] }) } }
impl Sym for () { fn sym() -> Self {} fn nullish(&self) -> bool { true } fn left_out(&self) -> bool { true } }
impl<T: Sym> Sym for Option<T> {
    fn sym() -> Self {
        if choose(2) == 0 { return None }
        let x = T::sym();
        assume(!x.nullish());
        Some(x)
    }
    fn nullish(&self) -> bool { self.is_none() }
}
impl<T: Sym> Sym for Vec<T> { fn sym() -> Self { (0..choose(3)).map(|_| T::sym()).collect() } fn nullish(&self) -> bool { self.len() == 1 && self[0].nullish() } }
impl<A: Sym, B: Sym> Sym for (A, B) { fn sym() -> Self { (A::sym(), B::sym()) } }
impl<T: Sym> Sym for BTreeMap<String, T> {
    fn sym() -> Self {
        let mut m = BTreeMap::new();
        for i in 0..choose(3) { m.insert(["k", "a b"][i as usize].to_string(), T::sym()); }
        m
    }
}
macro_rules! shape {
    ($(#[$a:meta])* $n:ident $(<$t:ident>)? { $($(#[$fa:meta])* $f:ident : $ft:ty),* } $($over:tt)*) => {
        #[derive(Serialize, Deserialize, PartialEq)] $(#[$a])*
        pub struct $n $(<$t>)? { $($(#[$fa])* $f: $ft),* }
        impl $(<$t: Sym>)? Sym for $n $(<$t>)? { fn sym() -> Self { $n { $($f: Sym::sym()),* } } $($over)* }
    };
}
shape!(F<T> { x: T });
shape!(F2<T> { x: T, y: Option<bool>, z: bool });
shape!(Prop<T> { #[serde(rename = "#@p")] p: T });
shape!(Arg0<T> { #[serde(rename = "#0")] a: T } fn nullish(&self) -> bool { self.a.nullish() });
shape!(Arg10<T> { #[serde(rename = "#1")] a: T, #[serde(rename = "#0")] b: T });
shape!(Arg2<T> { #[serde(rename = "#2")] a: T, #[serde(rename = "#@p")] p: i8, #[serde(rename = "#0")] b: T });
shape!(Rest<T> { #[serde(rename = "#0")] a: i8, #[serde(rename = "#rest")] b: Vec<T> });
shape!(All<T> { #[serde(rename = "#args")] b: Vec<T> } fn nullish(&self) -> bool { self.b.nullish() });
shape!(Mix<T> { c: T, #[serde(rename = "#@c")] p: T, #[serde(rename = "#0")] a: T, d: bool });
shape!(Typed<T> { #[serde(rename = "#type")] t: Option<String>, #[serde(rename = "#0")] a: T, #[serde(rename = "#0#type")] at: Option<String>, #[serde(rename = "#@p")] p: T, #[serde(rename = "#@p#type")] pt: Option<String> });
#[derive(Serialize, Deserialize, PartialEq)]
pub struct New<T>(T);
impl<T: Sym> Sym for New<T> { fn sym() -> Self { New(T::sym()) } fn nullish(&self) -> bool { self.0.nullish() } fn left_out(&self) -> bool { self.0.left_out() } }
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Two<T>(T, T);
impl<T: Sym> Sym for Two<T> { fn sym() -> Self { Two(T::sym(), T::sym()) } }
#[derive(Serialize, Deserialize, PartialEq)]
pub enum En<T> { Unit, New(T), Tup(T, T), St { a: T, b: bool }, Empty {}, Args { #[serde(rename = "#0")] a: i8, #[serde(rename = "#@p")] p: T, c: T } }
impl<T: Sym> Sym for En<T> {
    fn sym() -> Self {
        match choose(6) {
            0 => En::Unit, 1 => En::New(T::sym()), 2 => En::Tup(T::sym(), T::sym()), 3 => En::St { a: T::sym(), b: bool::sym() }, 4 => En::Empty {},
            _ => En::Args { a: 3, p: T::sym(), c: T::sym() },
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(tag = "t")]
pub enum Tagged<T> { A { x: T }, B }
impl<T: Sym> Sym for Tagged<T> { fn sym() -> Self { if choose(2) == 0 { Tagged::A { x: T::sym() } } else { Tagged::B } } }
#[derive(Serialize, Deserialize, PartialEq, PartialOrd, Ord, Eq)]
pub enum Key { A, #[serde(rename = "b b")] B }
shape!(Keys<K> { x: K });
macro_rules! key_map { ($($t:ty, $e:expr;)*) => { $(impl Sym for BTreeMap<$t, i8> { fn sym() -> Self { let mut m = BTreeMap::new(); for _ in 0..choose(3) { m.insert($e, i8::sym()); } m } })* } }
key_map!(u8, u8::sym(); i64, i64::sym(); bool, bool::sym(); char, ['a', '\u{e9}', '"'][choose(3) as usize]; Key, if choose(2) == 0 { Key::A } else { Key::B };);

/// 1 the text cannot be read back, 2 another value comes back, 3 the text does not parse; other codes for what a struct leaves out
/// 4 is an error while writing, which only sequences of compound values within a node may be
static mut COMPOUND: bool = false;
fn back_as<T: Sym>(v: T, codes: [i32; 2]) {
    let Ok(t) = kdl::se::to_string(&v) else { check(unsafe { COMPOUND }, 4); return };
    note(&t);
    reach(1);
    if kdl::KdlDocument::parse_v2(&t).is_err() { fail(3) }
    match kdl::de::from_str::<T>(&t) { Ok(w) => check(w == v, codes[1]), Err(_) => fail(codes[0]) }
    reach(2);
}
fn back<T: Sym>(v: T) { back_as(v, [1, 2]) }
/// A struct at the top of a document.
fn top<T: Sym>() {
    let x = T::sym();
    let o = x.left_out();
    back_as(F { x }, if o { [71, 72] } else { [1, 2] })
}
fn within<T: Sym>(how: u32) {
    match how {
        0 => top::<T>(),
        1 => back(F { x: F { x: T::sym() } }),
        2 => back(F { x: F2::<T>::sym() }),
        3 => back(F { x: Some(T::sym()).filter(|x| !x.nullish()) }),
        4 => back(F { x: F { x: Some(T::sym()).filter(|x| !x.nullish()) } }),
        5 => back(Vec::<T>::sym()),
        6 => back(F { x: Vec::<T>::sym() }),
        7 => back(F { x: F { x: Vec::<T>::sym() } }),
        8 => back(BTreeMap::<String, T>::sym()),
        9 => back(F { x: BTreeMap::<String, T>::sym() }),
        10 => back(F { x: <(T, i8)>::sym() }),
        11 => back(F { x: F { x: New(T::sym()) } }),
        12 => back(<(T, T)>::sym()),
        13 => back(F { x: Option::<Vec<T>>::sym() }),
        14 => back(Two(T::sym(), T::sym())),
        _ => panic!(),
    }
}
fn within_few<T: Sym>(how: u32) {
    match how {
        0 => top::<T>(),
        1 => back(F { x: F { x: T::sym() } }),
        3 => back(F { x: Some(T::sym()).filter(|x| !x.nullish()) }),
        5 => back(Vec::<T>::sym()),
        9 => back(F { x: BTreeMap::<String, T>::sym() }),
        12 => back(<(T, T)>::sym()),
        _ => panic!(),
    }
}
/// Values that fit an argument or property.
fn part<T: Sym>(how: u32) {
    match how {
        0 => back(F { x: Prop::<T>::sym() }),
        1 => back(F { x: Arg0::<T>::sym() }),
        2 => back(F { x: Arg10::<T>::sym() }),
        3 => back(F { x: Arg2::<T>::sym() }),
        4 => back(F { x: Rest::<T>::sym() }),
        5 => back(F { x: All::<T>::sym() }),
        6 => back(F { x: F { x: Mix::<T>::sym() } }),
        7 => back(F { x: Some(All::<T>::sym()).filter(|x| !x.nullish()) }),
        8 => back(vec![Mix::<T>::sym()]),
        9 => back(En::<T>::sym()),
        10 => back(F { x: En::<T>::sym() }),
        11 => back(F { x: F { x: Some(En::<T>::sym()) } }),
        12 => back(vec![En::<T>::sym(), En::Unit]),
        13 => back(BTreeMap::from([("k".to_string(), En::<T>::sym())])),
        14 => back(F { x: Typed::<T>::sym() }),
        15 => {
            let t = Tagged::<T>::sym();
            // a field that is left out is not known to be missing when the tag has been read first
            if matches!(&t, Tagged::A { x } if x.left_out()) { back_as(F { x: t }, [73, 74]) } else { back(F { x: t }) }
        }
        _ => panic!(),
    }
}
/// scn = shape * 100 + container
#[unsafe(no_mangle)]
pub extern "C" fn h_serde(scn: u32) {
    let how = scn % 100;
    unsafe { COMPOUND = matches!(scn / 100, 20..26) && matches!(how, 6 | 7 | 10 | 13) }
    match scn / 100 {
        0 => within::<i64>(how), 1 => within::<bool>(how), 2 => within::<String>(how), 3 => within_few::<f64>(how), 4 => within_few::<char>(how), 5 => within_few::<Option<u8>>(how), 6 => within::<Option<bool>>(how), 7 => within_few::<()>(how),
        10 => part::<u64>(how), 11 => part::<bool>(how), 12 => part::<String>(how), 13 => part::<Option<bool>>(how), 14 => part::<f32>(how),
        20 => within_few::<F<i8>>(how), 21 => within::<Vec<bool>>(how), 22 => within_few::<BTreeMap<String, bool>>(how), 23 => within_few::<Mix<bool>>(how), 24 => within_few::<(bool, i8)>(how), 25 => within::<En<bool>>(how),
        30 => match how {
            0 => back(BTreeMap::<u8, i8>::sym()), 1 => back(F { x: BTreeMap::<u8, i8>::sym() }), 2 => back(BTreeMap::<i64, i8>::sym()), 3 => back(BTreeMap::<bool, i8>::sym()), 4 => back(F { x: BTreeMap::<char, i8>::sym() }), 5 => back(BTreeMap::<Key, i8>::sym()),
            6 => back(u8::sym()), 7 => back(i8::sym()), 8 => back(u16::sym()), 9 => back(i16::sym()), 10 => back(u32::sym()), 11 => back(i32::sym()), 12 => back(u64::sym()), 13 => back(i64::sym()), 14 => back(f32::sym()), 15 => back(f64::sym()), 16 => back(bool::sym()), 17 => back(char::sym()), 18 => back(String::sym()), 19 => back(Some(i8::sym())),
            _ => panic!(),
        },
        _ => panic!(),
    }
}
