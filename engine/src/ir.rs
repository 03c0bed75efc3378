//! Text LLVM IR -> internal program.  Functions are parsed lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u64, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Token,
}
fn align_to(x: u64, a: u64) -> u64 { x.div_ceil(a) * a }
impl Ty {
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => panic!("bits of {self:?}") }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => ((n * t.bits() as u64).div_ceil(8)).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Token => 0,
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => align_to(self.store_bytes(), self.align()),
            Ty::Vec(n, t) => align_to((n * t.bits() as u64).div_ceil(8), self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f { if !*p { o = align_to(o, t.align()); } o += t.size(); }
                if !*p { o = align_to(o, self.align()); }
                o
            }
        }
    }
    fn store_bytes(&self) -> u64 { (self.bits() as u64).div_ceil(8) }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { o = align_to(o, t.align()); }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!()
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!(),
        }
    }
    /// leaf scalars: (byte offset, width)
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u16)>) {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Token => {}
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => out.push((base, self.bits() as u16)),
            Ty::Vec(n, t) => {
                for i in 0..*n { out.push((base + i * (t.bits() as u64) / 8, t.bits() as u16)); }
            }
            Ty::Arr(n, t) => for i in 0..*n { t.leaves(base + i * t.size(), out); },
            Ty::Struct(f, _) => for (i, t) in f.iter().enumerate() { t.leaves(base + self.field_off(i), out); },
        }
    }
    pub fn lv(&self) -> Vec<(u64, u16)> { let mut v = vec![]; self.leaves(0, &mut v); v }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Token => 0,
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Vec(n, t) | Ty::Arr(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
        }
    }
    fn sub(&self, i: usize) -> (&Ty, u32) {
        match self {
            Ty::Struct(f, _) => (&f[i], f[..i].iter().map(|t| t.nslots()).sum()),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t, i as u32 * t.nslots()),
            _ => panic!(),
        }
    }
}

/// operand: >=0 register base in frame ; <0 : !o is index in constant pool
pub type Opd = i32;
pub type Bb = u32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, Copy, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opd), Intr(Intr) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop, Getrandom, Expect, Assume, Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen, Memchr,
    Malloc, Calloc, Realloc, Free, PosixMemalign,
    UMax, UMin, SMax, SMin, Abs, Ctlz, Cttz, Ctpop, Bswap, Bitreverse, Fshl, Fshr,
    UAddO, USubO, SAddO, SSubO, UMulO, SMulO, UAddSat, USubSat, SAddSat, SSubSat, Ucmp, Scmp,
    FAbs, Floor, Ceil, Trunc, Sqrt, Fma, CopySign, FMinNum, FMaxNum, IsFpClass, Round, RoundEven, Rint,
    FpToUiSat, FpToSiSat,
    Trap, ThreadLocal, LoadRel, IsConstant, Ptrmask, ObjectSize, ReduceOr, ReduceAnd, ReduceAdd,
    SymU8, SymU16, SymU64, SymAssume, SymFail, SymReach, SymConcretize, SymExpectPanic, SymFork,
    PanicFn, Unsupported,
}

#[derive(Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Opd, u32)>,
    pub argw: Vec<u16>,
    pub d: u32,
    pub n: u32,
    pub retw: Vec<u16>,
    pub normal: Option<Bb>,
    pub extra: u32,
}

#[derive(Debug)]
pub enum I {
    Bin { op: BinOp, w: u16, n: u16, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u16, n: u16, d: u32, a: Opd, b: Opd },
    FCmp { p: FPred, w: u16, d: u32, a: Opd, b: Opd },
    FBin { op: FOp, w: u16, d: u32, a: Opd, b: Opd },
    FNeg { w: u16, d: u32, a: Opd },
    Cast { op: CastOp, sw: u16, dw: u16, n: u16, d: u32, a: Opd },
    BitcastVec { sw: Vec<u16>, dw: Vec<u16>, d: u32, a: Opd },
    Select { d: u32, c: Opd, cn: u16, a: Opd, b: Opd, ws: Rc<Vec<u16>> },
    Load { d: u32, p: Opd, lv: Rc<Vec<(u64, u16)>>, size: u32 },
    Store { v: Opd, p: Opd, lv: Rc<Vec<(u64, u16)>>, size: u32 },
    Gep { d: u32, p: Opd, off: u64, idx: Vec<(Opd, u16, u64)> },
    Alloca { d: u32, off: u32 },
    Copy { d: u32, parts: Vec<(Opd, u32)> },
    Call(Box<CallI>),
    Br(Bb),
    CondBr(Opd, Bb, Bb),
    Switch { v: Opd, w: u16, def: Bb, cases: Vec<(u128, Bb)>, map: HashMap<u64, Bb> },
    Ret { v: Opd, n: u32 },
    Unreachable,
    Rmw { op: u8, w: u16, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u16, d: u32, p: Opd, c: Opd, v: Opd },
    DynExtract { d: u32, a: Opd, n: u16, i: Opd },
    Shuffle { d: u32, srcs: Vec<Opd> },
    Bad(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub insts: Vec<I>,
    /// per predecessor: list of (dst, src, nslots)
    pub phis: Vec<(Bb, Vec<(u32, Opd, u32)>)>,
    pub phi_slots: Vec<(u32, u16)>,
    pub succs: Vec<Bb>,
    pub dbg: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub regw: Vec<u16>,
    pub params: Vec<(u32, u32)>,
    pub frame_size: u32,
    pub ipdom: Vec<u32>, // u32::MAX-1 = virtual exit, MAX = none
    pub live_in: Vec<Vec<u64>>,
}
pub const EXIT: u32 = u32::MAX - 1;

#[derive(Clone, Debug)]
pub enum K { C(u128, u32) }

/// Shared (Send+Sync) index over the text
pub struct Text {
    pub src: Vec<u8>,
    pub funcs: Vec<(String, usize, usize)>, // name, start, end of define text
    pub decls: Vec<String>,
    pub fn_ix: HashMap<String, u32>, // all: defined first then declared
    pub globals: Vec<(String, usize)>,
    pub gl_ix: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, usize>,
}

pub const OBJ_SHIFT: u32 = 32;
pub const FN_BASE: u64 = 0x2000_0000;

pub fn fn_addr(i: u32) -> u64 { (FN_BASE + i as u64) << OBJ_SHIFT }
pub fn gl_addr(i: u32) -> u64 { (1 + i as u64) << OBJ_SHIFT }

fn sym_at(b: &[u8], mut p: usize) -> (String, usize) {
    // p at char after '@' or '%'
    if b[p] == b'"' {
        p += 1;
        let mut s = Vec::new();
        while b[p] != b'"' {
            if b[p] == b'\\' {
                let h = std::str::from_utf8(&b[p + 1..p + 3]).unwrap();
                s.push(u8::from_str_radix(h, 16).unwrap());
                p += 3;
            } else { s.push(b[p]); p += 1; }
        }
        (String::from_utf8_lossy(&s).into_owned(), p + 1)
    } else {
        let st = p;
        while p < b.len() && (b[p].is_ascii_alphanumeric() || matches!(b[p], b'_' | b'.' | b'$' | b'-')) { p += 1; }
        (String::from_utf8_lossy(&b[st..p]).into_owned(), p)
    }
}

/// rustc divides an i128 by 10^16 with a multiplication by a reciprocal in i256.
/// Undo exactly that pattern (C = ceil(2^K / D) with an error below 2^(K-128),
/// so the quotient is exact for every 128-bit dividend); any other i256 is refused.
const RECIP: [(&str, &str, &str); 1] = [("76624777043294442917917351357515459181", "179", "10000000000000000")];
fn narrow_i256(src: Vec<u8>) -> Vec<u8> {
    if src.windows(4).all(|w| w != b"i256") { return src; }
    let text = match String::from_utf8(src) { Ok(t) => t, Err(e) => return e.into_bytes() };
    let mut o = String::with_capacity(text.len());
    let mut muls: HashMap<String, (String, &str)> = HashMap::new();
    for l in text.split_inclusive('\n') {
        if l.starts_with("define ") { muls.clear(); }
        if !l.contains("i256") || !l.split(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '.' | '_' | '%' | '$' | '@' | '"'))).any(|t| t == "i256") { o.push_str(l); continue; }
        let w: Vec<&str> = l.split(',').next().unwrap().split_whitespace().collect();
        let second = l.split(',').nth(1).unwrap_or("").trim().to_string();
        let d = w[0];
        let line = match w.get(2) {
            Some(&"zext") if l.contains(" to i256") => { let v = w[w.iter().position(|x| *x == "i128").map(|i| i + 1).unwrap_or(0)]; if v == d { None } else { Some(format!("  {d} = add i128 {v}, 0\n")) } }
            Some(&"mul") => RECIP.iter().find(|r| r.0 == second).map(|r| {
                let v = w[w.len() - 1].to_string();
                muls.insert(d.to_string(), (v.clone(), r.1));
                format!("  {d} = add i128 {v}, 0\n")
            }),
            Some(&"lshr") => { let v = w[w.len() - 1]; muls.get(v).filter(|m| m.1 == second).and_then(|m| RECIP.iter().find(|r| r.1 == m.1)).map(|r| format!("  {d} = udiv i128 {v}, {}\n", r.2)) }
            Some(&"trunc") => { let Some(i) = w.iter().position(|x| *x == "i256").filter(|i| i + 3 < w.len()) else { o.push_str(l); continue }; let v = w[i + 1]; match w[i + 3] { "i128" => Some(format!("  {d} = add i128 {v}, 0\n")), t => Some(format!("  {d} = trunc i128 {v} to {t}\n")) } }
            _ => None,
        };
        match line { Some(x) => o.push_str(&x), None => o.push_str(l) }
    }
    o.into_bytes()
}

impl Text {
    pub fn load(path: &str) -> Arc<Text> {
        let src = narrow_i256(std::fs::read(path).expect("read ll"));
        let mut t = Text { src, funcs: vec![], decls: vec![], fn_ix: HashMap::new(), globals: vec![], gl_ix: HashMap::new(), aliases: HashMap::new(), types: HashMap::new() };
        let b = std::mem::take(&mut t.src);
        let mut p = 0;
        let mut decls = vec![];
        while p < b.len() {
            let eol = b[p..].iter().position(|&c| c == b'\n').map(|x| p + x).unwrap_or(b.len());
            let line = &b[p..eol];
            if line.starts_with(b"define ") {
                let mut q = p;
                while b[q] != b'@' { q += 1; }
                let (name, _) = sym_at(&b, q + 1);
                // end: "\n}"
                let mut e = eol;
                loop {
                    if b[e] == b'\n' && b.get(e + 1) == Some(&b'}') { break; }
                    e += 1;
                }
                t.funcs.push((name, p, e + 2));
                p = e + 2;
                continue;
            } else if line.starts_with(b"declare ") {
                let mut q = p;
                while b[q] != b'@' { q += 1; }
                let (name, _) = sym_at(&b, q + 1);
                decls.push(name);
            } else if line.starts_with(b"@") {
                let (name, q) = sym_at(&b, p + 1);
                let rest = String::from_utf8_lossy(&b[q..eol.min(q + 200)]).into_owned();
                if rest.contains(" alias ") {
                    // target symbol
                    let full = String::from_utf8_lossy(&b[q..eol]).into_owned();
                    if let Some(ix) = full.rfind('@') {
                        let (tg, _) = sym_at(full.as_bytes(), ix + 1);
                        t.aliases.insert(name, tg);
                    }
                } else {
                    let ix = t.globals.len() as u32;
                    t.gl_ix.insert(name.clone(), ix);
                    t.globals.push((name, q));
                }
            } else if line.starts_with(b"%") {
                let (name, q) = sym_at(&b, p + 1);
                t.types.insert(name, q);
            }
            p = eol + 1;
        }
        for (i, f) in t.funcs.iter().enumerate() { t.fn_ix.insert(f.0.clone(), i as u32); }
        for d in decls {
            let i = (t.funcs.len() + t.decls.len()) as u32;
            t.fn_ix.insert(d.clone(), i);
            t.decls.push(d);
        }
        t.src = b;
        Arc::new(t)
    }
    pub fn fname(&self, i: u32) -> &str {
        let i = i as usize;
        if i < self.funcs.len() { &self.funcs[i].0 } else { &self.decls[i - self.funcs.len()] }
    }
}

/// constant value leaves
pub type CVal = Vec<(u128, u16)>;

pub struct P<'a> {
    pub t: &'a Text,
    pub b: &'a [u8],
    pub p: usize,
    pub wide: bool,
}

impl<'a> P<'a> {
    pub fn new(t: &'a Text, p: usize) -> Self { P { t, b: &t.src, p, wide: false } }
    fn ws(&mut self) {
        loop {
            while self.p < self.b.len() && matches!(self.b[self.p], b' ' | b'\n' | b'\t' | b'\r') { self.p += 1; }
            if self.p < self.b.len() && self.b[self.p] == b';' {
                while self.p < self.b.len() && self.b[self.p] != b'\n' { self.p += 1; }
            } else { return; }
        }
    }
    fn sp(&mut self) { while self.b[self.p] == b' ' { self.p += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); self.b[self.p] }
    fn acc(&mut self, s: &str) -> bool {
        self.ws();
        if self.b[self.p..].starts_with(s.as_bytes()) {
            let last = *s.as_bytes().last().unwrap();
            if last.is_ascii_alphanumeric() {
                let n = self.b[self.p + s.len()];
                if n.is_ascii_alphanumeric() || n == b'_' || n == b'.' { return false; }
            }
            self.p += s.len();
            true
        } else { false }
    }
    fn expect(&mut self, s: &str) {
        if !self.acc(s) {
            let e = (self.p + 80).min(self.b.len());
            panic!("expected {s:?} at {:?}", String::from_utf8_lossy(&self.b[self.p.saturating_sub(60)..e]));
        }
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.p;
        while self.b[self.p].is_ascii_alphanumeric() || matches!(self.b[self.p], b'_' | b'.' | b'-') { self.p += 1; }
        String::from_utf8_lossy(&self.b[st..self.p]).into_owned()
    }
    fn pword(&mut self) -> String { let s = self.p; let w = self.word(); self.p = s; w }
    fn num(&mut self) -> u128 {
        self.ws();
        let st = self.p;
        if self.b[self.p] == b'-' { self.p += 1; }
        while self.b[self.p].is_ascii_digit() { self.p += 1; }
        let s = std::str::from_utf8(&self.b[st..self.p]).unwrap();
        if let Some(r) = s.strip_prefix('-') {
            (r.parse::<u128>().unwrap()).wrapping_neg()
        } else { s.parse::<u128>().unwrap_or_else(|_| panic!("num {s:?}")) }
    }
    fn sym(&mut self) -> String { let (s, p) = sym_at(self.b, self.p); self.p = p; s }
    /// skip balanced parens, at '('
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.b[self.p] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.p += 1; return; } }
                b'"' => { self.p += 1; while self.b[self.p] != b'"' { self.p += 1; } }
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        let mut t = match self.b[self.p] {
            b'i' if self.b[self.p + 1].is_ascii_digit() => { self.p += 1; let n = self.num() as u32; if n > 128 { self.wide = true; } Ty::Int(n) }
            b'{' => { self.p += 1; let f = self.tylist(b'}'); Ty::Struct(f, false) }
            b'[' => { self.p += 1; let n = self.num() as u64; self.expect("x"); let e = self.ty(); self.expect("]"); Ty::Arr(n, Box::new(e)) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let f = self.tylist(b'}');
                    self.expect(">");
                    Ty::Struct(f, true)
                } else {
                    let n = self.num() as u64; self.expect("x"); let e = self.ty(); self.expect(">");
                    Ty::Vec(n, Box::new(e))
                }
            }
            b'%' => {
                self.p += 1;
                let n = self.sym();
                let q = *self.t.types.get(&n).unwrap_or_else(|| panic!("type {n}"));
                let mut pp = P::new(self.t, q);
                pp.expect("=");
                pp.expect("type");
                pp.ty()
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.pword() == "addrspace" { self.word(); self.skip_parens(); }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "token" => Ty::Token,
                    _ => panic!("type? {w:?} at {:?}", String::from_utf8_lossy(&self.b[self.p.saturating_sub(80)..self.p + 40])),
                }
            }
        };
        // function type suffix (varargs call): ty (args...)
        if self.b[self.p] == b' ' && self.b[self.p + 1] == b'(' && matches!(t, Ty::Void | Ty::Int(_) | Ty::Ptr) {
            // only treat as fn type if followed eventually by @ or %: used in calls only
            let s = self.p;
            self.p += 1;
            self.skip_parens();
            self.ws();
            if self.b[self.p] != b'@' && self.b[self.p] != b'%' { self.p = s; }
        }
        if let Ty::Void = t { t = Ty::Void; }
        t
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.peek() == end { self.p += 1; return v; }
        loop {
            v.push(self.ty());
            if self.peek() == b',' { self.p += 1; } else { break; }
        }
        assert_eq!(self.peek(), end);
        self.p += 1;
        v
    }
    fn zero(ty: &Ty) -> CVal { ty.lv().iter().map(|x| (0, x.1)).collect() }
    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&i) = self.t.fn_ix.get(n) { return fn_addr(i); }
        if let Some(&i) = self.t.gl_ix.get(n) { return gl_addr(i); }
        if let Some(a) = self.t.aliases.get(n) { return self.sym_addr(a); }
        panic!("unknown symbol @{n}")
    }
    pub fn constant(&mut self, ty: &Ty) -> CVal {
        self.ws();
        let c = self.b[self.p];
        match c {
            b'@' => { self.p += 1; let n = self.sym(); vec![(self.sym_addr(&n) as u128, 64)] }
            b'-' | b'0'..=b'9' => match ty {
                Ty::Int(w) => { let v = self.num(); vec![(v & crate::expr::mask(*w), *w as u16)] }
                Ty::F64 | Ty::F32 => self.float(ty),
                _ => panic!("num for {ty:?}"),
            },
            b'c' if self.b[self.p + 1] == b'"' => {
                self.p += 2;
                let mut v = vec![];
                while self.b[self.p] != b'"' {
                    if self.b[self.p] == b'\\' && self.b[self.p + 1] == b'\\' { v.push((b'\\' as u128, 8)); self.p += 2; }
                    else if self.b[self.p] == b'\\' {
                        let h = std::str::from_utf8(&self.b[self.p + 1..self.p + 3]).unwrap();
                        v.push((u8::from_str_radix(h, 16).unwrap() as u128, 8));
                        self.p += 3;
                    } else { v.push((self.b[self.p] as u128, 8)); self.p += 1; }
                }
                self.p += 1;
                v
            }
            b'{' | b'[' => { self.p += 1; let v = self.agg(); self.p += 1; v }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' { self.p += 1; let v = self.agg(); self.p += 1; self.expect(">"); v }
                else { let v = self.agg(); self.p += 1; v }
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "true" => vec![(1, 1)],
                    "false" => vec![(0, 1)],
                    "null" | "none" => vec![(0, 64)],
                    "undef" | "poison" | "zeroinitializer" => Self::zero(ty),
                    "splat" => {
                        self.expect("(");
                        let et = self.ty();
                        let e = self.constant(&et);
                        self.expect(")");
                        let n = match ty { Ty::Vec(n, _) => *n, _ => 1 };
                        (0..n).flat_map(|_| e.clone()).collect()
                    }
                    "dso_local_equivalent" | "no_cfi" => self.constant(ty),
                    "blockaddress" => { self.ws(); self.skip_parens(); vec![(0, 64)] }
                    "getelementptr" => {
                        while !self.acc("(") { self.word(); if self.peek() == b'(' && self.b[self.p - 1] == b'e' { self.skip_parens(); } }
                        let et = self.ty();
                        self.expect(",");
                        let pt = self.ty();
                        let base = self.constant(&pt)[0].0 as u64;
                        let mut off = 0u64;
                        let mut cur = et.clone();
                        let mut first = true;
                        while self.acc(",") {
                            let it = self.ty();
                            let iv = self.constant(&it)[0];
                            let ix = crate::expr::sext128(iv.0, iv.1 as u32) as i64;
                            if first { off = off.wrapping_add((ix as u64).wrapping_mul(et.size())); first = false; }
                            else {
                                off = off.wrapping_add(match &cur { Ty::Struct(..) => cur.field_off(ix as usize), Ty::Arr(_, e) | Ty::Vec(_, e) => (ix as u64).wrapping_mul(e.size()), _ => panic!() });
                                cur = match &cur { Ty::Struct(f, _) => f[ix as usize].clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => panic!() };
                            }
                        }
                        self.expect(")");
                        vec![(base.wrapping_add(off) as u128, 64)]
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "zext" | "sext" => {
                        while !self.acc("(") { self.word(); }
                        let ft = self.ty();
                        let v = self.constant(&ft);
                        self.expect("to");
                        let tt = self.ty();
                        self.expect(")");
                        vec![(v[0].0 & crate::expr::mask(tt.bits()), tt.bits() as u16)]
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while !self.acc("(") { self.word(); }
                        let at = self.ty();
                        let a = self.constant(&at)[0];
                        self.expect(",");
                        let bt = self.ty();
                        let b = self.constant(&bt)[0];
                        self.expect(")");
                        let r = match w.as_str() { "add" => a.0.wrapping_add(b.0), "sub" => a.0.wrapping_sub(b.0), "mul" => a.0.wrapping_mul(b.0), _ => a.0 ^ b.0 };
                        vec![(r & crate::expr::mask(a.1 as u32), a.1)]
                    }
                    _ if matches!(ty, Ty::F64 | Ty::F32) => { self.p -= w.len(); self.float(ty) }
                    _ => panic!("const? {w:?} ty {ty:?} near {:?}", String::from_utf8_lossy(&self.b[self.p.saturating_sub(100)..self.p + 60])),
                }
            }
        }
    }
    fn float(&mut self, ty: &Ty) -> CVal {
        self.ws();
        let st = self.p;
        while self.b[self.p].is_ascii_alphanumeric() || matches!(self.b[self.p], b'.' | b'+' | b'-') { self.p += 1; }
        let s = std::str::from_utf8(&self.b[st..self.p]).unwrap();
        if let Some(h) = s.strip_prefix("f0x") {
            let v = u64::from_str_radix(h, 16).unwrap();
            return if *ty == Ty::F32 { vec![(v as u128, 32)] } else { vec![(v as u128, 64)] };
        }
        if let Some(h) = s.strip_prefix("0x") {
            let v = u64::from_str_radix(h, 16).unwrap();
            return if *ty == Ty::F32 { vec![((f64::from_bits(v) as f32).to_bits() as u128, 32)] } else { vec![(v as u128, 64)] };
        }
        let f: f64 = match s {
            "inf" | "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "nan" | "+nan" | "qnan" | "+qnan" => f64::NAN, "-nan" | "-qnan" => -f64::NAN,
            _ => s.parse().unwrap_or_else(|_| panic!("float {s:?}")),
        };
        if *ty == Ty::F32 { vec![((f as f32).to_bits() as u128, 32)] } else { vec![(f.to_bits() as u128, 64)] }
    }
    fn agg(&mut self) -> CVal {
        let mut v = vec![];
        if matches!(self.peek(), b'}' | b']' | b'>') { return v; }
        loop {
            let t = self.ty();
            v.extend(self.constant(&t));
            if self.peek() == b',' { self.p += 1; } else { break; }
        }
        v
    }
    /// at text after global name: " = private ... constant TY INIT, align.."; returns (bytes, is_const)
    pub fn global(&mut self) -> Option<(Vec<u8>, bool)> {
        self.expect("=");
        let is_const;
        loop {
            let w = self.word();
            match w.as_str() {
                "constant" => { is_const = true; break; }
                "global" => { is_const = false; break; }
                "external" | "extern_weak" => return None,
                "" => panic!("global"),
                _ => { if self.b[self.p] == b'(' { self.skip_parens(); } }
            }
        }
        let ty = self.ty();
        let c = self.constant(&ty);
        let lv = ty.lv();
        assert_eq!(lv.len(), c.len());
        let mut bytes = vec![0u8; ty.size() as usize];
        for (l, v) in lv.iter().zip(c.iter()) {
            let n = (l.1 as usize).div_ceil(8);
            let le = v.0.to_le_bytes();
            bytes[l.0 as usize..l.0 as usize + n].copy_from_slice(&le[..n]);
        }
        Some((bytes, is_const))
    }
}

pub struct ConstPool {
    pub vals: Vec<(u128, u16)>,
    ix: HashMap<CVal, i32>,
}
impl ConstPool {
    pub fn new() -> Self { ConstPool { vals: vec![(0, 64)], ix: HashMap::new() } }
    pub fn add(&mut self, c: CVal) -> Opd {
        if c.is_empty() { return -1; }
        if let Some(&o) = self.ix.get(&c) { return o; }
        let i = self.vals.len() as i32;
        self.vals.extend(c.iter().copied());
        self.ix.insert(c, !i);
        !i
    }
}
pub fn opd_off(o: Opd, k: u32) -> Opd { if o >= 0 { o + k as i32 } else { !(!o + k as i32) } }

struct FP<'a, 'b> {
    p: P<'a>,
    pool: &'b mut ConstPool,
    regs: HashMap<String, (u32, u32)>,
    pend: HashMap<String, u32>,
    nregs: u32,
    regw: Vec<u16>,
    blocks_ix: HashMap<String, u32>,
    frame: u64,
}

impl<'a, 'b> FP<'a, 'b> {
    fn def(&mut self, name: &str, ty: &Ty) -> u32 {
        let lv = ty.lv();
        let n = lv.len() as u32;
        if let Some(&(b, m)) = self.regs.get(name) { assert!(m == n, "slot mismatch {name} {m} {n}"); return b; }
        let b = self.nregs;
        self.nregs += n;
        self.regw.extend(lv.iter().map(|x| x.1));
        self.regs.insert(name.to_string(), (b, n));
        b
    }
    fn val(&mut self, ty: &Ty) -> Opd {
        if self.p.peek() == b'%' {
            self.p.p += 1;
            let n = self.p.sym();
            self.def(&n, ty) as Opd
        } else {
            let c = self.p.constant(ty);
            if c.len() != ty.nslots() as usize { panic!("const slots {ty:?} {c:?}"); }
            self.pool.add(c)
        }
    }
    fn tval(&mut self) -> (Ty, Opd) {
        let t = self.p.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn bb(&mut self) -> Bb {
        self.p.expect("label");
        self.p.ws();
        assert_eq!(self.p.b[self.p.p], b'%');
        self.p.p += 1;
        let n = self.p.sym();
        self.bbn(&n)
    }
    fn bbn(&mut self, n: &str) -> Bb {
        let k = self.blocks_ix.len() as u32;
        *self.blocks_ix.entry(n.to_string()).or_insert(k)
    }
    fn skip_flags(&mut self) {
        loop {
            let s = self.p.p;
            let w = self.p.word();
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "samesign" | "nneg" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" => {}
                "inrange" => { self.p.ws(); self.p.skip_parens(); }
                _ => { self.p.p = s; return; }
            }
        }
    }
}

fn intr_of(name: &str) -> Option<Intr> {
    use Intr::*;
    if let Some(r) = name.strip_prefix("llvm.") {
        let base: &str = {
            // strip type suffixes
            let mut e = r.len();
            for (i, c) in r.char_indices() {
                if c == '.' {
                    let rest = &r[i + 1..];
                    let ty = rest.split('.').next().unwrap();
                    let isty = (ty.starts_with('i') && ty[1..].chars().all(|c| c.is_ascii_digit()) && ty.len() > 1)
                        || (ty.starts_with('f') && ty[1..].chars().all(|c| c.is_ascii_digit()) && ty.len() > 1)
                        || (ty.starts_with('v') && ty[1..].starts_with(|c: char| c.is_ascii_digit()))
                        || (ty.starts_with('p') && ty[1..].chars().all(|c| c.is_ascii_digit()) && ty.len() > 1);
                    if isty { e = i; break; }
                }
            }
            &r[..e]
        };
        return Some(match base {
            "assume" => Assume,
            "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" | "prefetch" | "donothing" | "invariant.start" | "invariant.end" | "x86.sse2.pause" | "dbg.value" | "dbg.declare" | "dbg.label" | "sideeffect" | "var.annotation" => Nop,
            "expect" | "expect.with.probability" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" => Expect,
            "memcpy" | "memcpy.inline" => Memcpy,
            "memmove" => Memmove,
            "memset" | "memset.inline" => Memset,
            "umax" => UMax, "umin" => UMin, "smax" => SMax, "smin" => SMin, "abs" => Abs,
            "ctlz" => Ctlz, "cttz" => Cttz, "ctpop" => Ctpop, "bswap" => Bswap, "bitreverse" => Bitreverse,
            "fshl" => Fshl, "fshr" => Fshr,
            "uadd.with.overflow" => UAddO, "usub.with.overflow" => USubO, "sadd.with.overflow" => SAddO, "ssub.with.overflow" => SSubO,
            "umul.with.overflow" => UMulO, "smul.with.overflow" => SMulO,
            "uadd.sat" => UAddSat, "usub.sat" => USubSat, "sadd.sat" => SAddSat, "ssub.sat" => SSubSat,
            "ucmp" => Ucmp, "scmp" => Scmp,
            "fabs" => FAbs, "floor" => Floor, "ceil" => Ceil, "trunc" => Trunc, "sqrt" => Sqrt, "fma" | "fmuladd" => Fma, "copysign" => CopySign,
            "minnum" | "minimumnum" => FMinNum, "maxnum" | "maximumnum" => FMaxNum, "is.fpclass" => IsFpClass,
            "round" => Round, "roundeven" => RoundEven, "rint" | "nearbyint" => Rint,
            "fptoui.sat" => FpToUiSat, "fptosi.sat" => FpToSiSat,
            "trap" | "ubsantrap" | "debugtrap" => Trap,
            "threadlocal.address" => ThreadLocal,
            "load.relative" => LoadRel,
            "is.constant" => IsConstant,
            "ptrmask" => Ptrmask,
            "objectsize" => ObjectSize,
            "vector.reduce.or" => ReduceOr, "vector.reduce.and" => ReduceAnd, "vector.reduce.add" => ReduceAdd,
            _ => Unsupported,
        });
    }
    Some(match name {
        "memcpy" => Memcpy, "memmove" => Memmove, "memset" => Memset, "memcmp" => Memcmp, "bcmp" => Bcmp, "strlen" => Strlen, "memchr" => Memchr,
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free, "posix_memalign" => PosixMemalign,
        "abort" => Trap, "getrandom" => Getrandom,
        "sym_u8" => SymU8, "sym_u16" => SymU16, "sym_u64" => SymU64, "sym_assume" => SymAssume, "sym_fail" => SymFail, "sym_reach" => SymReach,
        "sym_concretize" => SymConcretize, "sym_note" => Nop, "sym_expect_panic" => SymExpectPanic, "sym_fork" => SymFork,
        _ => return None,
    })
}

pub fn parse_func(t: &Text, fi: u32, pool: &mut ConstPool) -> Func {
    let (name, st, end) = t.funcs[fi as usize].clone();
    let mut p = P::new(t, st);
    p.b = &t.src[..end.min(t.src.len())];
    let mut f = FP { p, pool, regs: HashMap::new(), pend: HashMap::new(), nregs: 0, regw: vec![], blocks_ix: HashMap::new(), frame: 0 };
    let _ = &f.pend;
    // header: find '@'
    while f.p.b[f.p.p] != b'@' { f.p.p += 1; }
    f.p.p += 1;
    f.p.sym();
    f.p.expect("(");
    let mut params = vec![];
    let mut auto = 0u32;
    if f.p.peek() != b')' {
        loop {
            if f.p.acc("...") { break; }
            let ty = f.p.ty();
            skip_attrs(&mut f.p);
            let nm = if f.p.peek() == b'%' { f.p.p += 1; f.p.sym() } else { let s = auto.to_string(); s };
            if nm.chars().all(|c| c.is_ascii_digit()) { auto += 1; }
            let r = f.def(&nm, &ty);
            params.push((r, ty.nslots()));
            if f.p.acc(",") { continue; }
            break;
        }
    }
    f.p.expect(")");
    // skip to end of line (the body's '{')
    while f.p.b[f.p.p] != b'\n' { f.p.p += 1; }
    let mut blocks: Vec<Block> = vec![];
    let mut raw_phis: Vec<Vec<(Ty, u32, Vec<(Opd, Bb)>)>> = vec![];
    // determine entry label
    let first_label = {
        let s = f.p.p;
        let mut l = auto.to_string();
        f.p.ws();
        let q = f.p.p;
        if f.p.b[q] != b'%' {
            let mut k = q;
            if f.p.b[k] == b'"' { k += 1; while f.p.b[k] != b'"' { k += 1; } k += 1; }
            else { while f.p.b[k].is_ascii_alphanumeric() || matches!(f.p.b[k], b'_' | b'.' | b'$' | b'-') { k += 1; } }
            if f.p.b[k] == b':' { let (n, _) = sym_at(f.p.b, q); l = n; }
        }
        f.p.p = s;
        l
    };
    let mut cur = f.bbn(&first_label);
    let ensure = |blocks: &mut Vec<Block>, raw: &mut Vec<Vec<(Ty, u32, Vec<(Opd, Bb)>)>>, n: usize| {
        while blocks.len() <= n { blocks.push(Block::default()); raw.push(vec![]); }
    };
    loop {
        f.p.ws();
        if f.p.p >= f.p.b.len() || f.p.b[f.p.p] == b'}' { break; }
        // label?
        let q = f.p.p;
        let mut k = q;
        if f.p.b[k] == b'"' { k += 1; while f.p.b[k] != b'"' { k += 1; } k += 1; }
        else { while f.p.b[k].is_ascii_alphanumeric() || matches!(f.p.b[k], b'_' | b'.' | b'$' | b'-') { k += 1; } }
        if k > q && f.p.b[k] == b':' {
            let (n, _) = sym_at(f.p.b, q);
            cur = f.bbn(&n);
            f.p.p = k + 1;
            continue;
        }
        if f.p.b[q] == b'#' { // debug record
            while f.p.b[f.p.p] != b'\n' { f.p.p += 1; }
            continue;
        }
        ensure(&mut blocks, &mut raw_phis, cur as usize);
        let ist = f.p.p;
        f.p.wide = false;
        let mut inst = parse_inst(&mut f, &mut raw_phis[cur as usize]);
        if f.p.wide && inst.is_some() { inst = Some(I::Bad("integer wider than 128 bits".into())); }
        // skip to end of instruction (rest of line: align, metadata)
        let mut dbg = 0u32;
        while f.p.p > ist && matches!(f.p.b[f.p.p - 1], b' ' | b'\t' | b'\r' | b'\n') { f.p.p -= 1; }
        let ls = f.p.p;
        while f.p.b[f.p.p] != b'\n' { f.p.p += 1; }
        if let Some(ix) = find(&f.p.b[ls..f.p.p], b"!dbg !") {
            let mut z = ls + ix + 6;
            while f.p.b[z].is_ascii_digit() { dbg = dbg * 10 + (f.p.b[z] - b'0') as u32; z += 1; }
        }
        if let Some(i) = inst { blocks[cur as usize].insts.push(i); blocks[cur as usize].dbg.push(dbg); }
    }
    let nb = f.blocks_ix.len();
    ensure(&mut blocks, &mut raw_phis, nb - 1);
    for (bi, ph) in raw_phis.into_iter().enumerate() {
        let mut by: Vec<(Bb, Vec<(u32, Opd, u32)>)> = vec![];
        for (ty, d, inc) in ph {
            let lv = ty.lv();
            for (k, l) in lv.iter().enumerate() { blocks[bi].phi_slots.push((d + k as u32, l.1)); }
            let mut seen = vec![];
            for (v, pb) in inc {
                if seen.contains(&pb) { continue; }
                seen.push(pb);
                if let Some(e) = by.iter_mut().find(|x| x.0 == pb) { e.1.push((d, v, lv.len() as u32)); }
                else { by.push((pb, vec![(d, v, lv.len() as u32)])); }
            }
        }
        blocks[bi].phis = by;
    }
    for b in blocks.iter_mut() {
        let mut s = vec![];
        match b.insts.last() {
            Some(I::Br(x)) => s.push(*x),
            Some(I::CondBr(_, x, y)) => { s.push(*x); if x != y { s.push(*y); } }
            Some(I::Switch { def, cases, .. }) => { s.push(*def); for c in cases { if !s.contains(&c.1) { s.push(c.1); } } }
            Some(I::Call(c)) => if let Some(n) = c.normal { s.push(n); },
            _ => {}
        }
        b.succs = s;
    }
    let ipdom = postdom(&blocks);
    let frame_size = f.frame as u32;
    Func { name, id: fi, blocks, nregs: f.nregs, regw: f.regw, params, frame_size, ipdom, live_in: vec![] }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }

fn skip_attrs(p: &mut P) {
    loop {
        p.ws();
        let s = p.p;
        let c = p.b[p.p];
        if c == b'%' || c == b',' || c == b')' || c == b'@' { return; }
        if c == b'"' { // string attr
            p.p += 1; while p.b[p.p] != b'"' { p.p += 1; } p.p += 1;
            if p.b[p.p] == b'=' { p.p += 2; while p.b[p.p] != b'"' { p.p += 1; } p.p += 1; }
            continue;
        }
        let w = p.word();
        match w.as_str() {
            "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg" | "nofree" | "returned" | "immarg" | "swiftself" | "nest" | "nosync" | "writable" | "dead_on_unwind" | "noext" | "allocptr" | "allocalign" | "dead_on_return" | "nofpclass" | "noread" => {
                if p.b[p.p] == b'(' { p.skip_parens(); }
            }
            "align" => { p.ws(); if p.b[p.p] == b'(' { p.skip_parens(); } else { p.num(); } }
            "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "initializes" | "sret" | "byval" | "elementtype" | "inalloca" | "preallocated" | "byref" | "memory" | "alignstack" => {
                p.ws();
                if p.b[p.p] == b'(' { p.skip_parens(); }
            }
            _ => { p.p = s; return; }
        }
    }
}

fn parse_inst(f: &mut FP, phis: &mut Vec<(Ty, u32, Vec<(Opd, Bb)>)>) -> Option<I> {
    let mut dst = None;
    if f.p.peek() == b'%' {
        f.p.p += 1;
        dst = Some(f.p.sym());
        f.p.expect("=");
    }
    let op = f.p.word();
    let d = dst.unwrap_or_default();
    let elem = |t: &Ty| -> (Ty, u16) { match t { Ty::Vec(n, e) => ((**e).clone(), *n as u16), _ => (t.clone(), 1) } };
    match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            f.skip_flags();
            let (t, a) = f.tval();
            f.p.expect(",");
            let b = f.val(&t);
            let (e, n) = elem(&t);
            let dd = f.def(&d, &t);
            let o = match op.as_str() { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
            Some(I::Bin { op: o, w: e.bits() as u16, n, d: dd, a, b })
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            f.skip_flags();
            let (t, a) = f.tval();
            f.p.expect(",");
            let b = f.val(&t);
            let dd = f.def(&d, &t);
            if let Ty::Vec(..) = t { return Some(I::Bad("vector fp".into())); }
            let o = match op.as_str() { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            Some(I::FBin { op: o, w: t.bits() as u16, d: dd, a, b })
        }
        "fneg" => {
            f.skip_flags();
            let (t, a) = f.tval();
            let dd = f.def(&d, &t);
            Some(I::FNeg { w: t.bits() as u16, d: dd, a })
        }
        "icmp" => {
            f.skip_flags();
            let p = f.p.word();
            let p = match p.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("pred {p}") };
            let (t, a) = f.tval();
            f.p.expect(",");
            let b = f.val(&t);
            let (e, n) = elem(&t);
            let rt = if n > 1 || matches!(t, Ty::Vec(..)) { Ty::Vec(n as u64, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
            let dd = f.def(&d, &rt);
            Some(I::ICmp { p, w: e.bits() as u16, n, d: dd, a, b })
        }
        "fcmp" => {
            f.skip_flags();
            let p = f.p.word();
            use FPred::*;
            let p = match p.as_str() { "false" => False, "oeq" => Oeq, "ogt" => Ogt, "oge" => Oge, "olt" => Olt, "ole" => Ole, "one" => One, "ord" => Ord, "ueq" => Ueq, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "une" => Une, "uno" => Uno, _ => True };
            let (t, a) = f.tval();
            f.p.expect(",");
            let b = f.val(&t);
            let dd = f.def(&d, &Ty::Int(1));
            Some(I::FCmp { p, w: t.bits() as u16, d: dd, a, b })
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
            f.skip_flags();
            let (st, a) = f.tval();
            f.p.expect("to");
            let tt = f.p.ty();
            let dd = f.def(&d, &tt);
            if op == "bitcast" && (matches!(st, Ty::Vec(..)) || matches!(tt, Ty::Vec(..))) {
                return Some(I::BitcastVec { sw: st.lv().iter().map(|x| x.1).collect(), dw: tt.lv().iter().map(|x| x.1).collect(), d: dd, a });
            }
            let (se, n) = elem(&st);
            let (de, _) = elem(&tt);
            let (sw, dw) = (se.bits() as u16, de.bits() as u16);
            let o = match op.as_str() {
                "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt,
                "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt,
                _ => if sw == dw { CastOp::Copy } else if sw < dw { CastOp::ZExt } else { CastOp::Trunc },
            };
            Some(I::Cast { op: o, sw, dw, n, d: dd, a })
        }
        "freeze" => {
            let (t, a) = f.tval();
            let dd = f.def(&d, &t);
            Some(I::Copy { d: dd, parts: vec![(a, t.nslots())] })
        }
        "select" => {
            f.skip_flags();
            let (ct, c) = f.tval();
            f.p.expect(",");
            let (t, a) = f.tval();
            f.p.expect(",");
            let (_, b) = f.tval();
            let dd = f.def(&d, &t);
            Some(I::Select { d: dd, c, cn: ct.nslots() as u16, a, b, ws: Rc::new(t.lv().iter().map(|x| x.1).collect()) })
        }
        "phi" => {
            f.skip_flags();
            let t = f.p.ty();
            let dd = f.def(&d, &t);
            let mut inc = vec![];
            loop {
                f.p.expect("[");
                let v = f.val(&t);
                f.p.expect(",");
                f.p.ws();
                f.p.p += 1;
                let n = f.p.sym();
                let b = f.bbn(&n);
                f.p.expect("]");
                inc.push((v, b));
                f.p.sp();
                if f.p.b[f.p.p] == b',' {
                    // another incoming or metadata
                    let s = f.p.p;
                    f.p.p += 1;
                    if f.p.peek() == b'[' { continue; }
                    f.p.p = s;
                }
                break;
            }
            phis.push((t, dd, inc));
            None
        }
        "br" => {
            f.p.ws();
            if f.p.b[f.p.p..].starts_with(b"label") { let b = f.bb(); return Some(I::Br(b)); }
            let (_, c) = f.tval();
            f.p.expect(",");
            let a = f.bb();
            f.p.expect(",");
            let b = f.bb();
            Some(I::CondBr(c, a, b))
        }
        "switch" => {
            let (t, v) = f.tval();
            f.p.expect(",");
            let def = f.bb();
            f.p.expect("[");
            let mut cases = vec![];
            while f.p.peek() != b']' {
                let ct = f.p.ty();
                let c = f.p.constant(&ct)[0].0;
                f.p.expect(",");
                let b = f.bb();
                cases.push((c, b));
            }
            f.p.expect("]");
            let map = cases.iter().map(|c| (c.0 as u64, c.1)).collect();
            Some(I::Switch { v, w: t.bits() as u16, def, cases, map })
        }
        "ret" => {
            let t = f.p.ty();
            if t == Ty::Void { return Some(I::Ret { v: -1, n: 0 }); }
            let v = f.val(&t);
            Some(I::Ret { v, n: t.nslots() })
        }
        "unreachable" => Some(I::Unreachable),
        "resume" => Some(I::Unreachable),
        "landingpad" => {
            let t = f.p.ty();
            f.def(&d, &t);
            // skip clause lines
            loop {
                while f.p.b[f.p.p] != b'\n' { f.p.p += 1; }
                let s = f.p.p;
                f.p.ws();
                if f.p.b[f.p.p..].starts_with(b"cleanup") || f.p.b[f.p.p..].starts_with(b"catch ") || f.p.b[f.p.p..].starts_with(b"filter ") { continue; }
                f.p.p = s;
                break;
            }
            Some(I::Bad("landingpad".into()))
        }
        "load" => {
            f.skip_flags();
            let t = f.p.ty();
            f.p.expect(",");
            let (_, p) = f.tval();
            let dd = f.def(&d, &t);
            if let Ty::Vec(_, e) = &t { if e.bits() % 8 != 0 { return Some(I::Bad("vec load".into())); } }
            Some(I::Load { d: dd, p, lv: Rc::new(t.lv()), size: t.store_size() as u32 })
        }
        "store" => {
            f.skip_flags();
            let (t, v) = f.tval();
            f.p.expect(",");
            let (_, p) = f.tval();
            Some(I::Store { v, p, lv: Rc::new(t.lv()), size: t.store_size() as u32 })
        }
        "alloca" => {
            f.skip_flags();
            let t = f.p.ty();
            let mut n = 1u64;
            let mut al = t.align();
            while f.p.acc(",") {
                if f.p.acc("align") { al = f.p.num() as u64; }
                else if f.p.peek() == b'!' { break; }
                else {
                    let it = f.p.ty();
                    if f.p.peek() == b'%' { return Some(I::Bad("dynamic alloca".into())); }
                    n = f.p.constant(&it)[0].0 as u64;
                }
            }
            f.frame = align_to(f.frame, al.max(1));
            let off = f.frame as u32;
            f.frame += (t.size() * n).max(1);
            let dd = f.def(&d, &Ty::Ptr);
            Some(I::Alloca { d: dd, off })
        }
        "getelementptr" => {
            f.skip_flags();
            let et = f.p.ty();
            f.p.expect(",");
            let (pt, p) = f.tval();
            if let Ty::Vec(..) = pt { return Some(I::Bad("vector gep".into())); }
            let mut off = 0u64;
            let mut idx = vec![];
            let mut cur = et.clone();
            let mut first = true;
            loop {
                let s = f.p.p;
                if !f.p.acc(",") { break; }
                if f.p.peek() == b'!' { f.p.p = s; break; }
                let it = f.p.ty();
                let scale;
                if f.p.peek() == b'%' {
                    let o = f.val(&it);
                    if first { scale = et.size(); }
                    else { cur = match cur { Ty::Arr(_, e) | Ty::Vec(_, e) => *e, _ => panic!("gep") }; scale = cur.size(); }
                    idx.push((o, it.bits() as u16, scale));
                } else {
                    let c = f.p.constant(&it)[0];
                    let ix = crate::expr::sext128(c.0, c.1 as u32) as i64;
                    if first { off = off.wrapping_add((ix as u64).wrapping_mul(et.size())); }
                    else {
                        match cur.clone() {
                            Ty::Struct(fs, _) => { off = off.wrapping_add(cur.field_off(ix as usize)); cur = fs[ix as usize].clone(); }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { off = off.wrapping_add((ix as u64).wrapping_mul(e.size())); cur = *e; }
                            _ => panic!("gep2"),
                        }
                    }
                }
                first = false;
            }
            let dd = f.def(&d, &Ty::Ptr);
            Some(I::Gep { d: dd, p, off, idx })
        }
        "extractvalue" => {
            let (t, a) = f.tval();
            let mut cur = &t;
            let mut off = 0;
            loop {
                let s = f.p.p;
                if !f.p.acc(",") { break; }
                if !f.p.peek().is_ascii_digit() { f.p.p = s; break; }
                let i = f.p.num() as usize;
                let (c, o) = cur.sub(i);
                off += o;
                cur = c;
            }
            let cur = cur.clone();
            let dd = f.def(&d, &cur);
            Some(I::Copy { d: dd, parts: vec![(opd_off(a, off), cur.nslots())] })
        }
        "insertvalue" => {
            let (t, a) = f.tval();
            f.p.expect(",");
            let (vt, v) = f.tval();
            let mut cur = &t;
            let mut off = 0;
            loop {
                let s = f.p.p;
                if !f.p.acc(",") { break; }
                if !f.p.peek().is_ascii_digit() { f.p.p = s; break; }
                let i = f.p.num() as usize;
                let (c, o) = cur.sub(i);
                off += o;
                cur = c;
            }
            let n = t.nslots();
            let m = vt.nslots();
            let t2 = t.clone();
            let dd = f.def(&d, &t2);
            let mut parts = vec![];
            if off > 0 { parts.push((a, off)); }
            parts.push((v, m));
            if off + m < n { parts.push((opd_off(a, off + m), n - off - m)); }
            Some(I::Copy { d: dd, parts })
        }
        "extractelement" => {
            let (t, a) = f.tval();
            f.p.expect(",");
            let it = f.p.ty();
            let (e, n) = elem(&t);
            let dd = f.def(&d, &e);
            if f.p.peek() == b'%' {
                let i = f.val(&it);
                Some(I::DynExtract { d: dd, a, n, i })
            } else {
                let i = f.p.constant(&it)[0].0 as u32;
                Some(I::Copy { d: dd, parts: vec![(opd_off(a, i), 1)] })
            }
        }
        "insertelement" => {
            let (t, a) = f.tval();
            f.p.expect(",");
            let (_, v) = f.tval();
            f.p.expect(",");
            let it = f.p.ty();
            if f.p.peek() == b'%' { return Some(I::Bad("dyn insertelement".into())); }
            let i = f.p.constant(&it)[0].0 as u32;
            let n = t.nslots();
            let dd = f.def(&d, &t);
            let mut parts = vec![];
            if i > 0 { parts.push((a, i)); }
            parts.push((v, 1));
            if i + 1 < n { parts.push((opd_off(a, i + 1), n - i - 1)); }
            Some(I::Copy { d: dd, parts })
        }
        "shufflevector" => {
            let (t, a) = f.tval();
            f.p.expect(",");
            let (_, b) = f.tval();
            f.p.expect(",");
            let mt = f.p.ty();
            let m = f.p.constant(&mt);
            let n = t.nslots();
            let (e, _) = elem(&t);
            let dd = f.def(&d, &Ty::Vec(m.len() as u64, Box::new(e)));
            let srcs = m.iter().map(|x| { let i = x.0 as u32; if i < n { opd_off(a, i) } else { opd_off(b, (i - n).min(n - 1)) } }).collect();
            Some(I::Shuffle { d: dd, srcs })
        }
        "atomicrmw" => {
            f.skip_flags();
            let o = f.p.word();
            let (_, p) = f.tval();
            f.p.expect(",");
            let (t, v) = f.tval();
            let dd = f.def(&d, &t);
            let op = match o.as_str() { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, _ => 99 };
            Some(I::Rmw { op, w: t.bits() as u16, d: dd, p, v })
        }
        "cmpxchg" => {
            f.skip_flags();
            let (_, p) = f.tval();
            f.p.expect(",");
            let (t, c) = f.tval();
            f.p.expect(",");
            let (_, v) = f.tval();
            let dd = f.def(&d, &Ty::Struct(vec![t.clone(), Ty::Int(1)], false));
            Some(I::CmpXchg { w: t.bits() as u16, d: dd, p, c, v })
        }
        "fence" => None,
        "tail" | "musttail" | "notail" => {
            f.p.expect("call");
            parse_call(f, d, false)
        }
        "call" => parse_call(f, d, false),
        "invoke" => parse_call(f, d, true),
        _ => {
            let s = f.p.p;
            let e = f.p.b[s..].iter().position(|&c| c == b'\n').unwrap_or(0) + s;
            if !d.is_empty() { panic!("unknown instruction {op} {}", String::from_utf8_lossy(&f.p.b[s..e])); }
            Some(I::Bad(op))
        }
    }
}

fn parse_call(f: &mut FP, d: String, invoke: bool) -> Option<I> {
    f.skip_flags();
    // cc / ret attrs
    loop {
        let s = f.p.p;
        let w = f.p.pword();
        match w.as_str() {
            "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" | "swiftcc" | "cc" | "x86_64_sysvcc" | "preserve_nonecc" => { f.p.word(); }
            _ => {
                skip_attrs(&mut f.p);
                if f.p.p == s || { f.p.ws(); f.p.p == s } { break; }
                // progress made by attrs?
                let _ = s;
            }
        }
        f.p.ws();
    }
    let rt = f.p.ty();
    f.p.ws();
    let mut callee = None;
    let mut name = String::new();
    if f.p.b[f.p.p] == b'@' {
        f.p.p += 1;
        name = f.p.sym();
    } else if f.p.b[f.p.p] == b'%' {
        f.p.p += 1;
        let n = f.p.sym();
        callee = Some(Callee::Indirect(f.def(&n, &Ty::Ptr) as Opd));
    } else if f.p.b[f.p.p..].starts_with(b"asm") {
        // inline asm
        let e = f.p.b[f.p.p..].iter().position(|&c| c == b'\n').unwrap() + f.p.p;
        let line = String::from_utf8_lossy(&f.p.b[f.p.p..e]).into_owned();
        if !d.is_empty() { f.def(&d, &rt); }
        // empty asm = optimisation barrier (black_box): treat void ones as no-op
        let st = line.find('"').unwrap();
        let body_empty = line[st + 1..].starts_with('"');
        f.p.p = e;
        if body_empty && rt == Ty::Void { return None; }
        return Some(I::Bad(format!("inline asm {line}")));
    } else {
        let c = f.p.constant(&Ty::Ptr);
        callee = Some(Callee::Indirect(f.pool.add(c)));
    }
    f.p.expect("(");
    let mut args = vec![];
    let mut argw = vec![];
    if f.p.peek() != b')' {
        loop {
            let t = f.p.ty();
            if t == Ty::Meta {
                // skip metadata arg
                let mut depth = 0;
                loop {
                    match f.p.b[f.p.p] { b'(' | b'{' => depth += 1, b')' | b'}' if depth > 0 => depth -= 1, b',' | b')' if depth == 0 => break, b'"' => { f.p.p += 1; while f.p.b[f.p.p] != b'"' { f.p.p += 1; } } _ => {} }
                    f.p.p += 1;
                }
            } else {
                skip_attrs(&mut f.p);
                let v = f.val(&t);
                args.push((v, t.nslots()));
                argw.push(if t.nslots() == 1 { t.lv()[0].1 } else if let Ty::Vec(_, e) = &t { e.bits() as u16 } else { 0 });
            }
            if f.p.acc(",") { continue; }
            break;
        }
    }
    f.p.expect(")");
    let mut normal = None;
    if invoke {
        // find "to label"
        while !f.p.b[f.p.p..].starts_with(b"to label") { f.p.p += 1; }
        f.p.p += 3;
        normal = Some(f.bb());
        f.p.expect("unwind");
        f.bb();
    }
    let dd = if rt != Ty::Void && !d.is_empty() { f.def(&d, &rt) } else { 0 };
    let n = if d.is_empty() { 0 } else { rt.nslots() };
    let retw: Vec<u16> = rt.lv().iter().map(|x| x.1).collect();
    let mut extra = 0;
    let callee = match callee {
        Some(c) => c,
        None => {
            let nm = f.p.t.aliases.get(&name).cloned().unwrap_or(name);
            if let Some(i) = intr_of(&nm) {
                if i == Intr::Nop { return normal.map(I::Br); }
                if i == Intr::Unsupported { extra = f.p.t.fn_ix.get(&nm).copied().unwrap_or(0); }
                Callee::Intr(i)
            } else {
                match f.p.t.fn_ix.get(&nm) {
                    Some(&i) => {
                        if is_panic_fn(&nm) { extra = i; Callee::Intr(Intr::PanicFn) }
                        else if (i as usize) < f.p.t.funcs.len() { Callee::Direct(i) }
                        else { extra = i; Callee::Intr(Intr::Unsupported) }
                    }
                    None => panic!("unknown callee {nm}"),
                }
            }
        }
    };
    Some(I::Call(Box::new(CallI { callee, args, argw, d: dd, n, retw, normal, extra })))
}

pub fn is_panic_fn(n: &str) -> bool {
    if !n.starts_with("_R") { return false; }
    if n.contains("4core9panicking") || n.contains("_3std9panicking") && !n.contains("panic_count") { return true; }
    if n.contains("13unwrap_failed") || n.contains("13expect_failed") || n.contains("16slice_index_fail") || n.contains("17slice_error_fail") { return true; }
    if n.contains("7raw_vec") && (n.contains("12handle_error") || n.contains("17capacity_overflow")) { return true; }
    if n.contains("18handle_alloc_error") { return true; }
    false
}

/// immediate post-dominators by iterative dataflow on bitsets (functions are small enough)
fn postdom(blocks: &[Block]) -> Vec<u32> {
    let n = blocks.len();
    // reverse post order on reversed CFG from virtual exit; use Cooper-Harvey-Kennedy
    let exit = n;
    let mut preds_rev: Vec<Vec<usize>> = vec![vec![]; n + 1]; // successors in the reversed graph
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in blocks.iter().enumerate() {
        for &s in &b.succs { succ[i].push(s as usize); }
        if let Some(I::Ret { .. }) = b.insts.last() { succ[i].push(exit); }
    }
    for (i, s) in succ.iter().enumerate() { for &x in s { preds_rev[x].push(i); } }
    // DFS on reversed graph from exit
    let mut order = vec![]; // postorder
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((x, k)) = st.pop() {
        if k < preds_rev[x].len() {
            st.push((x, k + 1));
            let y = preds_rev[x][k];
            if !seen[y] { seen[y] = true; st.push((y, 0)); }
        } else { order.push(x); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() { num[x] = i; }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().rev() {
            if x == exit { continue; }
            let mut new = usize::MAX;
            for &s in &succ[x] {
                if idom[s] == usize::MAX { continue; }
                new = if new == usize::MAX { s } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while num[a] < num[b] { a = idom[a]; }
                        while num[b] < num[a] { b = idom[b]; }
                    }
                    a
                };
            }
            if new != idom[x] { idom[x] = new; changed = true; }
        }
    }
    (0..n).map(|i| if idom[i] == usize::MAX { u32::MAX } else if idom[i] == exit { EXIT } else { idom[i] as u32 }).collect()
}

/// registers (slots) used by an instruction
pub fn uses(i: &I, f: &mut impl FnMut(Opd, u32)) {
    match i {
        I::Bin { n, a, b, .. } | I::ICmp { n, a, b, .. } => { f(*a, *n as u32); f(*b, *n as u32) }
        I::FCmp { a, b, .. } | I::FBin { a, b, .. } => { f(*a, 1); f(*b, 1) }
        I::FNeg { a, .. } => f(*a, 1),
        I::Cast { n, a, .. } => f(*a, *n as u32),
        I::BitcastVec { sw, a, .. } => f(*a, sw.len() as u32),
        I::Select { c, cn, a, b, ws, .. } => { f(*c, *cn as u32); f(*a, ws.len() as u32); f(*b, ws.len() as u32) }
        I::Load { p, .. } => f(*p, 1),
        I::Store { v, p, lv, .. } => { f(*v, lv.len() as u32); f(*p, 1) }
        I::Gep { p, idx, .. } => { f(*p, 1); for x in idx { f(x.0, 1) } }
        I::Alloca { .. } | I::Br(_) | I::Unreachable | I::Bad(_) => {}
        I::Copy { parts, .. } => for p in parts { f(p.0, p.1) },
        I::Call(c) => {
            if let Callee::Indirect(o) = c.callee { f(o, 1) }
            for a in &c.args { f(a.0, a.1) }
        }
        I::CondBr(c, ..) => f(*c, 1),
        I::Switch { v, .. } => f(*v, 1),
        I::Ret { v, n } => f(*v, *n),
        I::Rmw { p, v, .. } => { f(*p, 1); f(*v, 1) }
        I::CmpXchg { p, c, v, .. } => { f(*p, 1); f(*c, 1); f(*v, 1) }
        I::DynExtract { a, n, i, .. } => { f(*a, *n as u32); f(*i, 1) }
        I::Shuffle { srcs, .. } => for s in srcs { f(*s, 1) },
    }
}
pub fn defs(i: &I, f: &mut impl FnMut(u32, u32)) {
    match i {
        I::Bin { n, d, .. } | I::ICmp { n, d, .. } | I::Cast { n, d, .. } => f(*d, *n as u32),
        I::FCmp { d, .. } | I::FBin { d, .. } | I::FNeg { d, .. } | I::Gep { d, .. } | I::Alloca { d, .. } | I::Rmw { d, .. } | I::DynExtract { d, .. } => f(*d, 1),
        I::BitcastVec { dw, d, .. } => f(*d, dw.len() as u32),
        I::Select { d, ws, .. } => f(*d, ws.len() as u32),
        I::Load { d, lv, .. } => f(*d, lv.len() as u32),
        I::Copy { d, parts } => f(*d, parts.iter().map(|p| p.1).sum()),
        I::Call(c) => f(c.d, c.n),
        I::CmpXchg { d, .. } => f(*d, 2),
        I::Shuffle { d, srcs } => f(*d, srcs.len() as u32),
        I::Store { .. } | I::Br(_) | I::CondBr(..) | I::Switch { .. } | I::Ret { .. } | I::Unreachable | I::Bad(_) => {}
    }
}

/// live-in register slots per block (phi destinations of the block count as not live-in)
pub fn liveness(f: &Func) -> Vec<Vec<u64>> {
    let words = (f.nregs as usize).div_ceil(64).max(1);
    let n = f.blocks.len();
    let mut useb = vec![vec![0u64; words]; n];
    let mut defb = vec![vec![0u64; words]; n];
    for (bi, b) in f.blocks.iter().enumerate() {
        for (d, _) in &b.phi_slots { defb[bi][*d as usize / 64] |= 1 << (d % 64); }
        for i in &b.insts {
            let (ub, db) = (&mut useb[bi], &defb[bi]);
            uses(i, &mut |o, k| if o >= 0 { for x in o as u32..o as u32 + k { if db[x as usize / 64] >> (x % 64) & 1 == 0 { ub[x as usize / 64] |= 1 << (x % 64); } } });
            let db = &mut defb[bi];
            defs(i, &mut |o, k| for x in o..o + k { db[x as usize / 64] |= 1 << (x % 64); });
        }
    }
    let mut live = useb.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for bi in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &f.blocks[bi].succs {
                for k in 0..words { out[k] |= live[s as usize][k]; }
                for ph in &f.blocks[s as usize].phis {
                    if ph.0 == bi as u32 {
                        for (_, o, k) in &ph.1 { if *o >= 0 { for x in *o as u32..*o as u32 + k { out[x as usize / 64] |= 1 << (x % 64); } } }
                    }
                }
            }
            for k in 0..words {
                let v = useb[bi][k] | (out[k] & !defb[bi][k]);
                if v & !live[bi][k] != 0 { live[bi][k] |= v; changed = true; }
            }
        }
    }
    live
}
