//! Hash-consed bit-vector expressions with a local simplifier.
//! Width of every node is 1..=128 bits.  Node 0 is reserved ("no expression").
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    None,
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // b = low bit
    Concat,  // a = high part, b = low part
    Table,   // a = index expr (byte offset), b = table id ; reads w/8 bytes little endian
    SMulOvf,
    UMulOvf,
    InSet, // a = variable node, b = set id
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub consts: Vec<u128>,
    const_ix: HashMap<(u128, u8), E, BuildFx>,
    ix: HashMap<Node, E, BuildFx>,
    pub sup: Vec<u64>,
    /// mask of bits that may be one
    pub may1: Vec<u128>,
    pub tables: Vec<Rc<Vec<u8>>>,
    table_ix: HashMap<Rc<Vec<u8>>, u32>,
    pub var_w: HashMap<u32, u8>,
    truth_cache: HashMap<E, u32, BuildFx>,
    /// interned sets of values of one variable (bitset, width)
    pub sets: Vec<(Rc<Vec<u64>>, u32)>,
    set_ix: HashMap<Rc<Vec<u64>>, u32, BuildFx>,
    set_and: HashMap<(u32, u32), u32, BuildFx>,
    set_not: HashMap<u32, u32, BuildFx>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx(u64);
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn eval_op(op: Op, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, aw) < sext128(b, aw)) as u128,
        Op::Sle => (sext128(a, aw) <= sext128(b, aw)) as u128,
        Op::SMulOvf => {
            let (x, y) = (sext128(a, aw), sext128(b, aw));
            match x.checked_mul(y) {
                None => 1,
                Some(r) => {
                    let t = sext128((r as u128) & mask(aw), aw);
                    (t != r) as u128
                }
            }
        }
        Op::UMulOvf => match a.checked_mul(b) {
            None => 1,
            Some(r) => (r > mask(aw)) as u128,
        },
        _ => unreachable!(),
    }
}

fn sigbits(m: u128) -> u32 {
    128 - m.leading_zeros()
}

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            nodes: vec![Node { op: Op::None, w: 0, a: 0, b: 0, c: 0 }],
            consts: vec![0],
            const_ix: HashMap::default(),
            ix: HashMap::default(),
            sup: vec![0],
            may1: vec![0],
            tables: vec![],
            table_ix: HashMap::new(),
            var_w: HashMap::new(),
            truth_cache: HashMap::default(), sets: vec![], set_ix: HashMap::default(), set_and: HashMap::default(), set_not: HashMap::default(),
        }
    }
    #[inline]
    /// does the expression multiply or divide values wider than 64 bits?
    pub fn wide_mul(&self, e: E) -> bool {
        self.postorder(e).iter().any(|&x| {
            let n = self.nodes[x as usize];
            matches!(n.op, Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::SMulOvf | Op::UMulOvf) && self.w(n.a) > 64
        })
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.const_ix.get(&(v, w as u8)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as u32;
        self.nodes.push(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 });
        self.sup.push(0);
        self.may1.push(v);
        self.const_ix.insert((v, w as u8), e);
        e
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn var(&mut self, i: u32, w: u32) -> E {
        self.var_w.insert(i, w as u8);
        let m = mask(w);
        self.intern(Node { op: Op::Var, w: w as u8, a: i, b: 0, c: 0 }, 1u64 << i, m)
    }
    fn intern(&mut self, n: Node, sup: u64, may1: u128) -> E {
        if let Some(&e) = self.ix.get(&n) {
            return e;
        }
        let e = self.nodes.len() as u32;
        self.nodes.push(n);
        self.sup.push(sup);
        self.may1.push(may1);
        self.ix.insert(n, e);
        e
    }
    pub fn not1(&mut self, a: E) -> E {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.konst(v ^ 1, 1)
            }
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Xor if self.as_const(n.b) == Some(1) => n.a,
            Op::InSet => { let i = self.set_not(n.b); let (v, w) = (self.nodes[n.a as usize].a, self.w(n.a)); self.inset(v, w, i) }
            _ => {
                let o = self.konst(1, 1);
                self.raw_bin(Op::Xor, 1, a, o)
            }
        }
    }
    // ----- sets -----
    pub fn set_id(&mut self, bits: Vec<u64>, w: u32) -> u32 {
        if let Some(i) = self.set_ix.get(&bits) { if self.sets[*i as usize].1 == w { return *i; } }
        let r = Rc::new(bits);
        let i = self.sets.len() as u32;
        self.sets.push((r.clone(), w));
        self.set_ix.insert(r, i);
        i
    }
    pub fn set_full(&mut self, w: u32) -> u32 {
        let n = 1usize << w;
        let v = if n < 64 { vec![(1u64 << n) - 1] } else { vec![u64::MAX; n / 64] };
        self.set_id(v, w)
    }
    pub fn set_first(&self, i: u32) -> Option<u64> {
        self.sets[i as usize].0.iter().enumerate().find(|(_, w)| **w != 0).map(|(i, w)| i as u64 * 64 + w.trailing_zeros() as u64)
    }
    pub fn set_has(&self, i: u32, v: u64) -> bool { self.sets[i as usize].0[v as usize / 64] >> (v % 64) & 1 == 1 }
    pub fn set_and(&mut self, a: u32, b: u32) -> u32 {
        if a == b { return a; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.set_and.get(&k) { return *r; }
        let (x, w) = self.sets[a as usize].clone();
        let y = self.sets[b as usize].0.clone();
        let v = x.iter().zip(y.iter()).map(|(p, q)| p & q).collect();
        let r = self.set_id(v, w);
        self.set_and.insert(k, r);
        r
    }
    pub fn set_not(&mut self, a: u32) -> u32 {
        if let Some(r) = self.set_not.get(&a) { return *r; }
        let (x, w) = self.sets[a as usize].clone();
        let f = self.set_full(w);
        let y = self.sets[f as usize].0.clone();
        let v = x.iter().zip(y.iter()).map(|(p, q)| !p & q).collect();
        let r = self.set_id(v, w);
        self.set_not.insert(a, r);
        self.set_not.insert(r, a);
        r
    }
    pub fn set_or(&mut self, a: u32, b: u32) -> u32 {
        let (x, y) = (self.set_not(a), self.set_not(b));
        let z = self.set_and(x, y);
        self.set_not(z)
    }
    pub fn inset(&mut self, v: u32, w: u32, set: u32) -> E {
        if self.set_first(set).is_none() { return self.konst(0, 1); }
        if set == self.set_full(w) { return self.konst(1, 1); }
        let a = self.var(v, w);
        let sup = self.sup[a as usize];
        let e = self.intern(Node { op: Op::InSet, w: 1, a, b: set, c: 0 }, sup, 1);
        self.truth_cache.insert(e, set);
        e
    }
    fn raw_bin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        let sup = self.sup[a as usize] | self.sup[b as usize];
        let (ma, mb) = (self.may1[a as usize], self.may1[b as usize]);
        let m = mask(w);
        let may1 = match op {
            Op::And => ma & mb,
            Op::Or | Op::Xor => ma | mb,
            Op::Add => {
                let s = sigbits(ma).max(sigbits(mb)) + 1;
                mask(s.min(128)) & m
            }
            Op::Mul => {
                let s = sigbits(ma) + sigbits(mb);
                let tz = (ma.trailing_zeros().min(127) + mb.trailing_zeros().min(127)).min(127);
                mask(s.min(128)) & m & !mask(tz)
            }
            Op::UDiv => if let Some(k) = self.as_const(b) {
                if k == 0 { m } else { mask(sigbits(ma / k)) & m }
            } else { m },
            Op::URem => if let Some(k) = self.as_const(b) {
                if k == 0 { ma } else { mask(sigbits((k - 1).min(ma))) & m }
            } else { mask(sigbits(ma)) },
            Op::Shl => if let Some(k) = self.as_const(b) {
                if k >= w as u128 { 0 } else { (ma << k) & m }
            } else { m },
            Op::LShr => if let Some(k) = self.as_const(b) {
                if k >= w as u128 { 0 } else { ma >> k }
            } else { mask(sigbits(ma)) },
            _ => m,
        };
        if may1 == 0 {
            return self.konst(0, w);
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0 }, sup, may1)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let aw = self.w(a);
        debug_assert_eq!(aw, self.w(b), "{op:?}");
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::SMulOvf | Op::UMulOvf => 1,
            _ => aw,
        };
        let ca = self.as_const(a);
        let cb = self.as_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval_op(op, w, aw, x, y);
            return self.konst(v, w);
        }
        // canonicalise: constant on the right for commutative ops
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::SMulOvf | Op::UMulOvf);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(aw);
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        let ma = self.may1[a as usize];
        let mb = self.may1[b as usize];
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k.wrapping_add(k2), aw);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if let Some(r) = self.push_ite(op, a, b) { return r; }
                }
                if ma & mb == 0 && cb.is_none() { return self.bin(Op::Or, a, b); }
            }
            Op::Sub => {
                if let Some(k) = cb {
                    let c = self.konst(k.wrapping_neg(), aw);
                    return self.bin(Op::Add, a, c);
                }
                if a == b { return self.konst(0, aw); }
                if let (true, Some(_)) = (na.op == Op::Add && na.a == b, self.as_const(na.b)) { return na.b; }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let c = self.konst(k.trailing_zeros() as u128, aw);
                        return self.bin(Op::Shl, a, c);
                    }
                    if let Some(r) = self.push_ite(op, a, b) { return r; }
                }
                let s = (sigbits(ma) + sigbits(mb)).max(1);
                if s < aw && s <= 64 && aw > 64 {
                    let x = self.extract(a, 0, s);
                    let y = self.extract(b, 0, s);
                    let r = self.bin(Op::Mul, x, y);
                    return self.zext(r, aw);
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(k) = cb {
                    if k == 1 { return if op == Op::UDiv { a } else { self.konst(0, aw) }; }
                    if k != 0 && k.is_power_of_two() {
                        if op == Op::UDiv {
                            let c = self.konst(k.trailing_zeros() as u128, aw);
                            return self.bin(Op::LShr, a, c);
                        }
                        let c = self.konst(k - 1, aw);
                        return self.bin(Op::And, a, c);
                    }
                    if k > ma { return if op == Op::UDiv { self.konst(0, aw) } else { a }; }
                    let s = sigbits(ma).max(sigbits(k));
                    if k != 0 && s < aw && s > 0 {
                        let x = self.extract(a, 0, s);
                        let y = self.extract(b, 0, s);
                        let r = self.bin(op, x, y);
                        return self.zext(r, aw);
                    }
                    if let Some(r) = self.push_ite(op, a, b) { return r; }
                }
            }
            Op::And => {
                if a == b { return a; }
                if na.op == Op::InSet { let nb = self.nodes[b as usize]; if nb.op == Op::InSet && nb.a == na.a { let i = self.set_and(na.b, nb.b); let (v, w) = (self.nodes[na.a as usize].a, self.w(na.a)); return self.inset(v, w, i); } }
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if ma & !k == 0 { return a; }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k & k2, aw);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    // low mask -> zext(extract)
                    let tz = (!k).trailing_zeros();
                    if k == mask(tz) && tz > 0 && tz < aw {
                        let x = self.extract(a, 0, tz);
                        return self.zext(x, aw);
                    }
                    if let Some(r) = self.push_ite(op, a, b) { return r; }
                }
                if ma & mb == 0 { return self.konst(0, aw); }
                if aw == 1 && self.is_not_of(a, b) { return self.konst(0, 1); }
            }
            Op::Or => {
                if a == b { return a; }
                if na.op == Op::InSet { let nb = self.nodes[b as usize]; if nb.op == Op::InSet && nb.a == na.a { let i = self.set_or(na.b, nb.b); let (v, w) = (self.nodes[na.a as usize].a, self.w(na.a)); return self.inset(v, w, i); } }
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k == m { return b; }
                    if let Some(r) = self.push_ite(op, a, b) { return r; }
                } else if aw > 1 && ma & mb == 0 {
                    // disjoint or: try concat of hi/lo
                    let (hi, lo) = if ma > mb { (a, b) } else { (b, a) };
                    let (mh, ml) = (self.may1[hi as usize], self.may1[lo as usize]);
                    let sl = sigbits(ml);
                    if mh.trailing_zeros() >= sl && sl > 0 && sl < aw {
                        let h = self.extract(hi, sl, aw - sl);
                        let l = self.extract(lo, 0, sl);
                        return self.concat(h, l);
                    }
                }
                if aw == 1 && self.is_not_of(a, b) { return self.konst(1, 1); }
            }
            Op::Xor => {
                if a == b { return self.konst(0, aw); }
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if aw == 1 { return self.not1(a); }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k ^ k2, aw);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if let Some(r) = self.push_ite(op, a, b) { return r; }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= aw as u128 { return self.konst(0, aw); }
                    let k = k as u32;
                    let lo = self.extract(a, 0, aw - k);
                    let z = self.konst(0, k);
                    return self.concat(lo, z);
                }
                if ca == Some(0) { return a; }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= aw as u128 { return self.konst(0, aw); }
                    let k = k as u32;
                    let hi = self.extract(a, k, aw - k);
                    return self.zext(hi, aw);
                }
                if ca == Some(0) { return a; }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if ma >> (aw - 1) & 1 == 0 { return self.bin(Op::LShr, a, b); }
                    let k = (k as u32).min(aw - 1);
                    let hi = self.extract(a, k, aw - k);
                    return self.sext(hi, aw);
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = cb {
                    if k & !ma != 0 { return self.konst(0, 1); }
                    if aw == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            let c = self.konst(k, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = k & mask(iw);
                            if (sext128(t, iw) as u128) & m != k { return self.konst(0, 1); }
                            let c = self.konst(t, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k.wrapping_sub(k2), aw);
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Xor => if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k ^ k2, aw);
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = aw - lw;
                            if self.as_const(na.a).is_some() || self.as_const(na.b).is_some() {
                                let kh = self.konst(k >> lw, hw);
                                let kl = self.konst(k, lw);
                                let x = self.bin(Op::Eq, na.a, kh);
                                let y = self.bin(Op::Eq, na.b, kl);
                                return self.bin(Op::And, x, y);
                            }
                        }
                        Op::Ite => {
                            if let Some(r) = self.push_ite(op, a, b) { return r; }
                        }
                        _ => {}
                    }
                } else if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if ma & mb == 0 && false { return a; }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.konst((op == Op::Ule) as u128, 1); }
                if let Some(k) = cb {
                    if op == Op::Ult {
                        if k == 0 { return self.konst(0, 1); }
                        if ma < k { return self.konst(1, 1); }
                        let c = self.konst(k - 1, aw);
                        return self.bin(Op::Ule, a, c);
                    }
                    if ma <= k { return self.konst(1, 1); }
                    if k == 0 { return self.bin(Op::Eq, a, b); }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(k, iw);
                        return self.bin(op, na.a, c);
                    }
                    if na.op == Op::Ite { if let Some(r) = self.push_ite(op, a, b) { return r; } }
                }
                if let Some(k) = ca {
                    if op == Op::Ult {
                        if k >= mb { return self.konst(0, 1); }
                        let c = self.konst(k + 1, aw);
                        return self.bin(Op::Ule, c, b);
                    }
                    if k == 0 { return self.konst(1, 1); }
                    if k > mb { return self.konst(0, 1); }
                    if k == m { return self.bin(Op::Eq, b, a); }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let c = self.konst(k, iw);
                        return self.bin(op, c, nb.a);
                    }
                    if nb.op == Op::Ite { if let Some(r) = self.push_ite2(op, a, b) { return r; } }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst((op == Op::Sle) as u128, 1); }
                let sb = 1u128 << (aw - 1);
                let an = ma & sb == 0; // a known non-negative
                let bn = mb & sb == 0;
                let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                if an && bn { return self.bin(u, a, b); }
                if let Some(k) = cb { if an && k & sb != 0 { return self.konst(0, 1); } }
                if let Some(k) = ca { if bn && k & sb != 0 { return self.konst(1, 1); } }
                if let Some(k) = cb {
                    // x <s 0
                    if k == 0 && op == Op::Slt { return self.extract(a, aw - 1, 1); }
                    if k == m && op == Op::Sle { return self.extract(a, aw - 1, 1); }
                    if na.op == Op::Ite { if let Some(r) = self.push_ite(op, a, b) { return r; } }
                }
                if let Some(k) = ca {
                    if k == m && op == Op::Slt { let x = self.extract(b, aw - 1, 1); return self.not1(x); }
                    if k == 0 && op == Op::Sle { let x = self.extract(b, aw - 1, 1); return self.not1(x); }
                    if nb.op == Op::Ite { if let Some(r) = self.push_ite2(op, a, b) { return r; } }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Op::SMulOvf => {
                let s = sigbits(ma) + sigbits(mb);
                if s < aw { return self.konst(0, 1); }
                if cb == Some(1) || cb == Some(0) { return self.konst(0, 1); }
            }
            Op::UMulOvf => {
                let s = sigbits(ma) + sigbits(mb);
                if s <= aw { return self.konst(0, 1); }
                if cb == Some(1) || cb == Some(0) { return self.konst(0, 1); }
                if let Some(k) = cb {
                    let lim = self.konst(mask(aw) / k, aw);
                    return self.bin(Op::Ult, lim, a);
                }
            }
            _ => {}
        }
        self.raw_bin(op, w, a, b)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        (na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(1))
            || (nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(1))
    }
    /// op(ite(c,k1,k2), k) -> ite(c, op(k1,k), op(k2,k)) when arms are constants
    fn push_ite(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let na = self.nodes[a as usize];
        if na.op != Op::Ite { return None; }
        if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
            let deep = self.ite_depth(a);
            if deep > 40 { return None; }
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return Some(self.ite(na.a, x, y));
        }
        None
    }
    fn push_ite2(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let nb = self.nodes[b as usize];
        if nb.op != Op::Ite { return None; }
        if self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some() {
            let deep = self.ite_depth(b);
            if deep > 40 { return None; }
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, x, y));
        }
        None
    }
    fn ite_depth(&self, mut a: E) -> u32 {
        let mut d = 0;
        loop {
            let n = self.nodes[a as usize];
            if n.op != Op::Ite || d > 60 { return d; }
            d += 1;
            a = if self.as_const(n.b).is_some() { n.c } else { n.b };
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            let (ca, cb) = (self.as_const(a), self.as_const(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let nc = self.nodes[c as usize];
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        // nested same condition
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.nodes[b as usize];
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let o = self.bin(Op::Or, c, nb.a); return self.ite(o, a, nb.c); }
        let sup = self.sup[c as usize] | self.sup[a as usize] | self.sup[b as usize];
        let may1 = self.may1[a as usize] | self.may1[b as usize];
        self.intern(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b }, sup, may1)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.as_const(a) { return self.konst(k, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Ite && (self.as_const(n.b).is_some() && self.as_const(n.c).is_some()) {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        // narrow inner to significant bits
        let s = sigbits(self.may1[a as usize]).max(1);
        let a2 = if s < aw { self.extract(a, 0, s) } else { a };
        let n2 = self.nodes[a2 as usize];
        if n2.op == Op::Const { return self.konst(self.consts[n2.a as usize], w); }
        let a2 = if n2.op == Op::ZExt { n2.a } else { a2 };
        let sup = self.sup[a2 as usize];
        let may1 = self.may1[a2 as usize];
        self.intern(Node { op: Op::ZExt, w: w as u8, a: a2, b: 0, c: 0 }, sup, may1)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.as_const(a) { return self.konst(sext128(k, aw) as u128, w); }
        if self.may1[a as usize] >> (aw - 1) & 1 == 0 { return self.zext(a, w); }
        let n = self.nodes[a as usize];
        if n.op == Op::SExt { return self.sext(n.a, w); }
        if aw == 1 {
            let x = self.konst(u128::MAX, w);
            let y = self.konst(0, w);
            return self.ite(a, x, y);
        }
        let sup = self.sup[a as usize];
        let may1 = mask(w);
        self.intern(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0 }, sup, may1)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if w == aw { return a; }
        if let Some(k) = self.as_const(a) { return self.konst(k >> lo, w); }
        if (self.may1[a as usize] >> lo) & mask(w) == 0 { return self.konst(0, w); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        let sup = self.sup[a as usize];
        let may1 = (self.may1[a as usize] >> lo) & mask(w);
        self.intern(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0 }, sup, may1)
    }
    /// hi:lo
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        let (ch, cl) = (self.as_const(hi), self.as_const(lo));
        if let (Some(h), Some(l)) = (ch, cl) { return self.konst(h << lw | l, w); }
        if ch == Some(0) { return self.zext(lo, w); }
        let nh = self.nodes[hi as usize];
        let nl = self.nodes[lo as usize];
        // adjacent extracts
        let (hb, hlo) = if nh.op == Op::Extract { (nh.a, nh.b) } else { (hi, 0) };
        let (lb, llo) = if nl.op == Op::Extract { (nl.a, nl.b) } else { (lo, 0) };
        if nh.op == Op::Extract && hb == lb && hlo == llo + lw {
            return self.extract(lb, llo, w);
        }
        // hi = concat(x, y) with y adjacent to lo
        if nh.op == Op::Concat {
            let ny = self.nodes[nh.b as usize];
            if ny.op == Op::Extract && ny.a == lb && ny.b == llo + lw && (nl.op == Op::Extract || true) {
                if self.w(lb) >= llo + lw + self.w(nh.b) {
                    let y = self.extract(lb, llo, lw + self.w(nh.b));
                    return self.concat(nh.a, y);
                }
            }
        }
        if nl.op == Op::Concat {
            // hi adjacent to high part of lo
            let nx = self.nodes[nl.a as usize];
            let (xb, xlo) = if nx.op == Op::Extract { (nx.a, nx.b) } else { (nl.a, 0) };
            if nh.op == Op::Extract && hb == xb && hlo == xlo + self.w(nl.a) {
                let x = self.extract(xb, xlo, self.w(nl.a) + hw);
                return self.concat(x, nl.b);
            }
        }
        // hi zext: concat(zext(x), lo) = zext(concat(x, lo))
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, lo);
            return self.zext(x, w);
        }
        let sup = self.sup[hi as usize] | self.sup[lo as usize];
        let may1 = self.may1[hi as usize] << lw | self.may1[lo as usize];
        self.intern(Node { op: Op::Concat, w: w as u8, a: hi, b: lo, c: 0 }, sup, may1)
    }
    pub fn table_id(&mut self, data: Rc<Vec<u8>>) -> u32 {
        if let Some(&t) = self.table_ix.get(&data) { return t; }
        let t = self.tables.len() as u32;
        self.tables.push(data.clone());
        self.table_ix.insert(data, t);
        t
    }
    pub fn table(&mut self, tid: u32, idx: E, w: u32) -> E {
        let sup = self.sup[idx as usize];
        self.intern(Node { op: Op::Table, w: w as u8, a: idx, b: tid, c: 0 }, sup, mask(w))
    }
    pub fn table_read(&self, tid: u32, off: u128, w: u32) -> u128 {
        let t = &self.tables[tid as usize];
        let n = w.div_ceil(8) as usize;
        let mut r = 0u128;
        for i in 0..n {
            let o = off.wrapping_add(i as u128);
            let b = if o < t.len() as u128 { t[o as usize] } else { 0 };
            r |= (b as u128) << (8 * i);
        }
        r & mask(w)
    }

    /// post-order of nodes reachable from e
    pub fn postorder(&self, e: E) -> Vec<E> {
        let mut out = vec![];
        let mut seen: HashMap<E, (), BuildFx> = HashMap::default();
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if done { out.push(x); continue; }
            if seen.insert(x, ()).is_some() { continue; }
            st.push((x, true));
            let n = self.nodes[x as usize];
            let (a, b, c) = kids(&n);
            for k in [a, b, c] { if k != 0 { st.push((k, false)); } }
        }
        out
    }

    /// evaluate under assignment var index -> value
    pub fn eval(&self, e: E, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        if n.op == Op::Const { return self.consts[n.a as usize]; }
        let order = self.postorder(e);
        let mut vals: HashMap<E, u128, BuildFx> = HashMap::default();
        for &x in &order {
            let n = self.nodes[x as usize];
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => model.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(n.w as u32),
                Op::Ite => if vals[&n.a] == 1 { vals[&n.b] } else { vals[&n.c] },
                Op::ZExt => vals[&n.a],
                Op::SExt => sext128(vals[&n.a], self.w(n.a)) as u128 & mask(n.w as u32),
                Op::Extract => (vals[&n.a] >> n.b) & mask(n.w as u32),
                Op::Concat => vals[&n.a] << self.w(n.b) | vals[&n.b],
                Op::Table => self.table_read(n.b, vals[&n.a], n.w as u32),
                Op::InSet => self.set_has(n.b, vals[&n.a] as u64) as u128,
                op => eval_op(op, n.w as u32, self.w(n.a), vals[&n.a], vals[&n.b]),
            };
            vals.insert(x, v);
        }
        vals[&e]
    }

    /// For an expression over exactly one variable of width <= 16: its value for every value of the variable
    pub fn column(&self, e: E, vals_of_var: &[u32]) -> Vec<u128> {
        let order = self.postorder(e);
        let n = vals_of_var.len();
        let mut slot: HashMap<E, usize, BuildFx> = HashMap::default();
        let mut cols: Vec<Vec<u128>> = Vec::with_capacity(order.len());
        for &x in &order {
            let nd = self.nodes[x as usize];
            let w = nd.w as u32;
            let col: Vec<u128> = match nd.op {
                Op::Const => vec![self.consts[nd.a as usize]; n],
                Op::Var => vals_of_var.iter().map(|&v| v as u128).collect(),
                Op::Ite => {
                    let (c, a, b) = (&cols[slot[&nd.a]], &cols[slot[&nd.b]], &cols[slot[&nd.c]]);
                    (0..n).map(|i| if c[i] == 1 { a[i] } else { b[i] }).collect()
                }
                Op::ZExt => cols[slot[&nd.a]].clone(),
                Op::SExt => {
                    let aw = self.w(nd.a);
                    cols[slot[&nd.a]].iter().map(|&v| sext128(v, aw) as u128 & mask(w)).collect()
                }
                Op::Extract => cols[slot[&nd.a]].iter().map(|&v| (v >> nd.b) & mask(w)).collect(),
                Op::Concat => {
                    let lw = self.w(nd.b);
                    let (a, b) = (&cols[slot[&nd.a]], &cols[slot[&nd.b]]);
                    (0..n).map(|i| a[i] << lw | b[i]).collect()
                }
                Op::Table => cols[slot[&nd.a]].iter().map(|&v| self.table_read(nd.b, v, w)).collect(),
                Op::InSet => cols[slot[&nd.a]].iter().map(|&v| self.set_has(nd.b, v as u64) as u128).collect(),
                op => {
                    let aw = self.w(nd.a);
                    let (a, b) = (&cols[slot[&nd.a]], &cols[slot[&nd.b]]);
                    (0..n).map(|i| eval_op(op, w, aw, a[i], b[i])).collect()
                }
            };
            slot.insert(x, cols.len());
            cols.push(col);
        }
        cols.swap_remove(slot[&e])
    }

    pub fn truth_cached(&self, e: E) -> Option<u32> { self.truth_cache.get(&e).copied() }
    pub fn set_truth(&mut self, e: E, t: u32) { self.truth_cache.insert(e, t); }
    /// 128-bit structural hash, independent of variable names and node numbering
    pub fn structural_key(&self, e: E) -> (u64, u64) {
        use std::hash::{Hash, Hasher};
        let order = self.postorder(e);
        let mut pos: HashMap<E, u32, BuildFx> = HashMap::default();
        let mut h1 = std::collections::hash_map::DefaultHasher::new();
        let mut h2 = std::collections::hash_map::DefaultHasher::new();
        0x5bd1u64.hash(&mut h2);
        for &x in &order {
            let n = self.nodes[x as usize];
            let k = kids(&n);
            let g = |e: E| if e == 0 { u32::MAX } else { pos[&e] };
            let t = (n.op as u8, n.w, g(k.0), g(k.1), g(k.2));
            t.hash(&mut h1);
            t.hash(&mut h2);
            match n.op {
                Op::Const => { self.consts[n.a as usize].hash(&mut h1); self.consts[n.a as usize].hash(&mut h2); }
                Op::Table => { self.tables[n.b as usize].hash(&mut h1); self.tables[n.b as usize].hash(&mut h2); }
                Op::InSet => { self.sets[n.b as usize].hash(&mut h1); self.sets[n.b as usize].hash(&mut h2); }
                Op::Extract => { n.b.hash(&mut h1); n.b.hash(&mut h2); }
                _ => {}
            }
            pos.insert(x, pos.len() as u32);
        }
        (h1.finish(), h2.finish())
    }
    /// truth set (bitset over all values of the single variable) of a 1-bit unary expression
    pub fn truth(&mut self, e: E, vw: u32) -> (u32, bool) {
        if let Some(t) = self.truth_cache.get(&e) { return (*t, false); }
        let total = 1u32 << vw;
        let mut bits = vec![0u64; (total as usize).div_ceil(64)];
        let mut start = 0u32;
        while start < total {
            let end = (start + 4096).min(total);
            let vs: Vec<u32> = (start..end).collect();
            let col = self.column(e, &vs);
            for (i, v) in col.iter().enumerate() {
                if *v == 1 {
                    let x = start as usize + i;
                    bits[x / 64] |= 1 << (x % 64);
                }
            }
            start = end;
        }
        let r = self.set_id(bits, vw);
        self.truth_cache.insert(e, r);
        (r, true)
    }
}

pub fn kids(n: &Node) -> (E, E, E) {
    match n.op {
        Op::None | Op::Const | Op::Var => (0, 0, 0),
        Op::ZExt | Op::SExt | Op::Extract | Op::Table | Op::InSet => (n.a, 0, 0),
        Op::Ite => (n.a, n.b, n.c),
        _ => (n.a, n.b, 0),
    }
}
