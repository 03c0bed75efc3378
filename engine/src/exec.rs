//! Symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct V { pub c: u64, pub e: E }
pub const Z: V = V { c: 0, e: 0 };

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<E>, pub ro: bool }

const CHUNK: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub base: u32, pub bb: Bb, pub ip: u32, pub fobj: u32, pub ret_d: u32, pub ret_n: u32, pub normal: Option<Bb> }

#[derive(Clone)]
pub enum Pending { Goto(Bb), Block(Bb, Vec<V>), Ret(Vec<V>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Exit { Done, Fail(u32), Panic(String), MemErr(String), Unsup(String), Assume, Hang, PanicMissing }

#[derive(Clone)]
pub struct State {
    pub mem: Vec<Rc<Chunk>>,
    pub free_ids: Vec<u32>,
    pub next_id: u32,
    pub gl: Vec<(u32, Rc<Obj>)>,
    pub frames: Vec<Frame>,
    pub regs: Vec<V>,
    pub pc: Vec<E>,
    pub dom: Vec<Option<u32>>,
    pub multi: Vec<E>,
    pub multi_mask: u64,
    pub varw: Vec<u8>,
    pub model: Vec<u64>,
    pub decisions: Vec<u32>,
    pub insts: u64,
    pub pending: Option<Pending>,
    pub exit: Option<Exit>,
    pub reach: u64,
    pub expect_panic: bool,
}

#[derive(Clone)]
pub enum Act { Goto(Bb), SetSlot(u32, V), StoreByte(u64, u8), Next }
pub struct Alt { pub cons: E, pub model: Vec<u64>, pub act: Act }
pub enum Ev { Stop, Fork(Vec<Alt>, bool), Exit, Budget }

pub struct Stats {
    pub insts: u64, pub forks: u64, pub merges: u64, pub merged_in: u64, pub unary: u64, pub concretize: u64, pub cache_hits: u64,
    pub cert_fail: u64, pub uncertified: u64, pub unknown_q: u64,
}

pub struct Cfg { pub certify: bool, pub region_budget: u64, pub max_sub: usize, pub max_insts: u64 }

pub struct Eng {
    pub t: Arc<Text>,
    pub x: Exprs,
    pub z: Z3,
    pub pool: ConstPool,
    pub consts: Vec<V>,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub finsts: Vec<u64>,
    pub globals: Vec<Option<(Rc<Obj>, bool)>>,
    pub live: HashMap<(u32, u32), Rc<Vec<u64>>>,
    pub qcache: HashMap<Vec<E>, Res>,
    pub st: Stats,
    pub cfg: Cfg,
    pub fork_sites: HashMap<(u32, u32, u32), u64>,
    conc_fn: Vec<bool>,
    pub cover: HashMap<u32, Vec<u64>>,
    pub shared: SharedTruth,
}
pub type SharedTruth = Arc<std::sync::Mutex<HashMap<(u64, u64), Arc<Vec<u64>>>>>;

enum Err { Mem(String), Unsup(String), Fork(Vec<Alt>), Exit(Exit) }
type R<T> = Result<T, Err>;

impl State {
    pub fn new() -> State {
        State { mem: vec![], free_ids: vec![], next_id: 0, gl: vec![], frames: vec![], regs: vec![], pc: vec![], dom: vec![], multi: vec![], multi_mask: 0, varw: vec![], model: vec![], decisions: vec![], insts: 0, pending: None, exit: None, reach: 0, expect_panic: false }
    }
}

impl Eng {
    pub fn new(t: Arc<Text>, cfg: Cfg, z3_timeout: u32, shared: SharedTruth) -> Eng {
        let nf = t.funcs.len();
        let ng = t.globals.len();
        let conc_fn = (0..nf).map(|i| t.fname(i as u32).contains("dec2flt6lemire13compute_float")).collect();
        Eng {
            t, x: Exprs::new(), z: Z3::new(z3_timeout), pool: ConstPool::new(), consts: vec![], funcs: vec![None; nf], finsts: vec![0; nf], globals: vec![None; ng], live: HashMap::new(), qcache: HashMap::new(),
            st: Stats { insts: 0, forks: 0, merges: 0, merged_in: 0, unary: 0, concretize: 0, cache_hits: 0, cert_fail: 0, uncertified: 0, unknown_q: 0 }, cfg, conc_fn, fork_sites: HashMap::new(), cover: HashMap::new(), shared,
        }
    }
    fn func(&mut self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[i as usize] { return f.clone(); }
        let t = self.t.clone();
        let f = Rc::new(parse_func(&t, i, &mut self.pool));
        while self.consts.len() < self.pool.vals.len() {
            let (v, w) = self.pool.vals[self.consts.len()];
            let v = if w > 64 { V { c: 0, e: self.x.konst(v, w as u32) } } else { V { c: v as u64, e: 0 } };
            self.consts.push(v);
        }
        self.cover.insert(i, vec![0; f.blocks.len()]);
        self.funcs[i as usize] = Some(f.clone());
        f
    }
    #[inline]
    fn ex(&mut self, v: V, w: u32) -> E { if v.e != 0 { v.e } else { self.x.konst(v.c as u128, w) } }
    #[inline]
    fn mk(&self, e: E) -> V {
        if self.x.w(e) <= 64 { if let Some(c) = self.x.as_const(e) { return V { c: c as u64, e: 0 }; } }
        V { c: 0, e }
    }
    fn wide(&mut self, v: u128, w: u32) -> V { if w > 64 { V { c: 0, e: self.x.konst(v, w) } } else { V { c: (v & mask(w)) as u64, e: 0 } } }
    fn cval(&self, v: V) -> Option<u128> { if v.e == 0 { Some(v.c as u128) } else { self.x.as_const(v.e) } }

    // ---------- feasibility ----------
    fn truth(&mut self, e: E, v: u32, w: u32) -> u32 {
        if let Some(t) = self.x.truth_cached(e) { return t; }
        // shared between workers, up to renaming of the variable
        let key = self.x.structural_key(e);
        let hit = self.shared.lock().unwrap().get(&key).cloned();
        if let Some(b) = hit {
            let t = self.x.set_id((*b).clone(), w);
            self.x.set_truth(e, t);
            return t;
        }
        let (t, _) = self.x.truth(e, w);
        let bits = self.x.sets[t as usize].0.clone();
        if self.cfg.certify {
            match self.z.certify(&self.x, e, v, w, &bits) {
                -1 => {}
                1 => { self.st.cert_fail += 1; return t; }
                // no answer in time: the truth set is the evaluator's, kept and counted
                _ => self.st.uncertified += 1,
            }
        }
        self.shared.lock().unwrap().insert(key, Arc::new((*bits).clone()));
        t
    }
    fn dom_of(&mut self, st: &State, v: u32) -> u32 {
        match st.dom[v as usize] { Some(d) => d, None => self.x.set_full(st.varw[v as usize] as u32) }
    }
    /// the single narrow variable of an expression
    fn one_var(&self, st: &State, e: E) -> Option<u32> {
        let s = self.x.sup[e as usize];
        if s.count_ones() == 1 {
            let v = s.trailing_zeros();
            if st.varw[v as usize] <= 16 { return Some(v); }
        }
        None
    }
    fn unary_var(&self, st: &State, e: E) -> Option<u32> {
        let s = self.x.sup[e as usize];
        if st.multi_mask & s == 0 { self.one_var(st, e) } else { None }
    }
    /// simplify a 1-bit expression under the domains of the path
    fn peval(&mut self, st: &State, e: E) -> E {
        let mut memo: HashMap<E, E, BuildFx> = HashMap::default();
        self.peval_r(st, e, &mut memo)
    }
    fn peval_r(&mut self, st: &State, e: E, memo: &mut HashMap<E, E, BuildFx>) -> E {
        if self.x.as_const(e).is_some() { return e; }
        if let Some(r) = memo.get(&e) { return *r; }
        let n = self.x.nodes[e as usize];
        let r = if let Some(v) = self.one_var(st, e) {
            let t = self.truth(e, v, st.varw[v as usize] as u32);
            let d = self.dom_of(st, v);
            let a = self.x.set_and(d, t);
            if a == d { self.x.konst(1, 1) } else if self.x.set_first(a).is_none() { self.x.konst(0, 1) } else { e }
        } else {
            match n.op {
                Op::And | Op::Or => {
                    let a = self.peval_r(st, n.a, memo);
                    let k = (n.op == Op::Or) as u128;
                    if self.x.as_const(a) == Some(k) { a } else {
                        let b = self.peval_r(st, n.b, memo);
                        if a == n.a && b == n.b { e } else { self.x.bin(n.op, a, b) }
                    }
                }
                Op::Xor => {
                    let a = self.peval_r(st, n.a, memo);
                    let b = self.peval_r(st, n.b, memo);
                    if a == n.a && b == n.b { e } else { self.x.bin(Op::Xor, a, b) }
                }
                Op::Ite => {
                    let c = self.peval_r(st, n.a, memo);
                    match self.x.as_const(c) {
                        Some(1) => self.peval_r(st, n.b, memo),
                        Some(_) => self.peval_r(st, n.c, memo),
                        None => {
                            let a = self.peval_r(st, n.b, memo);
                            let b = self.peval_r(st, n.c, memo);
                            if c == n.a && a == n.b && b == n.c { e } else { self.x.ite(c, a, b) }
                        }
                    }
                }
                _ => e,
            }
        };
        memo.insert(e, r);
        r
    }
    /// the variables connected to c through the path's multi-variable constraints
    fn closure(&self, st: &State, c: E) -> u64 {
        let mut vs = self.x.sup[c as usize];
        loop {
            let mut n = vs;
            for &m in &st.multi { let s = self.x.sup[m as usize]; if s & vs != 0 { n |= s; } }
            if n == vs { return vs; }
            vs = n;
        }
    }
    fn query(&mut self, st: &State, c: E) -> Option<Vec<u64>> {
        let vs = self.closure(st, c);
        let mut cs: Vec<E> = st.multi.iter().copied().filter(|&p| self.x.sup[p as usize] & vs != 0).collect();
        for v in 0..st.varw.len() { if vs >> v & 1 == 1 { if let Some(d) = st.dom[v] { let e = self.x.inset(v as u32, st.varw[v] as u32, d); cs.push(e); } } }
        cs.push(c);
        cs.sort_unstable();
        cs.dedup();
        let r = if let Some(r) = self.qcache.get(&cs) { self.st.cache_hits += 1; r.clone() } else {
            let vars: Vec<(u32, u32)> = (0..st.varw.len() as u32).filter(|i| vs >> i & 1 == 1).map(|i| (i, st.varw[i as usize] as u32)).collect();
            let r = self.z.check(&self.x, &cs, &vars);
            self.qcache.insert(cs, r.clone());
            r
        };
        match r {
            Res::Sat(m) => {
                let mut model = st.model.clone();
                for (i, v) in m { model[i as usize] = v; }
                Some(model)
            }
            Res::Unsat => None,
            Res::Unknown => { self.st.unknown_q += 1; Some(st.model.clone()) }
        }
    }
    /// models for c and for not c
    fn feas(&mut self, st: &State, c: E) -> (Option<Vec<u64>>, Option<Vec<u64>>) {
        let c = self.peval(st, c);
        if let Some(k) = self.x.as_const(c) {
            let m = Some(st.model.clone());
            return if k == 1 { (m, None) } else { (None, m) };
        }
        if let Some(v) = self.unary_var(st, c) {
            self.st.unary += 1;
            let w = st.varw[v as usize] as u32;
            let t = self.truth(c, v, w);
            let d = self.dom_of(st, v);
            let tv = self.x.set_and(d, t);
            let nt = self.x.set_not(t);
            let fv = self.x.set_and(d, nt);
            let mk = |x: &Exprs, b: u32| -> Option<Vec<u64>> {
                let f = x.set_first(b)?;
                let cur = st.model[v as usize];
                let mut m = st.model.clone();
                if !x.set_has(b, cur) { m[v as usize] = f; }
                Some(m)
            };
            return (mk(&self.x, tv), mk(&self.x, fv));
        }
        let cur = self.x.eval(c, &st.model) == 1;
        let nc = self.x.not1(c);
        if cur { (Some(st.model.clone()), self.query(st, nc)) } else { (self.query(st, c), Some(st.model.clone())) }
    }
    pub fn assume(&mut self, st: &mut State, c: E, model: Vec<u64>) {
        if self.x.as_const(c) == Some(1) { return; }
        st.model = model;
        let mut work = vec![c];
        let mut first = true;
        while let Some(c) = work.pop() {
            let c1 = self.peval(st, c);
            if self.x.as_const(c1) == Some(1) { continue; }
            if first { st.pc.push(c); first = false; }
            let n = self.x.nodes[c1 as usize];
            if let Some(v) = self.one_var(st, c1) {
                let w = st.varw[v as usize] as u32;
                let t = self.truth(c1, v, w);
                let d = self.dom_of(st, v);
                let nd = self.x.set_and(d, t);
                if nd == d { continue; }
                st.dom[v as usize] = Some(nd);
                if st.multi_mask >> v & 1 == 1 {
                    // constraints over v may simplify now
                    let mut keep = vec![];
                    for m in std::mem::take(&mut st.multi) {
                        if self.x.sup[m as usize] >> v & 1 == 1 && self.peval(st, m) != m { work.push(m); } else { keep.push(m); }
                    }
                    st.multi = keep;
                    st.multi_mask = st.multi.iter().fold(0, |a, m| a | self.x.sup[*m as usize]);
                }
            } else if n.op == Op::And {
                work.push(n.a);
                work.push(n.b);
            } else {
                if st.multi.contains(&c1) { continue; }
                st.multi.push(c1);
                st.multi_mask |= self.x.sup[c1 as usize];
            }
        }
    }
    /// all feasible values of e (bounded)
    fn values(&mut self, st: &State, e: E, limit: usize) -> R<Vec<(u128, Vec<u64>)>> {
        if let Some(v) = self.unary_var(st, e) {
            let w = st.varw[v as usize] as u32;
            let dom: Vec<u32> = (0..1u32 << w).filter(|i| st.dom[v as usize].map_or(true, |d| self.x.set_has(d, *i as u64))).collect();
            let mut out: Vec<(u128, Vec<u64>)> = vec![];
            let mut seen: HashMap<u128, ()> = HashMap::new();
            for ch in dom.chunks(4096) {
                let col = self.x.column(e, ch);
                for (i, val) in col.iter().enumerate() {
                    if seen.insert(*val, ()).is_none() {
                        let mut m = st.model.clone();
                        m[v as usize] = ch[i] as u64;
                        out.push((*val, m));
                        if out.len() > limit { return Err(Err::Unsup("concretize: too many values".into())); }
                    }
                }
            }
            return Ok(out);
        }
        let w = self.x.w(e);
        let mut out: Vec<(u128, Vec<u64>)> = vec![];
        // few variables with small domains: go through the product
        let vs = self.closure(st, e);
        let mut doms: Vec<(usize, Vec<u64>)> = vec![];
        let mut prod = 1usize;
        for v in 0..st.varw.len() {
            if vs >> v & 1 == 0 { continue; }
            let n = 1u64 << st.varw[v].min(17);
            let d: Vec<u64> = if st.varw[v] > 16 { vec![] } else { (0..n).filter(|i| st.dom[v].map_or(true, |d| self.x.set_has(d, *i))).collect() };
            if st.varw[v] > 16 { prod = usize::MAX; break; }
            prod = prod.saturating_mul(d.len());
            doms.push((v, d));
            if prod > 20_000 { break; }
        }
        if prod <= 20_000 {
            let cs: Vec<E> = st.multi.iter().copied().filter(|&p| self.x.sup[p as usize] & vs != 0).collect();
            let mut seen: HashMap<u128, ()> = HashMap::new();
            let mut m = st.model.clone();
            for k in 0..prod {
                let mut r = k;
                for (v, d) in &doms { m[*v] = d[r % d.len()]; r /= d.len(); }
                if !cs.iter().all(|&c| self.x.eval(c, &m) == 1) { continue; }
                let val = self.x.eval(e, &m);
                if seen.insert(val, ()).is_none() { out.push((val, m.clone())); if out.len() > limit { return Err(Err::Unsup("concretize: too many values".into())); } }
            }
            return Ok(out);
        }
        let v0 = self.x.eval(e, &st.model);
        out.push((v0, st.model.clone()));
        let mut block = { let k = self.x.konst(v0, w); let q = self.x.bin(Op::Eq, e, k); self.x.not1(q) };
        loop {
            match self.query(st, block) {
                None => return Ok(out),
                Some(m) => {
                    let v = self.x.eval(e, &m);
                    if out.iter().any(|o| o.0 == v) { return Err(Err::Unsup("solver gave no new value (unknown)".into())); }
                    out.push((v, m));
                    if out.len() > limit { return Err(Err::Unsup("concretize: too many values".into())); }
                    let k = self.x.konst(v, w);
                    let q = self.x.bin(Op::Eq, e, k);
                    let n = self.x.not1(q);
                    block = self.x.bin(Op::And, block, n);
                }
            }
        }
    }
    /// fork over the values of register operand `o` (absolute slot)
    fn concretize(&mut self, st: &State, slot: u32, w: u32) -> Err {
        self.st.concretize += 1;
        let e = st.regs[slot as usize].e;
        match self.values(st, e, 4096) {
            Err(e) => e,
            Ok(vs) => {
                let alts = vs.into_iter().map(|(v, m)| {
                    let k = self.x.konst(v, w);
                    let c = self.x.bin(Op::Eq, e, k);
                    let nv = self.wide(v, w);
                    Alt { cons: c, model: m, act: Act::SetSlot(slot, nv) }
                }).collect();
                Err::Fork(alts)
            }
        }
    }

    // ---------- memory ----------
    fn ng(&self) -> u32 { self.t.globals.len() as u32 }
    fn alloc(&mut self, st: &mut State, size: usize) -> u64 {
        let id = match st.free_ids.pop() { Some(i) => i, None => { let i = st.next_id; st.next_id += 1; i } };
        let (c, k) = (id as usize / CHUNK, id as usize % CHUNK);
        while st.mem.len() <= c { st.mem.push(Rc::new(vec![None; CHUNK])); }
        let ch = Rc::make_mut(&mut st.mem[c]);
        ch[k] = Some(Rc::new(Obj { data: vec![0; size], sym: vec![], ro: false }));
        ((id + 1 + self.ng()) as u64) << OBJ_SHIFT
    }
    fn dealloc(&mut self, st: &mut State, id: u32) {
        let (c, k) = (id as usize / CHUNK, id as usize % CHUNK);
        let ch = Rc::make_mut(&mut st.mem[c]);
        ch[k] = None;
        st.free_ids.push(id);
    }
    fn global(&mut self, gi: u32) -> R<(Rc<Obj>, bool)> {
        if let Some(g) = &self.globals[gi as usize] { return Ok(g.clone()); }
        let t = self.t.clone();
        let pos = t.globals[gi as usize].1;
        let mut p = P::new(&t, pos);
        match p.global() {
            Some((b, c)) => {
                let g = (Rc::new(Obj { data: b, sym: vec![], ro: c }), c);
                self.globals[gi as usize] = Some(g.clone());
                Ok(g)
            }
            None => Err(Err::Unsup(format!("external global {}", t.globals[gi as usize].0))),
        }
    }
    fn obj(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(Rc<Obj>, usize)> {
        let id = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        let ng = self.ng() as u64;
        let o = if id >= 1 && id <= ng {
            let gi = id as u32 - 1;
            match st.gl.iter().find(|g| g.0 == gi) { Some(g) => g.1.clone(), None => self.global(gi)?.0 }
        } else if id > ng && id <= ng + st.next_id as u64 {
            let k = (id - ng - 1) as usize;
            match &st.mem[k / CHUNK][k % CHUNK] { Some(o) => o.clone(), None => return Err(Err::Mem(format!("{what} freed {addr:#x}"))) }
        } else { return Err(Err::Mem(format!("{what} wild {addr:#x}"))); };
        if off + n > o.data.len() as u64 { return Err(Err::Mem(format!("{what} out of bounds off {off} n {n} size {}", o.data.len()))); }
        Ok((o, off as usize))
    }
    #[inline]
    fn obj_fast<'s>(&self, st: &'s State, addr: u64) -> Option<(&'s Obj, usize)> {
        let id = addr >> OBJ_SHIFT;
        let ng = self.ng() as u64;
        if id > ng && id <= ng + st.next_id as u64 {
            let k = (id - ng - 1) as usize;
            return st.mem[k / CHUNK][k % CHUNK].as_ref().map(|o| (&**o, (addr & 0xffff_ffff) as usize));
        }
        None
    }
    fn obj_mut<'s>(&mut self, st: &'s mut State, addr: u64, n: u64) -> R<(&'s mut Obj, usize)> {
        let id = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        let ng = self.ng() as u64;
        if id > ng && id <= ng + st.next_id as u64 {
            let k = (id - ng - 1) as usize;
            let ch = Rc::make_mut(&mut st.mem[k / CHUNK]);
            match &mut ch[k % CHUNK] {
                Some(o) => {
                    let o = Rc::make_mut(o);
                    if off + n > o.data.len() as u64 { return Err(Err::Mem(format!("store out of bounds off {off} n {n} size {}", o.data.len()))); }
                    Ok((o, off as usize))
                }
                None => Err(Err::Mem(format!("store freed {addr:#x}"))),
            }
        } else if id >= 1 && id <= ng {
            let gi = id as u32 - 1;
            if !st.gl.iter().any(|g| g.0 == gi) {
                let (o, c) = self.global(gi)?;
                if c { return Err(Err::Mem("store to constant".into())); }
                st.gl.push((gi, o));
            }
            let g = st.gl.iter_mut().find(|g| g.0 == gi).unwrap();
            let o = Rc::make_mut(&mut g.1);
            if off + n > o.data.len() as u64 { return Err(Err::Mem("store out of bounds (global)".into())); }
            Ok((o, off as usize))
        } else { Err(Err::Mem(format!("store wild {addr:#x}"))) }
    }
    fn load_from(&mut self, o: &Obj, off: usize, w: u32) -> V {
        let n = w.div_ceil(8) as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == 0) {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return V { c: if w == 64 { v } else { v & ((1 << w) - 1) }, e: 0 };
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return V { c: 0, e: self.x.konst(u128::from_le_bytes(b), w) };
        }
        let byte = |s: &mut Self, k: usize| -> E { if o.sym[off + k] != 0 { o.sym[off + k] } else { s.x.konst(o.data[off + k] as u128, 8) } };
        let mut e = byte(self, 0);
        for k in 1..n {
            let b = byte(self, k);
            e = self.x.concat(b, e);
        }
        if w < self.x.w(e) { e = self.x.extract(e, 0, w); }
        self.mk(e)
    }
    fn load(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = w.div_ceil(8) as usize;
        if let Some((o, off)) = self.obj_fast(st, addr) {
            if off + n <= o.data.len() && w <= 64 && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|&e| e == 0)) {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return Ok(V { c: if w == 64 { v } else { v & ((1 << w) - 1) }, e: 0 });
            }
        }
        let (o, off) = self.obj(st, addr, n as u64, "load")?;
        Ok(self.load_from(&o, off, w))
    }
    fn store(&mut self, st: &mut State, addr: u64, v: V, w: u32) -> R<()> {
        let n = w.div_ceil(8) as usize;
        if v.e == 0 {
            let (o, off) = self.obj_mut(st, addr, n as u64)?;
            o.data[off..off + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
            if !o.sym.is_empty() { o.sym[off..off + n].fill(0); }
            return Ok(());
        }
        if let Some(k) = self.x.as_const(v.e) {
            let (o, off) = self.obj_mut(st, addr, n as u64)?;
            o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
            if !o.sym.is_empty() { o.sym[off..off + n].fill(0); }
            return Ok(());
        }
        let e = if w % 8 != 0 { self.x.zext(v.e, n as u32 * 8) } else { v.e };
        let mut bs = [0 as E; 16];
        let mut cs = [0u8; 16];
        for k in 0..n {
            let b = self.x.extract(e, 8 * k as u32, 8);
            match self.x.as_const(b) { Some(c) => cs[k] = c as u8, None => bs[k] = b }
        }
        let (o, off) = self.obj_mut(st, addr, n as u64)?;
        if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
        o.data[off..off + n].copy_from_slice(&cs[..n]);
        o.sym[off..off + n].copy_from_slice(&bs[..n]);
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj(st, s, n, "memcpy src")?;
        let n = n as usize;
        let anysym = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|&e| e != 0);
        let (q, qo) = self.obj_mut(st, d, n as u64)?;
        q.data[qo..qo + n].copy_from_slice(&o.data[off..off + n]);
        if anysym {
            if q.sym.is_empty() { q.sym = vec![0; q.data.len()]; }
            q.sym[qo..qo + n].copy_from_slice(&o.sym[off..off + n]);
        } else if !q.sym.is_empty() { q.sym[qo..qo + n].fill(0); }
        Ok(())
    }
    fn byte(&mut self, st: &State, addr: u64) -> R<V> { self.load(st, addr, 8) }

    /// load through an address that is a choice between a few constants
    fn tree_load(&mut self, st: &State, pe: E, lv: &[(u64, u16)], size: u64) -> R<Option<Vec<V>>> {
        let mut leaves: Vec<u64> = vec![];
        let mut todo = vec![pe];
        let mut inner: Vec<E> = vec![];
        while let Some(e) = todo.pop() {
            if let Some(k) = self.x.as_const(e) { if !leaves.contains(&(k as u64)) { leaves.push(k as u64); } }
            else {
                let n = self.x.nodes[e as usize];
                if n.op != Op::Ite || inner.len() > 24 { return Ok(None); }
                if !inner.contains(&e) { inner.push(e); todo.push(n.b); todo.push(n.c); }
            }
            if leaves.len() > 12 { return Ok(None); }
        }
        let mut cols: Vec<HashMap<E, E>> = vec![HashMap::new(); lv.len()];
        for &a in &leaves {
            let la = self.x.konst(a as u128, 64);
            let ok = self.obj(st, a, size, "load").is_ok();
            if !ok {
                let c = self.x.bin(Op::Eq, pe, la);
                if self.feas(st, c).0.is_some() { return Ok(None); }
                continue;
            }
            for (i, (lo, w)) in lv.iter().enumerate() {
                let v = self.load(st, a.wrapping_add(*lo), *w as u32)?;
                let e = self.ex(v, *w as u32);
                cols[i].insert(la, e);
            }
        }
        let mut out = vec![];
        for i in 0..lv.len() {
            let mut memo = std::mem::take(&mut cols[i]);
            let r = self.map_tree(pe, &mut memo);
            match r { Some(e) => out.push(self.mk(e)), None => return Ok(None) }
        }
        Ok(Some(out))
    }
    /// the tree with its leaves replaced; a leaf without an image cannot happen
    fn map_tree(&mut self, e: E, memo: &mut HashMap<E, E>) -> Option<E> {
        if let Some(r) = memo.get(&e) { return Some(*r); }
        if self.x.as_const(e).is_some() { return None; }
        let n = self.x.nodes[e as usize];
        let r = match (self.map_tree(n.b, memo), self.map_tree(n.c, memo)) {
            (Some(b), Some(c)) => self.x.ite(n.a, b, c),
            (Some(b), None) => b,
            (None, Some(c)) => c,
            (None, None) => return None,
        };
        memo.insert(e, r);
        Some(r)
    }
    /// symbolic-address load
    fn sym_load(&mut self, st: &State, slot: Option<u32>, pe: E, lv: &[(u64, u16)], size: u64) -> R<Vec<V>> {
        let a0 = self.x.eval(pe, &st.model) as u64;
        let base = a0 >> OBJ_SHIFT << OBJ_SHIFT;
        let conc = |s: &mut Self| match slot { Some(sl) => s.concretize(st, sl, 64), None => Err::Unsup("symbolic address const".into()) };
        let (o, _) = match self.obj(st, base, 0, "load") { Ok(x) => x, Err(_) => return Err(conc(self)) };
        if (o.data.len() as u64) < size { return Err(conc(self)); }
        // the table of decimal digit pairs: a number is being printed, go value by value
        if o.data.len() == 200 && o.data.starts_with(b"0001020304") { return Err(conc(self)); }
        if let Some(r) = self.tree_load(st, pe, lv, size)? { return Ok(r); }
        let kb = self.x.konst((base as u128).wrapping_neg(), 64);
        let off = self.x.bin(Op::Add, pe, kb);
        let lim = self.x.konst(o.data.len() as u128 - size as u128, 64);
        let inb = self.x.bin(Op::Ule, off, lim);
        let (_, f) = self.feas(st, inb);
        if f.is_some() { return Err(conc(self)); }
        if o.sym.iter().all(|&e| e == 0) && o.data.len() <= 1 << 16 {
            let ow = 64 - (o.data.len() as u64).leading_zeros();
            let offn = self.x.extract(off, 0, ow.max(1));
            let tid = self.x.table_id(Rc::new(o.data.clone()));
            let mut out = vec![];
            for (lo, w) in lv {
                let idx = if *lo == 0 { offn } else {
                    let k = self.x.konst(*lo as u128, 64);
                    let q = self.x.bin(Op::Add, off, k);
                    self.x.extract(q, 0, ow.max(1))
                };
                let e = self.x.table(tid, idx, *w as u32);
                out.push(V { c: 0, e });
            }
            return Ok(out);
        }
        let vs = self.values(st, pe, 64);
        match vs {
            Ok(vs) => {
                let mut out: Vec<V> = vec![];
                for (lo, w) in lv {
                    let mut acc: Option<E> = None;
                    for (a, _) in vs.iter().rev() {
                        let v = self.load(st, (*a as u64).wrapping_add(*lo), *w as u32)?;
                        let ve = self.ex(v, *w as u32);
                        acc = Some(match acc {
                            None => ve,
                            Some(p) => {
                                let k = self.x.konst(*a, 64);
                                let c = self.x.bin(Op::Eq, pe, k);
                                self.x.ite(c, ve, p)
                            }
                        });
                    }
                    out.push(self.mk(acc.unwrap()));
                }
                Ok(out)
            }
            Err(_) => Err(conc(self)),
        }
    }

    // ---------- calls ----------
    pub fn push_call(&mut self, st: &mut State, fi: u32, args: &[V], ret_d: u32, ret_n: u32, normal: Option<Bb>) {
        let f = self.func(fi);
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + f.nregs as usize, Z);
        let mut k = 0;
        for (r, n) in &f.params {
            for j in 0..*n { st.regs[(base + r + j) as usize] = args[k]; k += 1; }
        }
        let fobj = if f.frame_size > 0 { let a = self.alloc(st, f.frame_size as usize); (a >> OBJ_SHIFT) as u32 } else { 0 };
        self.cover.get_mut(&fi).unwrap()[0] += 1;
        st.frames.push(Frame { f, base, bb: 0, ip: 0, fobj, ret_d, ret_n, normal });
    }
    fn do_ret(&mut self, st: &mut State, vals: Vec<V>) -> bool {
        let fr = st.frames.pop().unwrap();
        if fr.fobj != 0 { let id = fr.fobj - 1 - self.ng(); self.dealloc(st, id); }
        st.regs.truncate(fr.base as usize);
        if st.frames.is_empty() { return true; }
        let top = st.frames.last_mut().unwrap();
        let b = top.base;
        for (i, v) in vals.iter().enumerate().take(fr.ret_n as usize) { st.regs[(b + fr.ret_d) as usize + i] = *v; }
        if let Some(n) = fr.normal { st.pending = Some(Pending::Goto(n)); }
        false
    }
    #[inline]
    fn get(&self, st: &State, base: u32, o: Opd) -> V {
        if o >= 0 { st.regs[(base as i32 + o) as usize] } else { self.consts[!o as usize] }
    }
    fn need(&mut self, st: &State, base: u32, o: Opd, w: u32) -> R<u64> {
        let v = self.get(st, base, o);
        if v.e == 0 { return Ok(v.c); }
        if let Some(k) = self.x.as_const(v.e) { return Ok(k as u64); }
        if o < 0 { return Err(Err::Unsup("symbolic constant".into())); }
        Err(self.concretize(st, (base as i32 + o) as u32, w))
    }

    /// transfer to block; returns true when the stop point was reached
    fn goto(&mut self, st: &mut State, to: Bb, stop: Option<(usize, u32)>) -> bool {
        let d = st.frames.len() - 1;
        let (f, from, base) = { let fr = &st.frames[d]; (fr.f.clone(), fr.bb, fr.base) };
        let blk = &f.blocks[to as usize];
        let mut vals: Vec<V> = Vec::new();
        if !blk.phis.is_empty() {
            let ph = blk.phis.iter().find(|p| p.0 == from).expect("phi pred");
            for (_, s, n) in &ph.1 { for k in 0..*n { vals.push(self.get(st, base, opd_off(*s, k))); } }
        }
        if stop == Some((d, to)) { st.pending = Some(Pending::Block(to, vals)); return true; }
        self.enter(st, to, vals);
        false
    }
    fn enter(&mut self, st: &mut State, to: Bb, vals: Vec<V>) {
        let d = st.frames.len() - 1;
        let fr = &mut st.frames[d];
        let base = fr.base;
        fr.bb = to;
        fr.ip = 0;
        let f = &fr.f;
        if let Some(c) = self.cover.get_mut(&f.id) { c[to as usize] += 1; }
        for (i, (s, _)) in f.blocks[to as usize].phi_slots.iter().enumerate() { st.regs[(base + s) as usize] = vals[i]; }
    }

    /// bool evaluation of a condition value -> alternatives
    fn branch(&mut self, st: &mut State, c: E, a: Act, b: Act) -> R<Option<Act>> {
        let (t, f) = self.feas(st, c);
        match (t, f) {
            (Some(m), None) => { st.model = m; Ok(Some(a)) }
            (None, Some(m)) => { st.model = m; Ok(Some(b)) }
            (Some(mt), Some(mf)) => {
                let nc = self.x.not1(c);
                Err(Err::Fork(vec![Alt { cons: c, model: mt, act: a }, Alt { cons: nc, model: mf, act: b }]))
            }
            (None, None) => Err(Err::Exit(Exit::Assume)),
        }
    }

    pub fn run(&mut self, st: &mut State, stop: Option<(usize, u32)>, budget: &mut u64) -> Ev {
        if st.exit.is_some() { return Ev::Exit; }
        loop {
            // pending transfers
            if let Some(p) = st.pending.take() {
                match p {
                    Pending::Goto(b) => if self.goto(st, b, stop) { return Ev::Stop; },
                    Pending::Block(b, vals) => {
                        if stop == Some((st.frames.len() - 1, b)) { st.pending = Some(Pending::Block(b, vals)); return Ev::Stop; }
                        self.enter(st, b, vals);
                    }
                    Pending::Ret(vals) => {
                        if stop == Some((st.frames.len() - 1, EXIT)) { st.pending = Some(Pending::Ret(vals)); return Ev::Stop; }
                        if self.do_ret(st, vals) { st.exit = Some(if st.expect_panic { Exit::PanicMissing } else { Exit::Done }); return Ev::Exit; }
                    }
                }
                continue;
            }
            let (f, base, bb) = { let fr = st.frames.last().unwrap(); (fr.f.clone(), fr.base, fr.bb) };
            let blk = &f.blocks[bb as usize];
            let start = st.frames.last().unwrap().ip;
            let mut ip = start;
            // run instructions of this block
            let r: R<()> = loop {
                if *budget == 0 { st.frames.last_mut().unwrap().ip = ip; self.tick(st, &f, (ip - start) as u64); return Ev::Budget; }
                *budget -= 1;
                if ip as usize >= blk.insts.len() { panic!("fell off block {} bb{} {:?}", f.name, bb, blk.insts); }
                let inst = &blk.insts[ip as usize];
                match self.step(st, base, inst, ip, stop) {
                    Ok(Flow::Next) => ip += 1,
                    Ok(Flow::Jump) => break Ok(()),
                    Ok(Flow::Stop) => { self.tick(st, &f, (ip - start) as u64 + 1); return Ev::Stop; }
                    Ok(Flow::Done) => { self.tick(st, &f, (ip - start) as u64 + 1); return Ev::Exit; }
                    Err(e) => {
                        break Err(e);
                    }
                }
            };
            self.tick(st, &f, (ip - start) as u64 + 1);
            match r {
                Ok(()) => {
                    if st.insts > self.cfg.max_insts { st.exit = Some(Exit::Hang); return Ev::Exit; }
                }
                Err(Err::Fork(alts)) => {
                    st.frames.last_mut().unwrap().ip = ip;
                    let isb = matches!(blk.insts[ip as usize], I::CondBr(..) | I::Switch { .. });
                    if alts.is_empty() { st.exit = Some(Exit::Assume); return Ev::Exit; }
                    return Ev::Fork(alts, isb);
                }
                Err(e) => {
                    st.frames.last_mut().unwrap().ip = ip;
                    let wh = self.backtrace(st);
                    st.exit = Some(match e {
                        Err::Mem(s) => Exit::MemErr(format!("{s} @ {wh}")),
                        Err::Unsup(s) => Exit::Unsup(format!("{s} @ {wh}")),
                        Err::Exit(Exit::Panic(s)) => if st.expect_panic { Exit::Done } else { Exit::Panic(format!("{s} @ {wh}")) },
                        Err::Exit(x) => x,
                        Err::Fork(_) => unreachable!(),
                    });
                    return Ev::Exit;
                }
            }
        }
    }
    fn tick(&mut self, st: &mut State, f: &Rc<Func>, n: u64) {
        st.insts += n;
        self.st.insts += n;
        self.finsts[f.id as usize] += n;
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        for fr in st.frames.iter().rev().take(12) {
            s.push_str(&short(&fr.f.name));
            s.push_str(" < ");
        }
        s
    }

    fn binop(&mut self, op: BinOp, w: u32, a: V, b: V) -> R<V> {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let sx = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match op {
                BinOp::Add => a.c.wrapping_add(b.c),
                BinOp::Sub => a.c.wrapping_sub(b.c),
                BinOp::Mul => a.c.wrapping_mul(b.c),
                BinOp::And => a.c & b.c,
                BinOp::Or => a.c | b.c,
                BinOp::Xor => a.c ^ b.c,
                BinOp::Shl => if b.c >= w as u64 { 0 } else { a.c << b.c },
                BinOp::LShr => if b.c >= w as u64 { 0 } else { a.c >> b.c },
                BinOp::AShr => (sx(a.c) >> b.c.min(w as u64 - 1)) as u64,
                BinOp::UDiv | BinOp::URem => {
                    if b.c == 0 { return Err(Err::Mem("division by zero".into())); }
                    if op == BinOp::UDiv { a.c / b.c } else { a.c % b.c }
                }
                BinOp::SDiv | BinOp::SRem => {
                    if b.c == 0 { return Err(Err::Mem("division by zero".into())); }
                    let (x, y) = (sx(a.c), sx(b.c));
                    if op == BinOp::SDiv { x.wrapping_div(y) as u64 } else { x.wrapping_rem(y) as u64 }
                }
            };
            return Ok(V { c: r & m, e: 0 });
        }
        let o = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor };
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.x.bin(o, x, y);
        Ok(self.mk(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 {
            let sx = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
            let r = match p {
                Pred::Eq => a.c == b.c, Pred::Ne => a.c != b.c,
                Pred::Ugt => a.c > b.c, Pred::Uge => a.c >= b.c, Pred::Ult => a.c < b.c, Pred::Ule => a.c <= b.c,
                Pred::Sgt => sx(a.c) > sx(b.c), Pred::Sge => sx(a.c) >= sx(b.c), Pred::Slt => sx(a.c) < sx(b.c), Pred::Sle => sx(a.c) <= sx(b.c),
            };
            return V { c: r as u64, e: 0 };
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = match p {
            Pred::Eq => self.x.bin(Op::Eq, x, y),
            Pred::Ne => { let q = self.x.bin(Op::Eq, x, y); self.x.not1(q) }
            Pred::Ugt => self.x.bin(Op::Ult, y, x), Pred::Uge => self.x.bin(Op::Ule, y, x),
            Pred::Ult => self.x.bin(Op::Ult, x, y), Pred::Ule => self.x.bin(Op::Ule, x, y),
            Pred::Sgt => self.x.bin(Op::Slt, y, x), Pred::Sge => self.x.bin(Op::Sle, y, x),
            Pred::Slt => self.x.bin(Op::Slt, x, y), Pred::Sle => self.x.bin(Op::Sle, x, y),
        };
        self.mk(r)
    }
    fn select(&mut self, c: V, a: V, b: V, w: u32) -> V {
        if c.e == 0 { return if c.c == 1 { a } else { b }; }
        if a == b { return a; }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.x.ite(c.e, x, y);
        self.mk(r)
    }

    // ---- floating point comparison as bit-vector formulas ----
    fn f_isnan(&mut self, a: E) -> E {
        let m = self.x.konst(0x7fff_ffff_ffff_ffff, 64);
        let i = self.x.konst(0x7ff0_0000_0000_0000, 64);
        let t = self.x.bin(Op::And, a, m);
        self.x.bin(Op::Ult, i, t)
    }
    fn f_key(&mut self, a: E) -> E {
        // total order key for non-nan with -0 == +0
        let m = self.x.konst(0x7fff_ffff_ffff_ffff, 64);
        let mag = self.x.bin(Op::And, a, m);
        let s = self.x.extract(a, 63, 1);
        let z = self.x.konst(0, 64);
        let neg = self.x.bin(Op::Sub, z, mag);
        self.x.ite(s, neg, mag)
    }
    fn fcmp(&mut self, p: FPred, w: u32, a: V, b: V) -> R<V> {
        use FPred::*;
        if a.e == 0 && b.e == 0 {
            let (x, y) = if w == 64 { (f64::from_bits(a.c), f64::from_bits(b.c)) } else { (f32::from_bits(a.c as u32) as f64, f32::from_bits(b.c as u32) as f64) };
            let un = x.is_nan() || y.is_nan();
            let r = match p { False => false, True => true, Oeq => x == y, Ogt => x > y, Oge => x >= y, Olt => x < y, Ole => x <= y, One => !un && x != y, Ord => !un, Uno => un, Ueq => un || x == y, Ugt => un || x > y, Uge => un || x >= y, Ult => un || x < y, Ule => un || x <= y, Une => un || x != y };
            return Ok(V { c: r as u64, e: 0 });
        }
        if w != 64 { return Err(Err::Unsup("symbolic f32 compare".into())); }
        let x = self.ex(a, 64);
        let y = self.ex(b, 64);
        let (nx, ny) = (self.f_isnan(x), self.f_isnan(y));
        let un = self.x.bin(Op::Or, nx, ny);
        let (kx, ky) = (self.f_key(x), self.f_key(y));
        let eq = self.x.bin(Op::Eq, kx, ky);
        let lt = self.x.bin(Op::Slt, kx, ky);
        let gt = self.x.bin(Op::Slt, ky, kx);
        let le = self.x.bin(Op::Sle, kx, ky);
        let ge = self.x.bin(Op::Sle, ky, kx);
        let ne = self.x.not1(eq);
        let or = self.x.not1(un);
        let t = self.x.konst(1, 1);
        let ff = self.x.konst(0, 1);
        let (base, ordered) = match p { False => (ff, true), True => (t, false), Oeq => (eq, true), Ogt => (gt, true), Oge => (ge, true), Olt => (lt, true), Ole => (le, true), One => (ne, true), Ord => (t, true), Uno => (ff, false), Ueq => (eq, false), Ugt => (gt, false), Uge => (ge, false), Ult => (lt, false), Ule => (le, false), Une => (ne, false) };
        let r = if p == True { t } else if ordered { self.x.bin(Op::And, or, base) } else { self.x.bin(Op::Or, un, base) };
        Ok(self.mk(r))
    }

    fn step(&mut self, st: &mut State, base: u32, inst: &I, ip: u32, stop: Option<(usize, u32)>) -> R<Flow> {
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let i = (base + $d) as usize; st.regs[i] = v; }}; }
        match inst {
            I::Bin { op, w, n, d, a, b } => {
                if *n == 1 {
                    let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                    if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && y.e != 0 && self.x.as_const(y.e).is_none() {
                        self.need(st, base, *b, *w as u32)?;
                    }
                    // wide divisions (printing an i128) are decided value by value
                    if *w > 64 && matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) && x.e != 0 && self.x.as_const(x.e).is_none() {
                        self.need(st, base, *a, *w as u32)?;
                    }
                    let v = self.binop(*op, *w as u32, x, y)?;
                    set!(*d, v);
                } else {
                    for k in 0..*n as u32 {
                        let (x, y) = (self.get(st, base, opd_off(*a, k)), self.get(st, base, opd_off(*b, k)));
                        let v = self.binop(*op, *w as u32, x, y)?;
                        set!(*d + k, v);
                    }
                }
            }
            I::ICmp { p, w, n, d, a, b } => {
                for k in 0..*n as u32 {
                    let (x, y) = (self.get(st, base, opd_off(*a, k)), self.get(st, base, opd_off(*b, k)));
                    let v = self.icmp(*p, *w as u32, x, y);
                    set!(*d + k, v);
                }
            }
            I::FCmp { p, w, d, a, b } => {
                let (x, y) = (self.get(st, base, *a), self.get(st, base, *b));
                let v = self.fcmp(*p, *w as u32, x, y)?;
                set!(*d, v);
            }
            I::FBin { op, w, d, a, b } => {
                let x = self.need(st, base, *a, *w as u32)?;
                let y = self.need(st, base, *b, *w as u32)?;
                let c = if *w == 64 {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y }).to_bits() as u64
                };
                set!(*d, V { c, e: 0 });
            }
            I::FNeg { w, d, a } => {
                let x = self.get(st, base, *a);
                let v = self.binop(BinOp::Xor, *w as u32, x, V { c: 1 << (*w - 1), e: 0 })?;
                set!(*d, v);
            }
            I::Cast { op, sw, dw, n, d, a } => {
                for k in 0..*n as u32 {
                    let o = opd_off(*a, k);
                    let mut x = self.get(st, base, o);
                    let (sw, dw) = (*sw as u32, *dw as u32);
                    let r = match op {
                        CastOp::Copy => x,
                        CastOp::ZExt => if x.e == 0 && dw <= 64 { x } else { let e = self.ex(x, sw); let e = self.x.zext(e, dw); self.mk(e) },
                        CastOp::SExt => if x.e == 0 && dw <= 64 { V { c: ((((x.c << (64 - sw)) as i64) >> (64 - sw)) as u64) & mask(dw) as u64, e: 0 } } else { let e = self.ex(x, sw); let e = self.x.sext(e, dw); self.mk(e) },
                        CastOp::Trunc => if x.e == 0 { V { c: x.c & mask(dw) as u64, e: 0 } } else { let e = self.x.extract(x.e, 0, dw); self.mk(e) },
                        _ => {
                            if sw > 64 {
                                match self.cval(x) { Some(_) => {}, None => { return Err(if o >= 0 { self.concretize(st, (base as i32 + o) as u32, sw) } else { Err::Unsup("fp cast".into()) }); } }
                            } else { x = V { c: self.need(st, base, o, sw)?, e: 0 }; }
                            let iv = self.cval(x).unwrap();
                            let c: u128 = match op {
                                CastOp::UiToFp => if dw == 64 { (iv as f64).to_bits() as u128 } else { (iv as f32).to_bits() as u128 },
                                CastOp::SiToFp => { let s = sext128(iv, sw); if dw == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 } }
                                CastOp::FpTrunc => ((f64::from_bits(iv as u64) as f32).to_bits()) as u128,
                                CastOp::FpExt => ((f32::from_bits(iv as u32) as f64).to_bits()) as u128,
                                CastOp::FpToUi => { let f = if sw == 64 { f64::from_bits(iv as u64) } else { f32::from_bits(iv as u32) as f64 }; (f as u128) & mask(dw) }
                                CastOp::FpToSi => { let f = if sw == 64 { f64::from_bits(iv as u64) } else { f32::from_bits(iv as u32) as f64 }; (f as i128) as u128 & mask(dw) }
                                _ => unreachable!(),
                            };
                            self.wide(c, dw)
                        }
                    };
                    set!(*d + k, r);
                }
            }
            I::BitcastVec { sw, dw, d, a } => {
                // concatenate then split (<=128 bits)
                let tot: u32 = sw.iter().map(|x| *x as u32).sum();
                if tot > 128 { return Err(Err::Unsup("wide bitcast".into())); }
                let mut e: E = 0;
                for (k, w) in sw.iter().enumerate() {
                    let v = self.get(st, base, opd_off(*a, k as u32));
                    let x = self.ex(v, *w as u32);
                    e = if e == 0 { x } else { self.x.concat(x, e) };
                }
                let mut lo = 0;
                for (k, w) in dw.iter().enumerate() {
                    let x = self.x.extract(e, lo, *w as u32);
                    lo += *w as u32;
                    let v = self.mk(x);
                    set!(*d + k as u32, v);
                }
            }
            I::Select { d, c, cn, a, b, ws } => {
                let mut tmp: [V; 4] = [Z; 4];
                if ws.len() <= 4 {
                    for k in 0..ws.len() {
                        let cv = self.get(st, base, if *cn > 1 { opd_off(*c, k as u32) } else { *c });
                        let (x, y) = (self.get(st, base, opd_off(*a, k as u32)), self.get(st, base, opd_off(*b, k as u32)));
                        tmp[k] = self.select(cv, x, y, ws[k] as u32);
                    }
                    for k in 0..ws.len() { set!(*d + k as u32, tmp[k]); }
                } else {
                    let mut o = vec![];
                    for k in 0..ws.len() {
                        let cv = self.get(st, base, if *cn > 1 { opd_off(*c, k as u32) } else { *c });
                        let (x, y) = (self.get(st, base, opd_off(*a, k as u32)), self.get(st, base, opd_off(*b, k as u32)));
                        o.push(self.select(cv, x, y, ws[k] as u32));
                    }
                    for (k, v) in o.into_iter().enumerate() { set!(*d + k as u32, v); }
                }
            }
            I::Load { d, p, lv, size } => {
                let pv = self.get(st, base, *p);
                if pv.e != 0 {
                    let slot = if *p >= 0 { Some((base as i32 + *p) as u32) } else { None };
                    let vs = self.sym_load(st, slot, pv.e, lv, *size as u64)?;
                    for (k, v) in vs.into_iter().enumerate() { set!(*d + k as u32, v); }
                } else {
                    for (k, (off, w)) in lv.iter().enumerate() {
                        let v = self.load(st, pv.c.wrapping_add(*off), *w as u32)?;
                        set!(*d + k as u32, v);
                    }
                }
            }
            I::Store { v, p, lv, .. } => {
                let a = self.need(st, base, *p, 64)?;
                for (k, (off, w)) in lv.iter().enumerate() {
                    let x = self.get(st, base, opd_off(*v, k as u32));
                    self.store(st, a.wrapping_add(*off), x, *w as u32)?;
                }
            }
            I::Gep { d, p, off, idx } => {
                let pv = self.get(st, base, *p);
                let mut c = pv.c.wrapping_add(*off);
                let mut e: E = 0;
                if pv.e != 0 { let k = self.x.konst(*off as u128, 64); e = self.x.bin(Op::Add, pv.e, k); c = 0; }
                for (o, w, sc) in idx {
                    let iv = self.get(st, base, *o);
                    let w = *w as u32;
                    if iv.e == 0 {
                        let s = if w == 64 { iv.c } else { (((iv.c << (64 - w)) as i64) >> (64 - w)) as u64 };
                        c = c.wrapping_add(s.wrapping_mul(*sc));
                    } else {
                        let x = if w < 64 { self.x.sext(iv.e, 64) } else { iv.e };
                        let k = self.x.konst(*sc as u128, 64);
                        let m = self.x.bin(Op::Mul, x, k);
                        e = if e == 0 { m } else { self.x.bin(Op::Add, e, m) };
                    }
                }
                let v = if e == 0 { V { c, e: 0 } } else { let k = self.x.konst(c as u128, 64); let r = self.x.bin(Op::Add, e, k); self.mk(r) };
                set!(*d, v);
            }
            I::Alloca { d, off } => {
                let fo = st.frames.last().unwrap().fobj as u64;
                set!(*d, V { c: (fo << OBJ_SHIFT) + *off as u64, e: 0 });
            }
            I::Copy { d, parts } => {
                if parts.len() == 1 && parts[0].1 == 1 {
                    let v = self.get(st, base, parts[0].0);
                    set!(*d, v);
                } else {
                    let mut o = vec![];
                    for (s, n) in parts { for k in 0..*n { o.push(self.get(st, base, opd_off(*s, k))); } }
                    for (k, v) in o.into_iter().enumerate() { set!(*d + k as u32, v); }
                }
            }
            I::Shuffle { d, srcs } => {
                let o: Vec<V> = srcs.iter().map(|s| self.get(st, base, *s)).collect();
                for (k, v) in o.into_iter().enumerate() { set!(*d + k as u32, v); }
            }
            I::DynExtract { d, a, n, i } => {
                let ix = self.need(st, base, *i, 64)?;
                if ix >= *n as u64 { return Err(Err::Mem("extractelement".into())); }
                let v = self.get(st, base, opd_off(*a, ix as u32));
                set!(*d, v);
            }
            I::Br(b) => return Ok(if self.goto(st, *b, stop) { Flow::Stop } else { Flow::Jump }),
            I::CondBr(c, a, b) => {
                let v = self.get(st, base, *c);
                let to = if v.e == 0 { if v.c == 1 { *a } else { *b } } else {
                    match self.branch(st, v.e, Act::Goto(*a), Act::Goto(*b))? { Some(Act::Goto(x)) => x, _ => unreachable!() }
                };
                return Ok(if self.goto(st, to, stop) { Flow::Stop } else { Flow::Jump });
            }
            I::Switch { v, w, def, cases, map } => {
                let x = self.get(st, base, *v);
                let cv = if x.e == 0 { Some(x.c as u128) } else { self.x.as_const(x.e) };
                let to = if let Some(c) = cv {
                    if *w <= 64 { *map.get(&(c as u64)).unwrap_or(def) } else { cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def) }
                } else {
                    // group by destination
                    let mut dests: Vec<(Bb, E)> = vec![];
                    let mut any = self.x.konst(0, 1);
                    for (c, b) in cases {
                        let k = self.x.konst(*c, *w as u32);
                        let q = self.x.bin(Op::Eq, x.e, k);
                        any = self.x.bin(Op::Or, any, q);
                        if b == def { continue; }
                        match dests.iter_mut().find(|d| d.0 == *b) { Some(d) => d.1 = self.x.bin(Op::Or, d.1, q), None => dests.push((*b, q)) }
                    }
                    // default condition: none of the non-default cases
                    let mut nd = self.x.konst(0, 1);
                    for d in &dests { nd = self.x.bin(Op::Or, nd, d.1); }
                    let dc = self.x.not1(nd);
                    dests.push((*def, dc));
                    let mut alts = vec![];
                    for (b, c) in dests {
                        let (m, _) = self.feas(st, c);
                        if let Some(m) = m { alts.push(Alt { cons: c, model: m, act: Act::Goto(b) }); }
                    }
                    if alts.len() == 1 {
                        let a = alts.pop().unwrap();
                        st.model = a.model;
                        match a.act { Act::Goto(b) => b, _ => unreachable!() }
                    } else { return Err(Err::Fork(alts)); }
                };
                return Ok(if self.goto(st, to, stop) { Flow::Stop } else { Flow::Jump });
            }
            I::Ret { v, n } => {
                let vals: Vec<V> = (0..*n).map(|k| self.get(st, base, opd_off(*v, k))).collect();
                if stop == Some((st.frames.len() - 1, EXIT)) { st.pending = Some(Pending::Ret(vals)); return Ok(Flow::Stop); }
                if self.do_ret(st, vals) { st.exit = Some(if st.expect_panic { Exit::PanicMissing } else { Exit::Done }); return Ok(Flow::Done); }
                return Ok(Flow::Jump);
            }
            I::Unreachable => return Err(Err::Exit(Exit::Panic("unreachable".into()))),
            I::Bad(s) => return Err(Err::Unsup(s.clone())),
            I::Rmw { op, w, d, p, v } => {
                let a = self.need(st, base, *p, 64)?;
                let old = self.load(st, a, *w as u32)?;
                let x = self.get(st, base, *v);
                let nv = match op { 0 => x, 1 => self.binop(BinOp::Add, *w as u32, old, x)?, 2 => self.binop(BinOp::Sub, *w as u32, old, x)?, 3 => self.binop(BinOp::And, *w as u32, old, x)?, 4 => self.binop(BinOp::Or, *w as u32, old, x)?, 5 => self.binop(BinOp::Xor, *w as u32, old, x)?, _ => return Err(Err::Unsup("atomicrmw".into())) };
                self.store(st, a, nv, *w as u32)?;
                set!(*d, old);
            }
            I::CmpXchg { w, d, p, c, v } => {
                let a = self.need(st, base, *p, 64)?;
                let old = self.load(st, a, *w as u32)?;
                let cv = self.need(st, base, *c, *w as u32)?;
                if old.e != 0 { return Err(Err::Unsup("symbolic cmpxchg".into())); }
                let ok = old.c == cv;
                if ok { let x = self.get(st, base, *v); self.store(st, a, x, *w as u32)?; }
                set!(*d, old);
                set!(*d + 1, V { c: ok as u64, e: 0 });
            }
            I::Call(c) => return self.call(st, base, c, ip, stop),
        }
        Ok(Flow::Next)
    }

    fn call(&mut self, st: &mut State, base: u32, c: &CallI, ip: u32, stop: Option<(usize, u32)>) -> R<Flow> {
        let fi = match &c.callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let a = self.need(st, base, *o, 64)?;
                let id = a >> OBJ_SHIFT;
                if id < FN_BASE || (id - FN_BASE) as usize >= self.t.funcs.len() + self.t.decls.len() { return Err(Err::Mem(format!("indirect call to {a:#x}"))); }
                let f = (id - FN_BASE) as u32;
                let nm = self.t.fname(f);
                if is_panic_fn(nm) { return Err(Err::Exit(Exit::Panic(short(nm)))); }
                if f as usize >= self.t.funcs.len() { return Err(Err::Unsup(format!("external {nm}"))); }
                f
            }
            Callee::Intr(i) => {
                self.intrinsic(st, base, *i, c)?;
                if let Some(n) = c.normal { return Ok(if self.goto(st, n, stop) { Flow::Stop } else { Flow::Jump }); }
                return Ok(Flow::Next);
            }
        };
        if st.frames.len() > 3000 { return Err(Err::Exit(Exit::Panic("stack overflow".into()))); }
        if self.conc_fn[fi as usize] {
            // decimal-to-float arithmetic: go through the feasible arguments one by one
            for (k, (o, n)) in c.args.iter().enumerate() { if *n == 1 && *o >= 0 { let w = c.argw.get(k).copied().unwrap_or(64) as u32; self.need(st, base, *o, w)?; } }
        }
        let mut args: Vec<V> = Vec::with_capacity(c.args.len());
        for (o, n) in &c.args { for k in 0..*n { args.push(self.get(st, base, opd_off(*o, k))); } }
        st.frames.last_mut().unwrap().ip = ip + 1;
        self.push_call(st, fi, &args, c.d, c.n, c.normal);
        Ok(Flow::Jump)
    }

    fn intrinsic(&mut self, st: &mut State, base: u32, i: Intr, c: &CallI) -> R<()> {
        use Intr::*;
        macro_rules! arg { ($k:expr) => { self.get(st, base, c.args[$k].0) }; }
        macro_rules! need { ($k:expr, $w:expr) => { self.need(st, base, c.args[$k].0, $w)? }; }
        macro_rules! set { ($v:expr) => {{ let v = $v; if c.n > 0 { st.regs[(base + c.d) as usize] = v; } }}; }
        let w = c.argw.first().copied().unwrap_or(64) as u32;
        match i {
            Nop => {}
            Expect => { let v = arg!(0); set!(v) }
            Assume => {}
            Memcpy | Memmove => {
                let (d, s, n) = (need!(0, 64), need!(1, 64), need!(2, 64));
                self.copy(st, d, s, n)?;
                set!(V { c: d, e: 0 });
            }
            Memset => {
                let (d, n) = (need!(0, 64), need!(2, 64));
                let v = arg!(1);
                let v = if w == 8 || c.argw[1] == 8 { v } else if v.e != 0 { let e = self.x.extract(v.e, 0, 8); self.mk(e) } else { V { c: v.c & 0xff, e: 0 } };
                if n > 0 {
                    let (o, off) = self.obj_mut(st, d, n)?;
                    let n = n as usize;
                    if v.e == 0 {
                        o.data[off..off + n].fill(v.c as u8);
                        if !o.sym.is_empty() { o.sym[off..off + n].fill(0); }
                    } else {
                        if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                        o.sym[off..off + n].fill(v.e);
                    }
                }
                set!(V { c: d, e: 0 });
            }
            // hash seeds: one fixed choice (bytes 1..n)
            Getrandom => {
                let (d, n) = (need!(0, 64), need!(1, 64));
                if n > 0 {
                    let (o, off) = self.obj_mut(st, d, n)?;
                    for k in 0..n as usize { o.data[off + k] = k as u8 + 1; if !o.sym.is_empty() { o.sym[off + k] = 0; } }
                }
                set!(V { c: n, e: 0 });
            }
            Bcmp | Memcmp => {
                let (a, b, n) = (need!(0, 64), need!(1, 64), need!(2, 64));
                let rw = c.retw[0] as u32;
                let mut conc = true;
                let mut pairs = vec![];
                let mut res: Option<i64> = None;
                for k in 0..n {
                    let (x, y) = (self.byte(st, a + k)?, self.byte(st, b + k)?);
                    if x == y { continue; }
                    if x.e == 0 && y.e == 0 {
                        if conc { res = Some(if x.c < y.c { -1 } else { 1 }); }
                        pairs.push((x, y));
                        break;
                    }
                    conc = false;
                    pairs.push((x, y));
                }
                if pairs.is_empty() { set!(Z); }
                else if let Some(r) = res { set!(V { c: (r as u64) & mask(rw) as u64, e: 0 }); }
                else {
                    let one = self.x.konst(1, rw);
                    let neg = if i == Bcmp { one } else { self.x.konst(u128::MAX, rw) };
                    let mut acc = self.x.konst(0, rw);
                    for (x, y) in pairs.into_iter().rev() {
                        let (p, q) = (self.ex(x, 8), self.ex(y, 8));
                        let eq = self.x.bin(Op::Eq, p, q);
                        let lt = self.x.bin(Op::Ult, p, q);
                        let d = self.x.ite(lt, neg, one);
                        acc = self.x.ite(eq, acc, d);
                    }
                    let v = self.mk(acc);
                    set!(v);
                }
            }
            Strlen => {
                let a = need!(0, 64);
                let mut k = 0;
                loop {
                    let b = self.byte(st, a + k)?;
                    if b.e != 0 { return Err(Err::Unsup("symbolic strlen".into())); }
                    if b.c == 0 { break; }
                    k += 1;
                }
                set!(V { c: k, e: 0 });
            }
            Memchr => return Err(Err::Unsup("memchr".into())),
            Malloc => { let n = need!(0, 64); if n > 1 << 28 { return Err(Err::Unsup("huge malloc".into())); } let a = self.alloc(st, n as usize); set!(V { c: a, e: 0 }) }
            Calloc => { let n = need!(0, 64) * need!(1, 64); if n > 1 << 28 { return Err(Err::Unsup("huge calloc".into())); } let a = self.alloc(st, n as usize); set!(V { c: a, e: 0 }) }
            PosixMemalign => { let p = need!(0, 64); let n = need!(2, 64); let a = self.alloc(st, n as usize); self.store(st, p, V { c: a, e: 0 }, 64)?; set!(Z) }
            Realloc => {
                let p = need!(0, 64);
                let n = need!(1, 64);
                if n > 1 << 28 { return Err(Err::Unsup("huge realloc".into())); }
                let (o, _) = self.obj(st, p, 0, "realloc")?;
                let a = self.alloc(st, n as usize);
                let m = (o.data.len() as u64).min(n);
                self.copy(st, a, p, m)?;
                let id = (p >> OBJ_SHIFT) as u32 - 1 - self.ng();
                self.dealloc(st, id);
                set!(V { c: a, e: 0 });
            }
            Free => {
                let p = need!(0, 64);
                if p != 0 {
                    self.obj(st, p, 0, "free")?;
                    if p & 0xffff_ffff != 0 { return Err(Err::Mem("free of interior pointer".into())); }
                    let id = (p >> OBJ_SHIFT) as u32;
                    if id < 1 + self.ng() { return Err(Err::Mem("free of global".into())); }
                    self.dealloc(st, id - 1 - self.ng());
                }
            }
            UMax | UMin | SMax | SMin => {
                let n = c.args[0].1;
                for k in 0..n {
                    let (x, y) = (self.get(st, base, opd_off(c.args[0].0, k)), self.get(st, base, opd_off(c.args[1].0, k)));
                    let p = match i { UMax => Pred::Ugt, UMin => Pred::Ult, SMax => Pred::Sgt, _ => Pred::Slt };
                    let q = self.icmp_any(p, w, x, y);
                    let v = self.select(q, x, y, w);
                    st.regs[(base + c.d + k) as usize] = v;
                }
            }
            Abs => {
                let x = arg!(0);
                let z = self.wide(0, w);
                let neg = self.icmp_any(Pred::Slt, w, x, z);
                let n = self.binop(BinOp::Sub, w, z, x)?;
                let v = self.select(neg, n, x, w);
                set!(v);
            }
            Ctlz | Cttz | Ctpop => {
                let x = arg!(0);
                if let Some(k) = self.cval(x) {
                    let r = match i { Ctpop => k.count_ones(), Cttz => if k == 0 { w } else { k.trailing_zeros() }, _ => k.leading_zeros() - (128 - w) };
                    let v = self.wide(r as u128, w);
                    set!(v);
                } else {
                    // ite chain
                    let e = x.e;
                    let r = match i {
                        Ctpop => {
                            let mut acc = self.x.konst(0, w);
                            for b in 0..w { let t = self.x.extract(e, b, 1); let t = self.x.zext(t, w); acc = self.x.bin(Op::Add, acc, t); }
                            acc
                        }
                        Cttz => {
                            let mut acc = self.x.konst(w as u128, w);
                            for b in (0..w).rev() { let t = self.x.extract(e, b, 1); let k = self.x.konst(b as u128, w); acc = self.x.ite(t, k, acc); }
                            acc
                        }
                        _ => {
                            let mut acc = self.x.konst(w as u128, w);
                            for b in 0..w { let t = self.x.extract(e, b, 1); let k = self.x.konst((w - 1 - b) as u128, w); acc = self.x.ite(t, k, acc); }
                            acc
                        }
                    };
                    let v = self.mk(r);
                    set!(v);
                }
            }
            Bswap => {
                let x = arg!(0);
                let e = self.ex(x, w);
                let mut acc = self.x.extract(e, 0, 8);
                for b in 1..w / 8 { let t = self.x.extract(e, b * 8, 8); acc = self.x.concat(acc, t); }
                let v = self.mk(acc);
                set!(v);
            }
            Bitreverse => {
                let x = arg!(0);
                let e = self.ex(x, w);
                let mut acc = self.x.extract(e, 0, 1);
                for b in 1..w { let t = self.x.extract(e, b, 1); acc = self.x.concat(acc, t); }
                let v = self.mk(acc);
                set!(v);
            }
            Fshl | Fshr => {
                let s = need!(2, w) % w as u64;
                let (a, b) = (arg!(0), arg!(1));
                if s == 0 { set!(if i == Fshl { a } else { b }); }
                else {
                    let (l, r) = if i == Fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                    let (ll, rr) = (self.wide(l as u128, w), self.wide(r as u128, w));
                    let x = self.binop(BinOp::Shl, w, a, ll)?;
                    let y = self.binop(BinOp::LShr, w, b, rr)?;
                    let v = self.binop(BinOp::Or, w, x, y)?;
                    set!(v);
                }
            }
            UAddO | USubO | SAddO | SSubO | UMulO | SMulO => {
                let (a, b) = (arg!(0), arg!(1));
                let op = match i { UAddO | SAddO => BinOp::Add, USubO | SSubO => BinOp::Sub, _ => BinOp::Mul };
                let r = self.binop(op, w, a, b)?;
                let o = match i {
                    UAddO => self.icmp_any(Pred::Ult, w, r, a),
                    USubO => self.icmp_any(Pred::Ult, w, a, b),
                    SAddO | SSubO => {
                        let (ea, eb, er) = (self.ex(a, w), self.ex(b, w), self.ex(r, w));
                        let (sa, sb, sr) = (self.x.extract(ea, w - 1, 1), self.x.extract(eb, w - 1, 1), self.x.extract(er, w - 1, 1));
                        let same = self.x.bin(Op::Eq, sa, sb);
                        let same = if i == SAddO { same } else { self.x.not1(same) };
                        let d = self.x.bin(Op::Xor, sr, sa);
                        let e = self.x.bin(Op::And, same, d);
                        self.mk(e)
                    }
                    _ => {
                        let (ea, eb) = (self.ex(a, w), self.ex(b, w));
                        let e = self.x.bin(if i == UMulO { Op::UMulOvf } else { Op::SMulOvf }, ea, eb);
                        self.mk(e)
                    }
                };
                st.regs[(base + c.d) as usize] = r;
                st.regs[(base + c.d + 1) as usize] = o;
            }
            UAddSat | USubSat | SAddSat | SSubSat => {
                let n = c.args[0].1;
                for k in 0..n {
                    let (a, b) = (self.get(st, base, opd_off(c.args[0].0, k)), self.get(st, base, opd_off(c.args[1].0, k)));
                    let v = match i {
                        UAddSat => { let r = self.binop(BinOp::Add, w, a, b)?; let o = self.icmp_any(Pred::Ult, w, r, a); let m = self.wide(mask(w), w); self.select(o, m, r, w) }
                        USubSat => { let r = self.binop(BinOp::Sub, w, a, b)?; let o = self.icmp_any(Pred::Ult, w, a, b); let z = self.wide(0, w); self.select(o, z, r, w) }
                        _ => return Err(Err::Unsup("sat".into())),
                    };
                    st.regs[(base + c.d + k) as usize] = v;
                }
            }
            Ucmp | Scmp => {
                let (a, b) = (arg!(0), arg!(1));
                let rw = c.retw[0] as u32;
                let lt = self.icmp_any(if i == Ucmp { Pred::Ult } else { Pred::Slt }, w, a, b);
                let eq = self.icmp_any(Pred::Eq, w, a, b);
                let (m1, z, o) = (self.wide(mask(rw), rw), self.wide(0, rw), self.wide(1, rw));
                let v = self.select(eq, z, o, rw);
                let v = self.select(lt, m1, v, rw);
                set!(v);
            }
            FAbs => { let v = arg!(0); let r = self.binop(BinOp::And, w, v, V { c: (mask(w) >> 1) as u64, e: 0 })?; set!(r) }
            CopySign => {
                let (a, b) = (arg!(0), arg!(1));
                let m = V { c: (mask(w) >> 1) as u64, e: 0 };
                let sgn = V { c: 1 << (w - 1), e: 0 };
                let x = self.binop(BinOp::And, w, a, m)?;
                let y = self.binop(BinOp::And, w, b, sgn)?;
                let r = self.binop(BinOp::Or, w, x, y)?;
                set!(r);
            }
            Floor | Ceil | Trunc | Sqrt | Round | RoundEven | Rint => {
                let x = need!(0, w);
                if w != 64 { return Err(Err::Unsup("f32 op".into())); }
                let f = f64::from_bits(x);
                let r = match i { Floor => f.floor(), Ceil => f.ceil(), Trunc => f.trunc(), Sqrt => f.sqrt(), Round => f.round(), _ => f.round_ties_even() };
                set!(V { c: r.to_bits(), e: 0 });
            }
            FpToUiSat | FpToSiSat => {
                let x = need!(0, w);
                let f = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let rw = c.retw[0] as u32;
                let r: u128 = if i == FpToUiSat { (f as u128).min(mask(rw)) } else {
                    let v = f as i128;
                    let (lo, hi) = (-(1i128 << (rw - 1).min(126)) , (1i128 << (rw - 1).min(126)) - 1);
                    if rw == 128 { v as u128 } else { (v.clamp(lo, hi) as u128) & mask(rw) }
                };
                let v = self.wide(r, rw);
                set!(v);
            }
            IsFpClass => {
                let m = need!(1, 32);
                let a = arg!(0);
                if w != 64 { return Err(Err::Unsup("is.fpclass f32".into())); }
                let e = self.ex(a, 64);
                let s = self.x.extract(e, 63, 1);
                let km = self.x.konst(0x7fff_ffff_ffff_ffff, 64);
                let mag = self.x.bin(Op::And, e, km);
                let inf = self.x.konst(0x7ff0_0000_0000_0000, 64);
                let qb = self.x.konst(0x7ff8_0000_0000_0000, 64);
                let minn = self.x.konst(0x0010_0000_0000_0000, 64);
                let z = self.x.konst(0, 64);
                let isinf = self.x.bin(Op::Eq, mag, inf);
                let isnan = self.x.bin(Op::Ult, inf, mag);
                let isq = self.x.bin(Op::Ule, qb, mag);
                let isz = self.x.bin(Op::Eq, mag, z);
                let nsub = self.x.bin(Op::Ule, minn, mag);
                let ns2 = self.x.bin(Op::Ult, mag, inf);
                let isnorm = self.x.bin(Op::And, nsub, ns2);
                let t1 = self.x.not1(nsub);
                let t2 = self.x.not1(isz);
                let issub = self.x.bin(Op::And, t1, t2);
                let nq = self.x.not1(isq);
                let issn = self.x.bin(Op::And, isnan, nq);
                let pos = self.x.not1(s);
                let mut acc = self.x.konst(0, 1);
                let cl = [(0, issn, 2), (1, isq, 2), (2, isinf, 1), (3, isnorm, 1), (4, issub, 1), (5, isz, 1), (6, isz, 0), (7, issub, 0), (8, isnorm, 0), (9, isinf, 0)];
                for (b, p, sg) in cl {
                    if m >> b & 1 == 1 {
                        let q = match sg { 2 => p, 1 => self.x.bin(Op::And, p, s), _ => self.x.bin(Op::And, p, pos) };
                        acc = self.x.bin(Op::Or, acc, q);
                    }
                }
                let v = self.mk(acc);
                set!(v);
            }
            Fma | FMinNum | FMaxNum => {
                let a = f64::from_bits(need!(0, w));
                let b = f64::from_bits(need!(1, w));
                if w != 64 { return Err(Err::Unsup("f32 op".into())); }
                let r = match i { FMinNum => a.min(b), FMaxNum => a.max(b), _ => a.mul_add(b, f64::from_bits(need!(2, w))) };
                set!(V { c: r.to_bits(), e: 0 });
            }
            Trap => return Err(Err::Exit(Exit::Panic("abort/trap".into()))),
            ThreadLocal => { let v = arg!(0); set!(v) }
            LoadRel => {
                let p = need!(0, 64);
                let o = arg!(1);
                if o.e == 0 {
                    let v = self.load(st, p.wrapping_add(o.c), 32)?;
                    if v.e != 0 { return Err(Err::Unsup("loadrel".into())); }
                    // relative tables store (target - table) truncated to 32 bits: object ids are lost, so resolve through the initializer
                    let tgt = self.rel_target(p, o.c)?;
                    set!(V { c: tgt, e: 0 });
                } else {
                    let slot = (base as i32 + c.args[1].0) as u32;
                    return Err(self.concretize(st, slot, 64));
                }
            }
            IsConstant => set!(Z),
            Ptrmask => { let (a, b) = (arg!(0), arg!(1)); let v = self.binop(BinOp::And, 64, a, b)?; set!(v) }
            ObjectSize => set!(V { c: u64::MAX, e: 0 }),
            ReduceOr | ReduceAnd | ReduceAdd => {
                let n = c.args[0].1;
                let mut acc = self.get(st, base, c.args[0].0);
                let op = match i { ReduceOr => BinOp::Or, ReduceAnd => BinOp::And, _ => BinOp::Add };
                for k in 1..n { let x = self.get(st, base, opd_off(c.args[0].0, k)); acc = self.binop(op, w, acc, x)?; }
                set!(acc);
            }
            SymU8 | SymU16 | SymU64 => {
                let vw = match i { SymU8 => 8, SymU16 => 16, _ => 64 };
                let ix = st.varw.len() as u32;
                if ix >= 64 { return Err(Err::Unsup("too many symbolic variables".into())); }
                st.varw.push(vw);
                st.model.push(0);
                st.dom.push(None);
                let e = self.x.var(ix, vw as u32);
                set!(V { c: 0, e });
            }
            SymAssume => {
                let v = arg!(0);
                if v.e == 0 { if v.c & 1 == 0 { return Err(Err::Exit(Exit::Assume)); } }
                else {
                    let b = if w == 1 { v.e } else { self.x.extract(v.e, 0, 1) };
                    if let Some(k) = self.x.as_const(b) { if k == 0 { return Err(Err::Exit(Exit::Assume)); } }
                    else {
                        let (t, _) = self.feas(st, b);
                        match t { Some(m) => self.assume(st, b, m), None => return Err(Err::Exit(Exit::Assume)) }
                    }
                }
            }
            SymFail => { let k = need!(0, 32); return Err(Err::Exit(Exit::Fail(k as u32))); }
            SymReach => { let k = need!(0, 32); st.reach |= 1 << (k & 63); }
            SymExpectPanic => { let k = need!(0, 32); st.expect_panic = k != 0; }
            SymFork => { let k = need!(0, 64); set!(V { c: k, e: 0 }) }
            SymConcretize => {
                let (p, n) = (need!(0, 64), need!(1, 64));
                for k in 0..n {
                    let b = self.byte(st, p + k)?;
                    if b.e != 0 {
                        let vs = self.values(st, b.e, 256)?;
                        let alts = vs.into_iter().map(|(v, m)| {
                            let kk = self.x.konst(v, 8);
                            let cons = self.x.bin(Op::Eq, b.e, kk);
                            Alt { cons, model: m, act: Act::StoreByte(p + k, v as u8) }
                        }).collect();
                        return Err(Err::Fork(alts));
                    }
                }
            }
            PanicFn => { let n = short(self.t.fname(c.extra)); return Err(Err::Exit(Exit::Panic(n))); }
            Unsupported => { let n = self.t.fname(c.extra).to_string(); return Err(Err::Unsup(format!("external {n}"))); }
        }
        Ok(())
    }
    fn icmp_any(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if w > 64 || a.e != 0 || b.e != 0 {
            let (x, y) = (self.ex(a, w), self.ex(b, w));
            let (va, vb) = (V { c: 0, e: x }, V { c: 0, e: y });
            return self.icmp(p, w, va, vb);
        }
        self.icmp(p, w, a, b)
    }
    /// relative lookup tables: 32-bit (target - table) entries; recover the target from the initializer text
    fn rel_target(&mut self, table: u64, off: u64) -> R<u64> {
        let gi = ((table >> OBJ_SHIFT) as u32).wrapping_sub(1);
        if gi >= self.ng() { return Err(Err::Unsup("load.relative table".into())); }
        let t = self.t.clone();
        let pos = t.globals[gi as usize].1;
        let end = pos + t.src[pos..].iter().position(|&c| c == b'\n').unwrap();
        let line = String::from_utf8_lossy(&t.src[pos..end]).into_owned();
        let k = ((table & 0xffff_ffff) + off) / 4;
        // k-th "ptrtoint (ptr " occurrence of entries: each entry "trunc (i64 sub (i64 ptrtoint (ptr X to i64), i64 ptrtoint (ptr T to i64)) to i32)"
        let mut it = line.match_indices("trunc (i64 sub (i64 ptrtoint (ptr ");
        let m = it.nth(k as usize).ok_or_else(|| Err::Unsup("load.relative entry".into()))?;
        let mut p = P::new(&t, pos + m.0 + "trunc (i64 sub (i64 ptrtoint (ptr ".len());
        let v = p.constant(&Ty::Ptr);
        Ok(v[0].0 as u64)
    }

    // ---------- forking / merging ----------
    pub fn apply(&mut self, mut st: State, alt: Alt) -> State {
        self.assume(&mut st, alt.cons, alt.model);
        match alt.act {
            Act::Goto(b) => st.pending = Some(Pending::Goto(b)),
            Act::SetSlot(s, v) => st.regs[s as usize] = v,
            Act::StoreByte(a, b) => { let _ = self.store(&mut st, a, V { c: b as u64, e: 0 }, 8); }
            Act::Next => {}
        }
        st
    }
    pub fn fork(&mut self, parent: State, alts: Vec<Alt>, is_branch: bool, budget: Option<&mut u64>) -> Vec<State> {
        self.st.forks += 1;
        let (fid, bb, ip) = { let fr = parent.frames.last().unwrap(); (fr.f.id, fr.bb, fr.ip) };
        *self.fork_sites.entry((fid, bb, ip)).or_insert(0) += 1;
        let depth = parent.frames.len() - 1;
        let j = parent.frames[depth].f.ipdom[bb as usize];
        let mut children = vec![];
        for a in alts { children.push(self.apply(parent.clone(), a)); }
        if !is_branch || j == u32::MAX || self.cfg.region_budget == 0 { return children; }
        let mut own = self.cfg.region_budget;
        let budget: &mut u64 = match budget { Some(b) => b, None => &mut own };
        let stop = Some((depth, j));
        let mut pending = children;
        pending.reverse();
        let mut done: Vec<State> = vec![];
        let mut escaped: Vec<State> = vec![];
        while let Some(mut s) = pending.pop() {
            if s.exit.is_some() || *budget == 0 || done.len() + pending.len() + escaped.len() > self.cfg.max_sub { escaped.push(s); continue; }
            match self.run(&mut s, stop, budget) {
                Ev::Stop => done.push(s),
                Ev::Exit | Ev::Budget => escaped.push(s),
                Ev::Fork(a, b) => { let r = self.fork(s, a, b, Some(budget)); for x in r.into_iter().rev() { pending.push(x); } }
            }
        }
        let mut res = self.merge(&parent, depth, j, done, escaped.is_empty());
        res.extend(escaped);
        res
    }
    fn live_at(&mut self, f: &Rc<Func>) -> Rc<Vec<Vec<u64>>> {
        // cached per function in `live` under block index MAX via separate map
        if let Some(l) = LIVE.with(|m| m.borrow().get(&f.id).cloned()) { return l; }
        let l = Rc::new(liveness(f));
        LIVE.with(|m| m.borrow_mut().insert(f.id, l.clone()));
        l
    }
    fn merge(&mut self, parent: &State, depth: usize, j: u32, done: Vec<State>, all: bool) -> Vec<State> {
        if done.len() < 2 { return done; }
        let f = parent.frames[depth].f.clone();
        let base = parent.frames[depth].base as usize;
        let live: Vec<u32> = if j == EXIT { vec![] } else {
            let l = self.live_at(&f);
            let l = &l[j as usize];
            (0..f.nregs).filter(|r| l[*r as usize / 64] >> (r % 64) & 1 == 1).collect()
        };
        let pslots: Vec<u16> = if j == EXIT { vec![] } else { f.blocks[j as usize].phi_slots.iter().map(|x| x.1).collect() };
        let mut groups: Vec<Vec<State>> = vec![];
        'next: for s in done {
            if s.varw.len() == parent.varw.len() && s.pc.len() >= parent.pc.len() {
                for g in groups.iter_mut() {
                    if self.mergeable(parent, &g[0], &s, base, &f, &live, &pslots, j) { g.push(s); continue 'next; }
                }
            }
            groups.push(vec![s]);
        }
        let ng = groups.len();
        let mut out = vec![];
        for g in groups {
            if g.len() == 1 { out.extend(g); continue; }
            self.st.merges += 1;
            self.st.merged_in += g.len() as u64;
            // path condition of each member relative to the parent: a cube of domains plus a residue
            let nv = parent.varw.len();
            let mut cubes: Vec<(Vec<(u32, u32)>, E)> = vec![];
            let mut conds: Vec<E> = vec![];
            for s in &g {
                let mut cube = vec![];
                let mut c = self.x.konst(1, 1);
                for v in 0..nv {
                    if s.dom[v] != parent.dom[v] {
                        let d = s.dom[v].unwrap();
                        cube.push((v as u32, d));
                        let e = self.x.inset(v as u32, s.varw[v] as u32, d);
                        c = self.x.bin(Op::And, c, e);
                    }
                }
                let mut rest = self.x.konst(1, 1);
                for &p in &s.multi { if !parent.multi.contains(&p) { rest = self.x.bin(Op::And, rest, p); } }
                c = self.x.bin(Op::And, c, rest);
                cubes.push((cube, rest));
                conds.push(c);
            }
            let mut m = g[0].clone();
            // restore the parent's constraints
            m.pc = parent.pc.clone();
            m.dom = parent.dom.clone();
            m.multi = parent.multi.clone();
            m.multi_mask = parent.multi_mask;
            m.insts = g.iter().map(|s| s.insts).max().unwrap();
            if !(ng == 1 && all) {
                // union cubes that differ in one variable only
                let dom = |x: &mut Exprs, c: &[(u32, u32)], v: u32| -> u32 {
                    if let Some(p) = c.iter().find(|p| p.0 == v) { return p.1; }
                    match parent.dom[v as usize] { Some(d) => d, None => x.set_full(parent.varw[v as usize] as u32) }
                };
                let mut changed = true;
                while changed {
                    changed = false;
                    'pairs: for i in 0..cubes.len() {
                        for k in i + 1..cubes.len() {
                            if cubes[i].1 != cubes[k].1 { continue; }
                            let mut vs: Vec<u32> = cubes[i].0.iter().chain(cubes[k].0.iter()).map(|p| p.0).collect();
                            vs.sort_unstable();
                            vs.dedup();
                            let diff: Vec<u32> = vs.into_iter().filter(|v| dom(&mut self.x, &cubes[i].0, *v) != dom(&mut self.x, &cubes[k].0, *v)).collect();
                            if diff.len() > 1 { continue; }
                            if let Some(&v) = diff.first() {
                                let (p, q) = (dom(&mut self.x, &cubes[i].0, v), dom(&mut self.x, &cubes[k].0, v));
                                let u = self.x.set_or(p, q);
                                let mut nc: Vec<(u32, u32)> = cubes[i].0.iter().copied().filter(|p| p.0 != v).collect();
                                let pd = match parent.dom[v as usize] { Some(d) => d, None => self.x.set_full(parent.varw[v as usize] as u32) };
                                if u != pd { nc.push((v, u)); nc.sort_unstable(); }
                                cubes[i].0 = nc;
                            }
                            cubes.remove(k);
                            changed = true;
                            break 'pairs;
                        }
                    }
                }
                let mut c = self.x.konst(0, 1);
                for (cube, rest) in &cubes {
                    let mut k = *rest;
                    for &(v, d) in cube { let e = self.x.inset(v, parent.varw[v as usize] as u32, d); k = self.x.bin(Op::And, k, e); }
                    c = self.x.bin(Op::Or, c, k);
                }
                // hull of the domains first: it lets the disjunction simplify
                let model = g[0].model.clone();
                if cubes.len() > 1 {
                    for v in 0..nv as u32 {
                        if !cubes.iter().all(|q| q.0.iter().any(|p| p.0 == v)) { continue; }
                        let mut h = dom(&mut self.x, &cubes[0].0, v);
                        for q in &cubes[1..] { let d = dom(&mut self.x, &q.0, v); h = self.x.set_or(h, d); }
                        let e = self.x.inset(v, parent.varw[v as usize] as u32, h);
                        self.assume(&mut m, e, model.clone());
                    }
                }
                self.assume(&mut m, c, model);
            }
            for &r in &live {
                let slot = base + r as usize;
                let w = f.regw[r as usize] as u32;
                let vals: Vec<V> = g.iter().map(|s| s.regs[slot]).collect();
                m.regs[slot] = self.merge_vals(&vals, &conds, w);
            }
            match (&mut m.pending, j) {
                (Some(Pending::Block(_, vs)), _) => {
                    for k in 0..vs.len() {
                        let vals: Vec<V> = g.iter().map(|s| match &s.pending { Some(Pending::Block(_, v)) => v[k], _ => unreachable!() }).collect();
                        vs[k] = self.merge_vals(&vals, &conds, pslots[k] as u32);
                    }
                }
                (Some(Pending::Ret(vs)), _) => {
                    let rw = ret_widths(&f);
                    for k in 0..vs.len() {
                        let vals: Vec<V> = g.iter().map(|s| match &s.pending { Some(Pending::Ret(v)) => v[k], _ => unreachable!() }).collect();
                        vs[k] = self.merge_vals(&vals, &conds, rw.get(k).copied().unwrap_or(64) as u32);
                    }
                }
                _ => {}
            }
            out.push(m);
        }
        out
    }
    fn merge_vals(&mut self, vals: &[V], conds: &[E], w: u32) -> V {
        if vals.iter().all(|v| *v == vals[0]) { return vals[0]; }
        let mut acc = self.ex(vals[vals.len() - 1], w);
        for k in (0..vals.len() - 1).rev() {
            let v = self.ex(vals[k], w);
            acc = self.x.ite(conds[k], v, acc);
        }
        self.mk(acc)
    }
    fn can_merge_val(&self, a: V, b: V, w: u16) -> bool {
        if a == b { return true; }
        w <= 32
    }
    #[allow(clippy::too_many_arguments)]
    fn mergeable(&mut self, _parent: &State, a: &State, b: &State, base: usize, f: &Rc<Func>, live: &[u32], pslots: &[u16], _j: u32) -> bool {
        if a.reach != b.reach || a.expect_panic != b.expect_panic || a.next_id != b.next_id || a.free_ids != b.free_ids { return false; }
        for &r in live { if !self.can_merge_val(a.regs[base + r as usize], b.regs[base + r as usize], f.regw[r as usize]) { return false; } }
        match (&a.pending, &b.pending) {
            (Some(Pending::Block(_, x)), Some(Pending::Block(_, y))) => for k in 0..x.len() { if !self.can_merge_val(x[k], y[k], pslots[k]) { return false; } },
            (Some(Pending::Ret(x)), Some(Pending::Ret(y))) => {
                let rw = ret_widths(f);
                for k in 0..x.len() { if !self.can_merge_val(x[k], y[k], rw.get(k).copied().unwrap_or(64)) { return false; } }
            }
            _ => return false,
        }
        if a.mem.len() != b.mem.len() { return false; }
        for (ca, cb) in a.mem.iter().zip(b.mem.iter()) {
            if Rc::ptr_eq(ca, cb) { continue; }
            for (x, y) in ca.iter().zip(cb.iter()) {
                match (x, y) {
                    (None, None) => {}
                    (Some(x), Some(y)) => if !Rc::ptr_eq(x, y) && !obj_eq(x, y) { return false; },
                    _ => return false,
                }
            }
        }
        if a.gl.len() != b.gl.len() { return false; }
        for (x, y) in a.gl.iter().zip(b.gl.iter()) { if x.0 != y.0 || !(Rc::ptr_eq(&x.1, &y.1) || obj_eq(&x.1, &y.1)) { return false; } }
        true
    }
}
fn obj_eq(a: &Obj, b: &Obj) -> bool {
    if a.data.len() != b.data.len() { return false; }
    if a.sym.is_empty() && b.sym.is_empty() { return a.data == b.data; }
    for k in 0..a.data.len() {
        let (x, y) = (a.sym.get(k).copied().unwrap_or(0), b.sym.get(k).copied().unwrap_or(0));
        if x != y { return false; }
        if x == 0 && a.data[k] != b.data[k] { return false; }
    }
    true
}
fn ret_widths(f: &Func) -> Vec<u16> {
    for b in &f.blocks {
        if let Some(I::Ret { v, n }) = b.insts.last() {
            if *v >= 0 { return (0..*n).map(|k| f.regw[(*v as u32 + k) as usize]).collect(); }
        }
    }
    vec![]
}
thread_local! { static LIVE: std::cell::RefCell<HashMap<u32, Rc<Vec<Vec<u64>>>>> = std::cell::RefCell::new(HashMap::new()); }

enum Flow { Next, Jump, Stop, Done }

/// compact v0-mangled name: identifiers only
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string(); }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut l = 0usize;
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() { l = l * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' && i + 1 + l <= b.len() { i += 1; }
            if i + l <= b.len() && l > 0 && b[i..i + l].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && b[i].is_ascii_alphabetic() | (b[i] == b'_') {
                out.push(n[i..i + l].to_string());
                i += l;
            } else { i = s + 1; }
        } else if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut k = i + 1;
            while k < b.len() && b[k].is_ascii_alphanumeric() { k += 1; }
            if k < b.len() && b[k] == b'_' { i = k + 1; } else { i += 1; }
        } else { i += 1; }
    }
    let s = out.join("::");
    if s.len() > 160 { s[..160].to_string() } else { s }
}
