mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use ir::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Job { scn: u32, prefix: Vec<u32> }

#[derive(Default)]
struct Queue { jobs: VecDeque<Job>, active: usize, done: bool }

#[derive(Clone)]
struct Viol { scn: u32, kind: String, msg: String, vals: Vec<u64>, ws: Vec<u8> }

#[derive(Default, Clone)]
struct ScnStat { paths: u64, done: u64, assume: u64, viol: u64, unsup: u64, hang: u64, reach: u64, left: u64, insts: u64, cpu: f64 }

struct Shared {
    q: Mutex<Queue>,
    cv: Condvar,
    idle: AtomicUsize,
    deadline: Instant,
    stop: AtomicBool,
    viols: Mutex<Vec<Viol>>,
    nviol: AtomicU64,
    scn: Mutex<BTreeMap<u32, ScnStat>>,
    unsup: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<(u32, Vec<u64>)>>,
    funcs: Mutex<BTreeMap<String, u64>>,
    cover: Mutex<BTreeMap<String, (usize, Vec<u64>)>>,
    totals: Mutex<BTreeMap<&'static str, f64>>,
    sites: Mutex<HashMap<(u32, u32, u32), u64>>,
    truths: SharedTruth,
}

struct Args { ll: String, entry: String, scns: Vec<u32>, time: f64, threads: usize, out: String, certify: bool, max_insts: u64, region: u64, max_sub: usize, max_viol: u64, verbose: bool, final_check: bool, seed: u64, rng_pick: u64 }

struct Expl { scn: u32, stack: Vec<State> }

fn worker(sh: Arc<Shared>, t: Arc<Text>, a: Arc<Args>, wid: u64) {
    let cfg = || Cfg { certify: a.certify, region_budget: a.region, max_sub: a.max_sub, max_insts: a.max_insts };
    let mut eng = Eng::new(t.clone(), cfg(), 20_000, sh.truths.clone());
    let entry = *t.fn_ix.get(&a.entry).unwrap_or_else(|| panic!("no entry {}", a.entry));
    let mut local: VecDeque<Expl> = VecDeque::new();
    let mut rng: u64 = a.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (wid + 1).wrapping_mul(0xd1b54a32d192ed03);
    let mut stats: BTreeMap<u32, ScnStat> = BTreeMap::new();
    let mut final_unsat = 0u64;
    let mut unsup: BTreeMap<String, u64> = BTreeMap::new();
    'outer: loop {
        // obtain work
        {
            let mut q = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Relaxed) || q.done { break 'outer; }
                if let Some(j) = q.jobs.pop_front() {
                    if local.is_empty() { q.active += 1; }
                    drop(q);
                    // replay the prefix
                    let mut st = State::new();
                    eng.push_call(&mut st, entry, &[V { c: j.scn as u64, e: 0 }], 0, 0, None);
                    let mut k = 0;
                    let mut diverged = false;
                    while k < j.prefix.len() {
                        let mut big = u64::MAX;
                        match eng.run(&mut st, None, &mut big) {
                            Ev::Fork(alts, b) => {
                                let mut r = eng.fork(std::mem::replace(&mut st, State::new()), alts, b, None);
                                if r.len() == 1 { st = r.pop().unwrap(); }
                                else {
                                    let c = j.prefix[k] as usize;
                                    k += 1;
                                    if c >= r.len() { diverged = true; break; }
                                    st = r.swap_remove(c);
                                    st.decisions = j.prefix[..k].to_vec();
                                }
                            }
                            _ => { diverged = true; break; }
                        }
                    }
                    if diverged {
                        // a solver time-out made the other worker's run differ: report the sub-tree as not explored
                        let e = stats.entry(j.scn).or_default();
                        e.left += 1;
                        *unsup.entry("replay of a donated path diverged (solver time-out)".into()).or_insert(0) += 1;
                        if local.is_empty() {
                            let mut q = sh.q.lock().unwrap();
                            q.active -= 1;
                            if q.active == 0 && q.jobs.is_empty() { q.done = true; }
                            sh.cv.notify_all();
                        }
                        continue 'outer;
                    }
                    local.push_front(Expl { scn: j.scn, stack: vec![st] });
                    break;
                }
                if !local.is_empty() { break; }
                if q.active == 0 { q.done = true; sh.cv.notify_all(); break 'outer; }
                sh.idle.fetch_add(1, SeqCst);
                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
                q = g;
                sh.idle.fetch_sub(1, SeqCst);
            }
        }
        let Some(mut ex) = local.pop_front() else { continue };
        let slice = Instant::now();
        let scn = ex.scn;
        let i0 = eng.st.insts;
        let ss = stats.entry(scn).or_default();
        let mut steps = 0u32;
        while !ex.stack.is_empty() {
            steps += 1;
            // (a step can hold several slow queries)
            if Instant::now() > sh.deadline { sh.stop.store(true, Relaxed); break; }
            if steps % 16 == 0 {
                if Instant::now() > sh.deadline || sh.stop.load(Relaxed) { sh.stop.store(true, Relaxed); break; }
                if slice.elapsed().as_secs_f64() > 0.4 && (!local.is_empty() || sh.q.lock().unwrap().jobs.len() > 0) { break; }
                // donate
                if sh.idle.load(Relaxed) > 0 && ex.stack.len() > 1 {
                    let mut q = sh.q.lock().unwrap();
                    if q.jobs.len() < 4 {
                        let n = (ex.stack.len() / 2).clamp(1, 4);
                        for s in ex.stack.drain(0..n) { q.jobs.push_back(Job { scn, prefix: s.decisions }); }
                        sh.cv.notify_all();
                    }
                }
            }
            rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
            if a.rng_pick > 0 && rng % a.rng_pick == 0 {
                let k = (rng >> 20) as usize % ex.stack.len();
                let l = ex.stack.len() - 1;
                ex.stack.swap(k, l);
            }
            let mut st = ex.stack.pop().unwrap();
            let mut big = u64::MAX;
            match eng.run(&mut st, None, &mut big) {
                Ev::Fork(alts, b) => {
                    let dec = st.decisions.clone();
                    let mut r = eng.fork(st, alts, b, None);
                    if r.len() > 1 {
                        for (i, s) in r.iter_mut().enumerate() { s.decisions = dec.clone(); s.decisions.push(i as u32); }
                    } else if let Some(s) = r.first_mut() { s.decisions = dec; }
                    r.reverse();
                    ex.stack.extend(r);
                }
                Ev::Exit => {
                    let e = st.exit.clone().unwrap();
                    ss.paths += 1;
                    ss.reach |= st.reach;
                    let mut viol = |kind: &str, msg: String, eng: &mut Eng| {
                        ss.viol += 1;
                        // model through z3 over the full path condition
                        let vars: Vec<(u32, u32)> = st.varw.iter().enumerate().map(|(i, w)| (i as u32, *w as u32)).collect();
                        let mut vals = st.model.clone();
                        match eng.z.check(&eng.x, &st.pc, &vars) {
                            z3::Res::Sat(m) => {
                                // prefer the path's own model when it satisfies everything
                                if !st.pc.iter().all(|&c| eng.x.eval(c, &vals) == 1) { vals = m.iter().map(|x| x.1).collect(); }
                            }
                            z3::Res::Unsat => { final_unsat += 1; return; }
                            _ => {}
                        }
                        let mut v = sh.viols.lock().unwrap();
                        let same = v.iter().filter(|x| x.scn == scn && x.msg == msg).count();
                        if same < 40 { v.push(Viol { scn, kind: kind.into(), msg, vals, ws: st.varw.clone() }); }
                        if sh.nviol.fetch_add(1, Relaxed) + 1 >= a.max_viol { sh.stop.store(true, Relaxed); }
                    };
                    match e {
                        Exit::Done => {
                            ss.done += 1;
                            if a.final_check && ss.done % 499 == 1 {
                                if let z3::Res::Unsat = eng.z.check(&eng.x, &st.pc, &[]) { final_unsat += 1; }
                            }
                            if ss.done == 1 || ss.done == 7 || ss.done == 50 || ss.done % 5000 == 0 {
                                let mut s = sh.samples.lock().unwrap();
                                if s.len() < 400 { s.push((scn, st.model.clone())); }
                            }
                        }
                        Exit::Assume => ss.assume += 1,
                        Exit::Fail(c) => viol("assert", format!("fail code {c}"), &mut eng),
                        Exit::Panic(m) => viol("panic", m, &mut eng),
                        Exit::PanicMissing => viol("nopanic", "expected panic did not happen".into(), &mut eng),
                        Exit::MemErr(m) => viol("memory", m, &mut eng),
                        Exit::Hang => { ss.hang += 1; let b = eng.backtrace(&st); viol("hang", format!("instruction budget exceeded @ {b}"), &mut eng) }
                        Exit::Unsup(m) => { ss.unsup += 1; *unsup.entry(m).or_insert(0) += 1; }
                    }
                }
                _ => unreachable!(),
            }
        }
        ss.insts += eng.st.insts - i0;
        ss.cpu += slice.elapsed().as_secs_f64();
        if ex.stack.is_empty() {
            if local.is_empty() {
                let mut q = sh.q.lock().unwrap();
                q.active -= 1;
                if q.active == 0 && q.jobs.is_empty() { q.done = true; }
                sh.cv.notify_all();
            }
        } else { local.push_back(ex); }
        if sh.stop.load(Relaxed) { break; }
    }
    // remaining
    for ex in &local { stats.entry(ex.scn).or_default().left += ex.stack.len() as u64; }
    let mut g = sh.scn.lock().unwrap();
    for (k, s) in stats {
        let e = g.entry(k).or_default();
        e.paths += s.paths; e.done += s.done; e.assume += s.assume; e.viol += s.viol; e.unsup += s.unsup; e.hang += s.hang; e.reach |= s.reach; e.left += s.left; e.insts += s.insts; e.cpu += s.cpu;
    }
    drop(g);
    let mut u = sh.unsup.lock().unwrap();
    for (k, v) in unsup { *u.entry(k).or_insert(0) += v; }
    drop(u);
    let mut fs = sh.funcs.lock().unwrap();
    for (i, n) in eng.finsts.iter().enumerate() { if *n > 0 { *fs.entry(t.funcs[i].0.clone()).or_insert(0) += n; } }
    drop(fs);
    let mut cv = sh.cover.lock().unwrap();
    for (i, c) in &eng.cover {
        let e = cv.entry(t.funcs[*i as usize].0.clone()).or_insert((c.len(), vec![0; c.len()]));
        for (k, v) in c.iter().enumerate() { e.1[k] += v; }
    }
    drop(cv);
    let mut tt = sh.totals.lock().unwrap();
    for (k, v) in [
        ("instructions", eng.st.insts as f64), ("forks", eng.st.forks as f64), ("merges", eng.st.merges as f64), ("merged_states", eng.st.merged_in as f64),
        ("domain_decisions", eng.st.unary as f64), ("concretizations", eng.st.concretize as f64), ("query_cache_hits", eng.st.cache_hits as f64),
        ("solver_queries", eng.z.queries as f64), ("solver_sat", eng.z.sat as f64), ("solver_unsat", eng.z.unsat as f64), ("solver_unknown", eng.z.unknown as f64),
        ("certified_predicates", eng.z.certs as f64), ("certificate_failures", eng.st.cert_fail as f64), ("uncertified_predicates", eng.st.uncertified as f64), ("solver_seconds", eng.z.time), ("expr_nodes", eng.x.nodes.len() as f64), ("final_unsat", final_unsat as f64),
    ] { *tt.entry(k).or_insert(0.0) += v; }
    let m = tt.entry("solver_max_seconds").or_insert(0.0);
    if eng.z.maxt > *m { *m = eng.z.maxt; }
    drop(tt);
    let mut s = sh.sites.lock().unwrap();
    for (k, v) in &eng.fork_sites { *s.entry(*k).or_insert(0) += v; }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    let mut a = Args { ll: String::new(), entry: String::new(), scns: vec![], time: 60.0, threads: 8, out: String::new(), certify: true, max_insts: 30_000_000, region: 4000, max_sub: 48, max_viol: 400, verbose: false, final_check: true, seed: 1, rng_pick: 0 };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match k.as_str() {
            "--ll" => a.ll = v(),
            "--entry" => a.entry = v(),
            "--scn" => {
                for p in v().split(',') {
                    if let Some((x, y)) = p.split_once("..") { for i in x.parse::<u32>().unwrap()..y.parse().unwrap() { a.scns.push(i); } }
                    else if !p.is_empty() { a.scns.push(p.parse().unwrap()); }
                }
            }
            "--time" => a.time = v().parse().unwrap(),
            "--threads" => a.threads = v().parse().unwrap(),
            "--out" => a.out = v(),
            "--no-certify" => a.certify = false,
            "--no-final" => a.final_check = false,
            "--max-insts" => a.max_insts = v().parse().unwrap(),
            "--region" => a.region = v().parse().unwrap(),
            "--max-sub" => a.max_sub = v().parse().unwrap(),
            "--max-viol" => a.max_viol = v().parse().unwrap(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--rng-pick" => a.rng_pick = v().parse().unwrap(),
            "-v" => a.verbose = true,
            _ => panic!("arg {k}"),
        }
    }
    z3::global_init();
    let t0 = Instant::now();
    let t = Text::load(&a.ll);
    let a = Arc::new(a);
    let sh = Arc::new(Shared {
        q: Mutex::new(Queue::default()), cv: Condvar::new(), idle: AtomicUsize::new(0), deadline: t0 + Duration::from_secs_f64(a.time), stop: AtomicBool::new(false),
        viols: Mutex::new(vec![]), nviol: AtomicU64::new(0), scn: Default::default(), unsup: Default::default(), samples: Default::default(), funcs: Default::default(), cover: Default::default(), totals: Default::default(), sites: Default::default(), truths: Default::default(),
    });
    for s in &a.scns { sh.q.lock().unwrap().jobs.push_back(Job { scn: *s, prefix: vec![] }); }
    let hs: Vec<_> = (0..a.threads).map(|i| {
        let (sh, t, a) = (sh.clone(), t.clone(), a.clone());
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(sh, t, a, i as u64)).unwrap()
    }).collect();
    let mut crashed = 0;
    for h in hs { if h.join().is_err() { crashed += 1; } }
    let wall = t0.elapsed().as_secs_f64();
    // jobs never started
    let mut scn = sh.scn.lock().unwrap().clone();
    for j in &sh.q.lock().unwrap().jobs { scn.entry(j.scn).or_default().left += 1; }
    let viols = sh.viols.lock().unwrap().clone();
    let mut o = String::new();
    o.push_str(&format!("{{\"wall_s\":{wall:.3},\"crashed\":{crashed},\"entry\":{},\n\"totals\":{{", js(&a.entry)));
    let tt = sh.totals.lock().unwrap();
    o.push_str(&tt.iter().map(|(k, v)| format!("{}:{}", js(k), if v.fract() == 0.0 { format!("{}", *v as u64) } else { format!("{v:.3}") })).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"scenarios\":{");
    o.push_str(&scn.iter().map(|(k, s)| format!("\"{k}\":{{\"paths\":{},\"done\":{},\"assume\":{},\"viol\":{},\"unsup\":{},\"hang\":{},\"reach\":{},\"left\":{},\"insts\":{},\"cpu\":{:.2}}}", s.paths, s.done, s.assume, s.viol, s.unsup, s.hang, s.reach, s.left, s.insts, s.cpu)).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"violations\":[");
    o.push_str(&viols.iter().map(|v| format!("{{\"scn\":{},\"kind\":{},\"msg\":{},\"vals\":{:?},\"ws\":{:?}}}", v.scn, js(&v.kind), js(&v.msg), v.vals, v.ws)).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"unsupported\":{");
    o.push_str(&sh.unsup.lock().unwrap().iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",\n"));
    o.push_str("},\n\"samples\":[");
    o.push_str(&sh.samples.lock().unwrap().iter().map(|(s, m)| format!("[{s},{m:?}]")).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"functions\":{");
    let cv = sh.cover.lock().unwrap();
    o.push_str(&sh.funcs.lock().unwrap().iter().map(|(k, v)| {
        let (n, c) = cv.get(k).map(|c| (c.0, c.1.iter().filter(|x| **x > 0).count())).unwrap_or((0, 0));
        format!("{}:[{v},{c},{n}]", js(k))
    }).collect::<Vec<_>>().join(",\n"));
    o.push_str("}}\n");
    if !a.out.is_empty() { std::fs::write(&a.out, &o).unwrap(); }
    if a.verbose {
        let mut tot = ScnStat::default();
        for (k, s) in &scn {
            println!("scn {k}: paths {} done {} assume {} viol {} unsup {} hang {} left {} reach {:b} insts {}M cpu {:.1}", s.paths, s.done, s.assume, s.viol, s.unsup, s.hang, s.left, s.reach, s.insts / 1_000_000, s.cpu);
            tot.paths += s.paths; tot.viol += s.viol; tot.left += s.left; tot.unsup += s.unsup;
        }
        println!("TOTAL paths {} viol {} unsup {} left {} wall {wall:.1}", tot.paths, tot.viol, tot.unsup, tot.left);
        println!("{:?}", *tt);
        for v in viols.iter().take(25) { println!("VIOL scn {} {} {} {:?} {:?}", v.scn, v.kind, v.msg, v.vals, String::from_utf8_lossy(&v.vals.iter().map(|x| *x as u8).collect::<Vec<_>>())); }
        for (k, v) in sh.unsup.lock().unwrap().iter().take(20) { println!("UNSUP {v} {k}"); }
        let s = sh.sites.lock().unwrap();
        let mut sv: Vec<_> = s.iter().collect();
        sv.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in sv.iter().take(25) { println!("FORK {v} bb{} ip{} {}", k.1, k.2, short(&t.funcs[k.0 as usize].0)); }
    }
    if crashed > 0 { std::process::exit(3); }
}
