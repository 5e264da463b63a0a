//! Path-wise symbolic execution of LLVM IR.
use crate::bounds::Bounds;
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { B(BV), A(Rc<Vec<V>>) }
const V0: V = V::B(BV { c: 0, id: 0, w: 64 });

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Vec<u32>, ro: bool }
type Page = [Option<Rc<Obj>>; 64];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dec {
    /// outcome, implied by the path condition
    Bool(bool, bool),
    /// the outcome a forked state starts with: it executes the instruction again from its start
    Fork(bool),
    Take(u64, bool), Excl(u64),
}

#[derive(Clone)]
struct Frame { f: u32, body: &'static Body, regs: Vec<V>, bb: u32, ip: u32, dst: Option<u32>, allocs: Vec<u64> }

#[derive(Clone)]
pub struct State {
    top: Frame, stack: Vec<Rc<Frame>>,
    heap: Vec<Rc<Page>>, next: u64, gmod: Rc<FxMap<u32, Rc<Obj>>>,
    pc: Vec<BV>, eqs: Rc<FxMap<u32, u64>>, emask: u128, iv: Rc<Bounds>,
    model: Rc<Vec<u8>>, nvars: u32,
    decs: Vec<Dec>, forced: Option<Arc<Vec<Dec>>>, fpos: usize,
    steps: u64, obs: Vec<(BV, u8)>, covers: Vec<u32>, may_panic: bool,
}

pub enum Stop { Again, Done, Reject, Viol(String, String), Unsup(String), Limit(String), Abandon }
type R<T> = Result<T, Stop>;

pub struct Job { decs: Arc<Vec<Dec>>, model: Vec<u8> }
#[derive(Default)]
pub struct Queue { jobs: Vec<Job>, active: usize, stop: bool }
#[derive(Clone, Default)]
pub struct Violation { pub key: String, pub kind: String, pub msg: String, pub input: Vec<u8>, pub trace: Vec<String>, pub count: u64 }
#[derive(Default)]
pub struct Agg {
    pub done: u64, pub rejected: u64, pub forks: u64, pub steps: u64, pub decisions: u64, pub viols: BTreeMap<String, Violation>, pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<u32, u64>, pub checks: BTreeMap<u32, (u64, u64)>, pub samples: Vec<(Vec<u8>, u64, bool)>, pub solver: crate::solver::Stats, pub incomplete: Option<String>,
    pub max_path_steps: u64, pub max_vars: u32, pub max_heap: u64, pub sha_sym: u64, pub sha_conc: u64, pub nodes: u64,
}
pub struct Cfg { pub entry: u32, pub params: BTreeMap<String, u64>, pub threads: usize, pub max_steps: u64, pub deadline: Instant, pub max_viol: usize, pub known: Vec<String>, pub samples: usize, pub grace: Duration, pub qtimeout: u32, pub dump: Option<(String, u64)>, pub max_nodes: usize, pub trace_forks: bool, pub recheck: bool }
pub struct Shared { pub m: &'static Module, pub cfg: Cfg, pub q: Mutex<Queue>, pub cv: Condvar, pub hungry: AtomicUsize, pub agg: Mutex<Agg>, pub stop: AtomicBool, pub kinds: Vec<FK>, pub paths: AtomicU64, pub firstv: Mutex<Option<Instant>>, pub forksites: Mutex<BTreeMap<String, u64>> }

#[derive(Clone, Debug, PartialEq)]
pub enum FK { Defined, Unknown, Alloc, AllocZ, Realloc, Dealloc, Malloc, Calloc, CRealloc, Free, PosixMemalign, Panic, PanicNoLoc, Sha, HashKeys, Memcpy, Memset, Memcmp, Bcmp, Strlen,
    SymBytes, SymAssume, SymCheck, SymChoose, SymConc, SymObs, SymObsB, SymCover, SymReject, SymParam, SymMayPanic, Nop, Trap, Tls, Intr(&'static str), Env }

pub fn classify(f: &Func) -> FK {
    let n = f.name.as_str(); let d = f.dem.as_str();
    if let Some(r) = n.strip_prefix("llvm.") {
        let base = r;
        if base.starts_with("memcpy") || base.starts_with("memmove") { return FK::Memcpy; }
        if base.starts_with("memset") { return FK::Memset; }
        if base.starts_with("lifetime") || base.starts_with("assume") || base.starts_with("experimental.noalias") || base.starts_with("prefetch") || base.starts_with("dbg") || base.starts_with("x86.sse2.pause") || base.starts_with("invariant") { return FK::Nop; }
        if base.starts_with("trap") || base.starts_with("ubsantrap") || base.starts_with("debugtrap") { return FK::Trap; }
        if base.starts_with("threadlocal.address") { return FK::Tls; }
        for k in ["umin", "umax", "smin", "smax", "abs", "ctpop", "ctlz", "cttz", "bswap", "bitreverse", "fshl", "fshr", "uadd.with.overflow", "usub.with.overflow", "umul.with.overflow", "sadd.with.overflow", "ssub.with.overflow", "smul.with.overflow", "uadd.sat", "usub.sat", "sadd.sat", "ssub.sat", "scmp", "ucmp", "is.constant", "expect", "load.relative", "vector.reduce.or", "vector.reduce.and", "vector.reduce.add", "vector.reduce.umax"] {
            if base.starts_with(k) && base[k.len()..].starts_with('.') || base == k { return FK::Intr(k); }
        }
        return FK::Unknown;
    }
    match n {
        "sym_bytes" => return FK::SymBytes, "sym_assume" => return FK::SymAssume, "sym_check" => return FK::SymCheck, "sym_choose" => return FK::SymChoose, "sym_concretize" => return FK::SymConc,
        "sym_observe" => return FK::SymObs, "sym_observe_bytes" => return FK::SymObsB, "sym_cover" => return FK::SymCover, "sym_reject" => return FK::SymReject, "sym_param" => return FK::SymParam, "sym_may_panic" => return FK::SymMayPanic,
        "malloc" => return FK::Malloc, "calloc" => return FK::Calloc, "realloc" => return FK::CRealloc, "free" => return FK::Free, "posix_memalign" => return FK::PosixMemalign,
        "memcpy" | "memmove" => return FK::Memcpy, "memset" => return FK::Memset, "memcmp" => return FK::Memcmp, "bcmp" => return FK::Bcmp, "strlen" => return FK::Strlen, "abort" => return FK::Trap,
        "getenv" => return FK::Env,
        _ => {}
    }
    if n.contains("__rust_no_alloc_shim") { return FK::Nop; }
    if n.ends_with("___rust_alloc") || n == "__rust_alloc" { return FK::Alloc; }
    if n.ends_with("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" { return FK::AllocZ; }
    if n.ends_with("___rust_realloc") || n == "__rust_realloc" { return FK::Realloc; }
    if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" { return FK::Dealloc; }
    if n.contains("sha2") && n.contains("compress256") { return FK::Sha; }
    if n.contains("hashmap_random_keys") { return FK::HashKeys; }
    if d.starts_with("core::panicking::panic_fmt") || d.starts_with("core::panicking::panic_nounwind_fmt") || n.ends_with("core9panicking9panic_fmt") || n.ends_with("9panicking18panic_nounwind_fmt") { return FK::Panic; }
    if d.starts_with("std::panicking::") || d.starts_with("alloc::alloc::handle_alloc_error") || n.contains("rust_panic") || n.contains("handle_alloc_error") || n.contains("__rust_start_panic") || n.starts_with("_Unwind") || n.contains("9panicking14panic_nounwind") || n.contains("5alloc8rust_oom") { return FK::PanicNoLoc; }
    if f.defined { FK::Defined } else { FK::Unknown }
}

pub struct Exec { sh: Arc<Shared>, m: &'static Module, ar: Arena, so: Solver, st: State, local: Vec<State>, gcache: Vec<Option<Rc<Obj>>>, ag: Agg, pool: Vec<Vec<V>>, tick: u64 }

fn empty_page() -> Page { std::array::from_fn(|_| None) }

pub fn initial(m: &'static Module, entry: u32) -> State {
    let body = m.body(entry).expect("entry");
    State { top: Frame { f: entry, body, regs: vec![V0; body.nregs as usize], bb: 0, ip: 0, dst: None, allocs: vec![] }, stack: vec![], heap: vec![], next: 0, gmod: Rc::new(FxMap::default()),
        pc: vec![], eqs: Rc::new(FxMap::default()), emask: 0, iv: Rc::new(Bounds::default()), model: Rc::new(vec![]), nvars: 0, decs: vec![], forced: None, fpos: 0, steps: 0, obs: vec![], covers: vec![], may_panic: false }
}

pub fn run(sh: Arc<Shared>) {
    sh.q.lock().unwrap().jobs.push(Job { decs: Arc::new(vec![]), model: vec![] });
    let mut hs = vec![];
    for _ in 0..sh.cfg.threads {
        let s = sh.clone();
        hs.push(std::thread::Builder::new().stack_size(1 << 30).spawn(move || worker(s)).unwrap());
    }
    for h in hs { if h.join().is_err() { sh.agg.lock().unwrap().errors.insert("engine thread panicked".into(), 1); } }
}

fn worker(sh: Arc<Shared>) {
    let st = initial(sh.m, sh.cfg.entry);
    let mut so = Solver::new(sh.cfg.qtimeout); so.dump = sh.cfg.dump.clone();
    let mut ex = Exec { m: sh.m, ar: Arena::new(), so, st, local: vec![], gcache: vec![None; sh.m.globals.len()], ag: Agg::default(), pool: vec![], tick: 0, sh };
    struct Guard(Arc<Shared>);
    impl Drop for Guard { fn drop(&mut self) { if std::thread::panicking() { self.0.stop.store(true, Relaxed); self.0.q.lock().unwrap().stop = true; self.0.cv.notify_all(); } } }
    let _g = Guard(ex.sh.clone());
    ex.main();
    let mut g = ex.sh.agg.lock().unwrap();
    let a = &mut ex.ag;
    g.done += a.done; g.rejected += a.rejected; g.forks += a.forks; g.steps += a.steps; g.decisions += a.decisions;
    for (k, v) in std::mem::take(&mut a.errors) { *g.errors.entry(k).or_default() += v; }
    for (k, v) in std::mem::take(&mut a.covers) { *g.covers.entry(k).or_default() += v; }
    for (k, v) in std::mem::take(&mut a.checks) { let e = g.checks.entry(k).or_default(); e.0 += v.0; e.1 += v.1; }
    g.samples.append(&mut a.samples);
    g.max_path_steps = g.max_path_steps.max(a.max_path_steps); g.max_vars = g.max_vars.max(a.max_vars); g.max_heap = g.max_heap.max(a.max_heap); g.sha_sym += a.sha_sym; g.sha_conc += a.sha_conc;
    g.nodes += a.nodes + ex.ar.nodes.len() as u64;
    if g.incomplete.is_none() { g.incomplete = a.incomplete.take(); }
    let s = &ex.so.stats; let t = &mut g.solver;
    t.queries += s.queries; t.intervals += s.intervals; t.sat += s.sat; t.unsat += s.unsat; t.unknown += s.unknown; t.cached += s.cached; t.micros += s.micros; t.max_micros = t.max_micros.max(s.max_micros);
}

impl Exec {
    fn main(&mut self) {
        loop {
            if self.sh.stop.load(Relaxed) { break; }
            if let Some(s) = self.local.pop() { self.st = s; self.run_path(); continue; }
            // take a job
            let job = {
                let sh = self.sh.clone();
                let mut q = sh.q.lock().unwrap();
                loop {
                    if q.stop { break None; }
                    if let Some(j) = q.jobs.pop() { q.active += 1; break Some(j); }
                    if q.active == 0 { q.stop = true; self.sh.cv.notify_all(); break None; }
                    self.sh.hungry.fetch_add(1, Relaxed);
                    q = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                    self.sh.hungry.fetch_sub(1, Relaxed);
                    if Instant::now() > self.sh.cfg.deadline { self.timeout(); }
                }
            };
            let Some(job) = job else { break };
            let mut st = initial(self.m, self.sh.cfg.entry);
            st.model = Rc::new(job.model); st.forced = Some(job.decs);
            self.st = st;
            self.run_path();
            while let Some(s) = self.local.pop() { if self.sh.stop.load(Relaxed) { break; } self.st = s; self.run_path(); self.gc(); }
            self.gc();
            let mut q = self.sh.q.lock().unwrap();
            q.active -= 1;
            if q.active == 0 && q.jobs.is_empty() { q.stop = true; }
            self.sh.cv.notify_all();
        }
        let mut q = self.sh.q.lock().unwrap(); q.stop = true; self.sh.cv.notify_all();
    }
    fn gc(&mut self) {
        if self.ar.nodes.len() < self.sh.cfg.max_nodes { return; }
        let sts = std::mem::take(&mut self.local);
        { let mut q = self.sh.q.lock().unwrap(); for s in sts { q.jobs.push(Job { decs: Arc::new(s.decs), model: (*s.model).clone() }); } self.sh.cv.notify_all(); }
        self.ag.nodes += self.ar.nodes.len() as u64;
        self.ar = Arena::new(); self.gcache = vec![None; self.m.globals.len()];
        let stats = self.so.stats.clone(); let d = self.so.dumped;
        self.so = Solver::new(self.sh.cfg.qtimeout); self.so.stats = stats; self.so.dump = self.sh.cfg.dump.clone(); self.so.dumped = d;
        self.st = initial(self.m, self.sh.cfg.entry);
    }
    fn timeout(&mut self) { self.sh.stop.store(true, Relaxed); let mut a = self.sh.agg.lock().unwrap(); if a.incomplete.is_none() { a.incomplete = Some("time limit".into()); } self.sh.q_stop(); }
    fn run_path(&mut self) {
        let s0 = self.st.steps;
        let r = loop { match self.step() { Ok(()) | Err(Stop::Again) => {} Err(e) => break e } };
        self.ag.steps += self.st.steps - s0;
        self.ag.max_path_steps = self.ag.max_path_steps.max(self.st.steps);
        self.ag.max_vars = self.ag.max_vars.max(self.st.nvars); self.ag.max_heap = self.ag.max_heap.max(self.st.next);
        match r {
            Stop::Done => { self.ag.done += 1; self.finish(true); }
            Stop::Reject => { self.ag.rejected += 1; self.finish(false); }
            Stop::Unsup(e) => { let w = self.where_am_i(); *self.ag.errors.entry(format!("unsupported: {} at {}", e, w.join(" < "))).or_default() += 1; self.sh.stop.store(true, Relaxed); self.sh.q_stop(); }
            Stop::Viol(kind, msg) => self.violation(kind, msg),
            Stop::Limit(e) => self.violation("hang".into(), e),
            Stop::Abandon | Stop::Again => {}
        }
        self.sh.paths.fetch_add(1, Relaxed);
        if let Some(v) = Some(std::mem::take(&mut self.st.top.regs)) { self.pool.push(v); }
        if Instant::now() > self.sh.cfg.deadline { self.timeout(); }
        let fv = *self.sh.firstv.lock().unwrap();
        if let Some(t) = fv { if t.elapsed() > self.sh.cfg.grace { self.sh.stop.store(true, Relaxed); let mut a = self.sh.agg.lock().unwrap(); if a.incomplete.is_none() { a.incomplete = Some("stopped after violation".into()); } drop(a); self.sh.q_stop(); } }
    }
    fn input(&self) -> Vec<u8> { let mut v = (*self.st.model).clone(); v.resize(self.st.nvars as usize, 0); v }
    fn finish(&mut self, done: bool) {
        if done { for c in std::mem::take(&mut self.st.covers) { *self.ag.covers.entry(c).or_default() += 1; } }
        let np = self.ag.done + self.ag.rejected;
        let cap = self.sh.cfg.samples / self.sh.cfg.threads.max(1) + 1;
        // reservoir of witnesses: all while there is room, then a deterministic thinning
        let take = if self.ag.samples.len() < cap { true } else { np.wrapping_mul(0x9E3779B97F4A7C15) >> 32 & 0x3f == 0 };
        if take {
            let inp = self.input();
            let mut h = 0xcbf29ce484222325u64;
            let obs = std::mem::take(&mut self.st.obs);
            for (b, n) in obs { let v = self.ar.eval(b, &inp) as u64; for i in 0..n { h = (h ^ (v >> (8 * i) & 0xff)).wrapping_mul(0x100000001b3); } }
            let e = (inp, h, done);
            if self.ag.samples.len() < cap { self.ag.samples.push(e); } else { let i = (np.wrapping_mul(0xD1B54A32D192ED03) >> 33) as usize % cap; self.ag.samples[i] = e; }
        }
    }
    fn where_am_i(&self) -> Vec<String> {
        let mut v = vec![];
        let f = |fr: &Frame| {
            let ins = fr.body.blocks[fr.bb as usize].insts.get(fr.ip as usize).or(fr.body.blocks[fr.bb as usize].insts.last());
            let mut id = ins.map(|x| x.1).unwrap_or(0); let mut out = vec![];
            while id != 0 { if let Some((file, line, func)) = self.m.loc(id) { out.push(format!("{}:{} {}", file, line, func)); } id = self.m.inlined_at(id).unwrap_or(0); if out.len() > 30 { break; } }
            if out.is_empty() { out.push(if self.m.funcs[fr.f as usize].dem.is_empty() { self.m.funcs[fr.f as usize].name.clone() } else { self.m.funcs[fr.f as usize].dem.clone() }); }
            out
        };
        v.extend(f(&self.st.top));
        for fr in self.st.stack.iter().rev() { v.extend(f(fr)); }
        v
    }
    fn violation(&mut self, kind: String, msg: String) {
        let trace = self.where_am_i();
        let key = match kind.as_str() { "panic" | "check" => format!("{}:{}", kind, msg), "hang" => "hang".to_string(), _ => format!("{}:{}:{}", kind, msg, trace.first().cloned().unwrap_or_default()) };
        let input = self.input();
        let mut a = self.sh.agg.lock().unwrap();
        let e = a.viols.entry(key.clone()).or_insert_with(|| Violation { key: key.clone(), kind, msg, input, trace, count: 0 });
        e.count += 1;
        let known = self.sh.cfg.known.iter().any(|k| key.contains(k.as_str()));
        if !known {
            let mut f = self.sh.firstv.lock().unwrap(); if f.is_none() { *f = Some(Instant::now()); }
            if a.viols.len() >= self.sh.cfg.max_viol { if a.incomplete.is_none() { a.incomplete = Some("stopped after violations".into()); } drop(a); self.sh.stop.store(true, Relaxed); self.sh.q_stop(); }
        }
    }

    // ---- decisions -------------------------------------------------------
    fn simp(&mut self, b: BV) -> BV {
        if b.id == 0 || self.st.eqs.is_empty() { return b; }
        let e = self.st.eqs.clone();
        let mut memo = FxMap::default();
        let b = self.ar.subst(b, &e, self.st.emask, &mut memo);
        if b.id == 0 { return b; }
        if self.st.iv.stale() { Rc::make_mut(&mut self.st.iv).settle(&self.ar); }
        let iv = self.st.iv.clone();
        let c0 = b;
        let r = iv.narrow(&mut self.ar, b, &mut FxMap::default(), &mut FxMap::default(), 0);
        if r != b && self.sh.cfg.recheck { let c = self.ar.ne(b, r); if let Res::Sat(_) = self.so.check(&mut self.ar, &self.st.pc, c) { panic!("bounds are wrong") } }
        if r.id == 0 && c0.w == 1 { self.learn(c0, r.c); }
        r
    }
    fn learn(&mut self, b: BV, v: u64) {
        if b.id == 0 || b.w > 64 { return; }
        if self.st.eqs.get(&b.id) == Some(&v) { return; }
        let m = self.ar.vmask(b);
        self.st.emask |= m;
        Rc::make_mut(&mut self.st.eqs).insert(b.id, v);
        let n = *self.ar.n(b);
        Rc::make_mut(&mut self.st.iv).learn(&self.ar, b, v);
        match n.op {
            Op::Eq => {
                if n.b.is_c() { if v == 1 { self.learn(n.a, n.b.c); } else if n.a.w == 1 { self.learn(n.a, 1 - n.b.c); } }
                else if n.a.w == 1 { }
            }
            Op::And if b.w == 1 && v == 1 => { self.learn(n.a, 1); self.learn(n.b, 1); }
            Op::Or if b.w == 1 && v == 0 => { self.learn(n.a, 0); self.learn(n.b, 0); }
            Op::ZExt => self.learn(n.a, v),
            Op::Concat => { self.learn(n.a, v >> n.b.w); self.learn(n.b, v & mask(n.b.w)); }
            _ => {}
        }
    }
    fn constrain(&mut self, c: BV) {
        if c.id == 0 { return; }
        let n = *self.ar.n(c);
        if n.op == Op::And { self.constrain(n.a); self.constrain(n.b); self.learn(c, 1); return; }
        if n.op == Op::Eq && n.b == k(0, 1) { let m = *self.ar.n(n.a); if m.op == Op::Or { let (x, y) = (self.ar.not(m.a), self.ar.not(m.b)); self.constrain(x); self.constrain(y); self.learn(c, 1); return; } }
        self.st.pc.push(c);
        self.learn(c, 1);
    }
    fn query(&mut self, c: BV) -> R<Option<Vec<(u32, u8)>>> {
        self.tick += 1;
        if self.tick % 64 == 0 { if Instant::now() > self.sh.cfg.deadline { self.timeout(); } if self.sh.stop.load(Relaxed) { return Err(Stop::Abandon); } }
        let out = self.st.iv.refutes(&self.ar, c);
        if out && !self.sh.cfg.recheck { self.so.stats.intervals += 1; return Ok(None); }
        match self.so.check(&mut self.ar, &self.st.pc, c) {
            Res::Sat(_) if out => panic!("intervals refute what the solver satisfies"),
            Res::Sat(v) => Ok(Some(v)), Res::Unsat => Ok(None),
            Res::Unknown => { let w = self.where_am_i(); *self.ag.errors.entry(format!("solver gave no answer at {}", w.first().cloned().unwrap_or_default())).or_default() += 1; self.ag.incomplete = Some("solver gave no answer".into()); Ok(None) }
        }
    }
    fn with_model(&self, ch: &[(u32, u8)]) -> Rc<Vec<u8>> {
        let mut m = (*self.st.model).clone();
        for &(i, v) in ch { if m.len() <= i as usize { m.resize(i as usize + 1, 0); } m[i as usize] = v; }
        Rc::new(m)
    }
    fn fork(&mut self, mut s: State) {
        self.ag.forks += 1;
        s.forced = None;
        if self.sh.hungry.load(Relaxed) > 0 {
            let mut q = self.sh.q.lock().unwrap();
            if q.jobs.len() < self.sh.cfg.threads { q.jobs.push(Job { decs: Arc::new(s.decs), model: (*s.model).clone() }); self.sh.cv.notify_one(); return; }
        }
        self.local.push(s);
        if self.sh.cfg.trace_forks { let w = self.where_am_i(); let k = w.iter().take(6).cloned().collect::<Vec<_>>().join(" < "); *self.sh.forksites.lock().unwrap().entry(k).or_default() += 1; }
    }
    fn next_forced(&mut self) -> Option<Dec> {
        let f = self.st.forced.as_ref()?;
        if self.st.fpos < f.len() { let d = f[self.st.fpos]; self.st.fpos += 1; Some(d) } else { self.st.forced = None; None }
    }
    /// Decide a condition; forks when both outcomes are feasible.
    fn branch(&mut self, c0: BV) -> R<bool> {
        let c = self.simp(c0);
        if c.id == 0 { return Ok(c.c == 1); }
        self.ag.decisions += 1;
        let nc = self.ar.not(c);
        if let Some(d) = self.next_forced() {
            let (v, imp) = match d { Dec::Bool(v, imp) => (v, imp), Dec::Fork(v) => (v, false), _ => return Err(Stop::Unsup(format!("replay divergence: {:?}", d))) };
            self.st.decs.push(d);
            let x = if v { c } else { nc };
            if imp { self.learn(x, 1); } else { self.constrain(x); }
            self.learn(c, v as u64); if c0.id != 0 { self.learn(c0, v as u64); }
            if let Dec::Fork(_) = d { return Err(Stop::Again); }
            return Ok(v);
        }
        let m = self.st.model.clone();
        let v = self.ar.eval(c, &m) == 1;
        let (x, y) = if v { (c, nc) } else { (nc, c) };
        match self.query(y)? {
            None => { self.st.decs.push(Dec::Bool(v, true)); self.learn(x, 1); }
            Some(ch) => {
                let mut o = self.st.clone();
                o.model = self.with_model(&ch);
                std::mem::swap(&mut self.st, &mut o);
                self.constrain(y); self.learn(c, !v as u64); if c0.id != 0 { self.learn(c0, !v as u64); }
                self.st.decs.push(Dec::Fork(!v));
                std::mem::swap(&mut self.st, &mut o);
                self.fork(o);
                self.st.decs.push(Dec::Bool(v, false));
                self.constrain(x);
            }
        }
        self.learn(c, v as u64); if c0.id != 0 { self.learn(c0, v as u64); }
        Ok(v)
    }
    /// Pick one of several mutually exclusive alternatives identified by `key`; `cond(key)` is its condition.
    fn concretize(&mut self, b0: BV) -> R<u64> {
        if b0.id == 0 { return Ok(b0.c); }
        if b0.w > 64 { return match self.ar.konst(b0) { Some(_) => Err(Stop::Unsup("wide constant used as a concrete value".into())), None => Err(Stop::Unsup("concretise wide".into())) }; }
        loop {
            let b = self.simp(b0);
            if b.id == 0 { return Ok(b.c); }
            self.ag.decisions += 1;
            if let Some(d) = self.next_forced() {
                self.st.decs.push(d);
                match d {
                    Dec::Take(v, imp) => { let c = self.ar.eq(b, k(v, b.w)); if imp { self.learn(c, 1); } else { self.constrain(c); } self.learn(b, v); self.learn(b0, v); return Ok(v); }
                    Dec::Excl(v) => { let c = self.ar.ne(b, k(v, b.w)); self.constrain(c); return Err(Stop::Again); }
                    _ => return Err(Stop::Unsup("replay divergence (value)".into())),
                }
            }
            let m = self.st.model.clone();
            let v = self.ar.eval(b, &m) as u64;
            let c = self.ar.eq(b, k(v, b.w)); let nc = self.ar.not(c);
            match self.query(nc)? {
                None => { self.st.decs.push(Dec::Take(v, true)); self.learn(c, 1); }
                Some(ch) => {
                    let mut o = self.st.clone();
                    o.model = self.with_model(&ch);
                    std::mem::swap(&mut self.st, &mut o);
                    self.constrain(nc); self.st.decs.push(Dec::Excl(v));
                    std::mem::swap(&mut self.st, &mut o);
                    self.fork(o);
                    self.st.decs.push(Dec::Take(v, false));
                    self.constrain(c);
                }
            }
            self.learn(b, v); self.learn(b0, v);
            return Ok(v);
        }
    }

    // ---- memory ----------------------------------------------------------
    fn alloc(&mut self, size: u64, fill: Option<u8>) -> u64 {
        let i = self.st.next; self.st.next += 1;
        let p = (i / 64) as usize;
        while self.st.heap.len() <= p { self.st.heap.push(Rc::new(empty_page())); }
        let o = Obj { data: vec![fill.unwrap_or(0); size as usize], sym: vec![], ro: false };
        Rc::make_mut(&mut self.st.heap[p])[(i % 64) as usize] = Some(Rc::new(o));
        (HBASE + i) << OSH
    }
    fn free(&mut self, a: u64) -> R<()> {
        let oid = a >> OSH;
        if oid < HBASE || a & ((1 << OSH) - 1) != 0 { return Err(Stop::Viol("memory".into(), "bad free".into())); }
        let i = oid - HBASE;
        let p = (i / 64) as usize;
        if p >= self.st.heap.len() || self.st.heap[p][(i % 64) as usize].is_none() { return Err(Stop::Viol("memory".into(), "double free".into())); }
        Rc::make_mut(&mut self.st.heap[p])[(i % 64) as usize] = None;
        Ok(())
    }
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = self.st.gmod.get(&g) { return o.clone(); }
        if let Some(o) = &self.gcache[g as usize] { return o.clone(); }
        let d = self.m.global_init(g as usize).clone();
        let o = Rc::new(Obj { data: d, sym: vec![], ro: self.m.globals[g as usize].cnst });
        self.gcache[g as usize] = Some(o.clone());
        o
    }
    fn obj(&mut self, a: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let oid = a >> OSH; let off = a & ((1 << OSH) - 1);
        let o = if oid >= HBASE {
            let i = oid - HBASE; let p = (i / 64) as usize;
            match self.st.heap.get(p).and_then(|pg| pg[(i % 64) as usize].clone()) { Some(o) => o, None => return Err(Stop::Viol("memory".into(), "use after free or wild pointer".into())) }
        } else if oid >= FBASE || oid == 0 || oid as usize > self.m.globals.len() { return Err(Stop::Viol("memory".into(), "wild or null pointer access".to_string())); }
        else { let o = self.gobj((oid - GBASE) as u32); if self.m.globals[(oid - GBASE) as usize].external { return Err(Stop::Unsup(format!("external global {}", self.m.globals[(oid - GBASE) as usize].name))); } o };
        if off + n > o.data.len() as u64 { return Err(Stop::Viol("memory".into(), "out of bounds access".into())); }
        Ok((o, off as usize))
    }
    fn with_obj<T>(&mut self, a: u64, n: u64, f: impl FnOnce(&mut Obj, usize, &mut Arena) -> T) -> R<T> {
        let oid = a >> OSH; let off = a & ((1 << OSH) - 1);
        if oid >= HBASE {
            let i = oid - HBASE; let p = (i / 64) as usize;
            if p < self.st.heap.len() {
                let pg = Rc::make_mut(&mut self.st.heap[p]);
                if let Some(o) = &mut pg[(i % 64) as usize] {
                    if off + n > o.data.len() as u64 { return Err(Stop::Viol("memory".into(), "out of bounds write".into())); }
                    return Ok(f(Rc::make_mut(o), off as usize, &mut self.ar));
                }
            }
            return Err(Stop::Viol("memory".into(), "write after free or wild pointer".into()));
        }
        let (o, off) = self.obj(a, n)?;
        if o.ro { return Err(Stop::Viol("memory".into(), "write to constant".into())); }
        let g = (oid - GBASE) as u32;
        let gm = Rc::make_mut(&mut self.st.gmod);
        let e = gm.entry(g).or_insert(o);
        Ok(f(Rc::make_mut(e), off, &mut self.ar))
    }
    fn byte(o: &Obj, i: usize) -> BV { if !o.sym.is_empty() && o.sym[i] != 0 { BV { c: 0, id: o.sym[i], w: 8 } } else { BV { c: o.data[i] as u64, id: 0, w: 8 } } }
    fn read_bits(ar: &mut Arena, o: &Obj, off: usize, w: u32) -> BV {
        let n = ((w + 7) / 8) as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|&s| s == 0) {
            if n <= 8 { let mut v = 0u64; for i in 0..n { v |= (o.data[off + i] as u64) << (8 * i); } return k(v, w); }
            let mut v = 0u128; for i in 0..n { v |= (o.data[off + i] as u128) << (8 * i); }
            return ar.kconst(v & mask128(w), w);
        }
        let mut r = Self::byte(o, off + n - 1);
        for i in (0..n - 1).rev() { let b = Self::byte(o, off + i); r = ar.concat(r, b); }
        if r.w > w { ar.extract(r, 0, w) } else { r }
    }
    fn write_bits(ar: &mut Arena, o: &mut Obj, off: usize, v: BV) {
        let n = ((v.w + 7) / 8) as usize;
        if v.id == 0 {
            for i in 0..n { o.data[off + i] = (v.c >> (8 * i)) as u8; }
            if !o.sym.is_empty() { for s in &mut o.sym[off..off + n] { *s = 0; } }
            return;
        }
        if let Some(c) = ar.konst(v) {
            for i in 0..n { o.data[off + i] = (c >> (8 * i)) as u8; }
            if !o.sym.is_empty() { for s in &mut o.sym[off..off + n] { *s = 0; } }
            return;
        }
        let v = if v.w % 8 != 0 { ar.zext(v, n as u32 * 8) } else { v };
        for i in 0..n {
            let b = ar.extract(v, 8 * i as u32, 8);
            Self::put_byte(o, off + i, b);
        }
    }
    fn put_byte(o: &mut Obj, i: usize, b: BV) {
        if b.id == 0 { o.data[i] = b.c as u8; if !o.sym.is_empty() { o.sym[i] = 0; } }
        else { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.sym[i] = b.id; }
    }
    fn load_ty(&mut self, a: u64, t: &Ty) -> R<V> {
        if t.scalar() {
            let w = t.bits();
            let n = ((w + 7) / 8) as u64;
            let (o, off) = self.obj(a, n)?;
            return Ok(V::B(Self::read_bits(&mut self.ar, &o, off, w)));
        }
        if let Ty::Vec(n, e) = t { if **e == Ty::Int(1) { let v = self.load_ty(a, &Ty::Int(*n as u32))?; return Ok(self.bitcast(v, &Ty::Int(*n as u32), t)); } }
        let mut v = vec![];
        for i in 0..t.count() { v.push(self.load_ty(a + t.field_off(i), t.elem(i))?); }
        Ok(V::A(Rc::new(v)))
    }
    fn store_ty(&mut self, a: u64, t: &Ty, v: &V) -> R<()> {
        match v {
            V::B(b) => { let n = ((b.w + 7) / 8) as u64; let b = *b; self.with_obj(a, n, |o, off, ar| Self::write_bits(ar, o, off, b)) }
            V::A(vs) => {
                if let Ty::Vec(n, e) = t { if **e == Ty::Int(1) { let it = Ty::Int(*n as u32); let x = self.bitcast(v.clone(), t, &it); return self.store_ty(a, &it, &x); } }
                for (i, x) in vs.iter().enumerate() { self.store_ty(a + t.field_off(i), t.elem(i), x)?; }
                Ok(())
            }
        }
    }
    fn read_bytes(&mut self, a: u64, n: u64) -> R<Vec<BV>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(a, n)?;
        Ok((0..n as usize).map(|i| Self::byte(&o, off + i)).collect())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let (o, so) = self.obj(s, n)?;
        let n = n as usize;
        self.with_obj(d, n as u64, |t, off, _| {
            t.data[off..off + n].copy_from_slice(&o.data[so..so + n]);
            if !o.sym.is_empty() { if t.sym.is_empty() { if o.sym[so..so + n].iter().any(|&x| x != 0) { t.sym = vec![0; t.data.len()]; } } if !t.sym.is_empty() { t.sym[off..off + n].copy_from_slice(&o.sym[so..so + n]); } }
            else if !t.sym.is_empty() { for x in &mut t.sym[off..off + n] { *x = 0; } }
        })
    }
    /// A load through a symbolic address whose possible values all lie in one object becomes a selection over them.
    fn sym_load(&mut self, p: BV, t: &Ty) -> R<Option<V>> {
        if !t.scalar() { return Ok(None); }
        let (lo, hi) = self.ar.range(p);
        if hi - lo > 4096 || lo >> OSH != hi >> OSH || lo >> OSH == 0 { return Ok(None); }
        let w = t.bits(); let n = ((w + 7) / 8) as u64;
        let d = self.ar.sub(p, k(lo, 64));
        let (_, dh) = self.ar.range(d);
        // stride from known trailing zeros of the offset
        let stride = if d.id != 0 { let nd = self.ar.n(d); 1u64 << nd.kz.trailing_ones().min(12) } else { 1 };
        let cnt = dh / stride + 1;
        if cnt > 256 { return Ok(None); }
        let (o, off) = match self.obj(lo, dh + n) { Ok(x) => x, Err(_) => return Ok(None) };
        let mut r = Self::read_bits(&mut self.ar, &o, off, w);
        for i in 1..cnt { let v = Self::read_bits(&mut self.ar, &o, off + (i * stride) as usize, w); let c = self.ar.eq(d, k(i * stride, 64)); r = self.ar.ite(c, v, r); }
        Ok(Some(V::B(r)))
    }

    // ---- values ----------------------------------------------------------
    fn cv(ar: &mut Arena, c: &C) -> V { match c { C::I(v, w) => V::B(ar.kconst(*v, *w)), C::Agg(v) => V::A(Rc::new(v.iter().map(|x| Self::cv(ar, x)).collect())) } }
    #[inline] fn op(&mut self, o: &O) -> V { match o { O::R(r) => self.st.top.regs[*r as usize].clone(), O::C(c, w) => V::B(BV { c: *c, id: 0, w: *w }), O::K(c) => Self::cv(&mut self.ar, c) } }
    #[inline] fn opb(&mut self, o: &O) -> R<BV> { match o { O::R(r) => match &self.st.top.regs[*r as usize] { V::B(b) => Ok(*b), _ => Err(Stop::Unsup("aggregate where scalar expected".into())) }, O::C(c, w) => Ok(BV { c: *c, id: 0, w: *w }), O::K(_) => match self.op(o) { V::B(b) => Ok(b), _ => Err(Stop::Unsup("aggregate".into())) } } }
    fn opc(&mut self, o: &O) -> R<u64> { let b = self.opb(o)?; self.concretize(b) }
    fn set(&mut self, d: u32, v: V) { self.st.top.regs[d as usize] = v; }
    fn bitcast(&mut self, v: V, from: &Ty, to: &Ty) -> V {
        if from == to { return v; }
        // flatten to one wide scalar
        let flat = match &v { V::B(b) => *b, V::A(vs) => { let mut r: Option<BV> = None; for x in vs.iter() { if let V::B(b) = x { r = Some(match r { None => *b, Some(l) => self.ar.concat(*b, l) }); } } r.unwrap() } };
        if to.scalar() { return V::B(flat); }
        let n = to.count(); let ew = to.elem(0).bits();
        V::A(Rc::new((0..n).map(|i| V::B(self.ar.extract(flat, i as u32 * ew, ew))).collect()))
    }
    fn bin(&mut self, b: Bin, x: BV, y: BV) -> R<BV> {
        if x.id == 0 && y.id == 0 {
            let w = x.w; let (a, c) = (x.c, y.c);
            let r = match b {
                Bin::Add => a.wrapping_add(c), Bin::Sub => a.wrapping_sub(c), Bin::Mul => a.wrapping_mul(c), Bin::And => a & c, Bin::Or => a | c, Bin::Xor => a ^ c,
                Bin::Shl => if c >= w as u64 { 0 } else { a << c }, Bin::LShr => if c >= w as u64 { 0 } else { a >> c },
                Bin::UDiv if c != 0 => a / c, Bin::URem if c != 0 => a % c,
                _ => return self.bin_sym(b, x, y),
            };
            return Ok(k(r, w));
        }
        self.bin_sym(b, x, y)
    }
    fn bin_sym(&mut self, b: Bin, x: BV, y: BV) -> R<BV> {
        let ar = &mut self.ar;
        Ok(match b {
            Bin::Add => ar.add(x, y), Bin::Sub => ar.sub(x, y), Bin::Mul => ar.mul(x, y), Bin::And => ar.and(x, y), Bin::Or => ar.or(x, y), Bin::Xor => ar.xor(x, y),
            Bin::Shl => ar.shl(x, y), Bin::LShr => ar.lshr(x, y), Bin::AShr => ar.ashr(x, y),
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                let z = self.ar.kconst(0, y.w); let e = self.ar.eq(y, z);
                if self.branch(e)? { return Err(Stop::Viol("memory".into(), "division by zero".into())); }
                match b { Bin::UDiv => self.ar.udiv(x, y), Bin::URem => self.ar.urem(x, y), Bin::SDiv => self.ar.sdiv(x, y), _ => self.ar.srem(x, y) }
            }
        })
    }
    fn cmp(&mut self, p: Pred, x: BV, y: BV) -> BV {
        let ar = &mut self.ar;
        match p { Pred::Eq => ar.eq(x, y), Pred::Ne => ar.ne(x, y), Pred::Ult => ar.ult(x, y), Pred::Ule => ar.ule(x, y), Pred::Ugt => ar.ult(y, x), Pred::Uge => ar.ule(y, x),
            Pred::Slt => ar.slt(x, y), Pred::Sgt => ar.slt(y, x), Pred::Sle => { let t = ar.slt(y, x); ar.not(t) } Pred::Sge => { let t = ar.slt(x, y); ar.not(t) } }
    }
    fn lanes2(&mut self, x: V, y: V, f: &mut dyn FnMut(&mut Self, BV, BV) -> R<BV>) -> R<V> {
        match (x, y) {
            (V::B(a), V::B(b)) => Ok(V::B(f(self, a, b)?)),
            (V::A(a), V::A(b)) => { let mut v = vec![]; for (p, q) in a.iter().zip(b.iter()) { v.push(self.lanes2(p.clone(), q.clone(), f)?); } Ok(V::A(Rc::new(v))) }
            _ => Err(Stop::Unsup("lane mismatch".into())),
        }
    }
    fn select(&mut self, c: BV, x: V, y: V) -> R<V> {
        if c.id == 0 { return Ok(if c.c == 1 { x } else { y }); }
        match (x, y) {
            (V::B(a), V::B(b)) => Ok(V::B(self.ar.ite(c, a, b))),
            (V::A(a), V::A(b)) => { let mut v = vec![]; for (p, q) in a.iter().zip(b.iter()) { v.push(self.select(c, p.clone(), q.clone())?); } Ok(V::A(Rc::new(v))) }
            _ => Err(Stop::Unsup("select mismatch".into())),
        }
    }
    fn jump(&mut self, to: u32) {
        let from = self.st.top.bb;
        let body = self.st.top.body;
        let blk = &body.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (_, inc) in &blk.phis {
                let o = inc.iter().find(|(b, _)| *b == from).map(|(_, o)| o).expect("phi edge");
                let v = self.op(o); vals.push(v);
            }
            for ((d, _), v) in blk.phis.iter().zip(vals) { self.st.top.regs[*d as usize] = v; }
        }
        blk.seen.store(true, Relaxed);
        self.st.top.bb = to; self.st.top.ip = 0;
    }
    fn ret(&mut self, v: Option<V>) -> R<()> {
        for a in std::mem::take(&mut self.st.top.allocs) { self.free(a)?; }
        let Some(fr) = self.st.stack.pop() else { return Err(Stop::Done) };
        let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
        let old = std::mem::replace(&mut self.st.top, fr);
        let dst = old.dst;
        if self.pool.len() < 64 { self.pool.push(old.regs); }
        if let (Some(d), Some(v)) = (dst, v) { self.set(d, v); }
        Ok(())
    }
    fn step(&mut self) -> R<()> {
        let body = self.st.top.body;
        let blk = &body.blocks[self.st.top.bb as usize];
        let (ins, _) = &blk.insts[self.st.top.ip as usize];
        self.st.steps += 1;
        if self.st.steps & 0xfff == 0 {
            if self.st.steps > self.sh.cfg.max_steps { return Err(Stop::Limit("step limit on one path".into())); }
            if self.sh.stop.load(Relaxed) { return Err(Stop::Abandon); }
            if self.st.steps & 0xfffff == 0 && Instant::now() > self.sh.cfg.deadline { self.timeout(); return Err(Stop::Abandon); }
        }
        match ins {
            I::Bin(b, d, x, y) => {
                let (vx, vy) = (self.op(x), self.op(y));
                let r = match (&vx, &vy) { (V::B(a), V::B(c)) => V::B(self.bin(*b, *a, *c)?), _ => { let b = *b; self.lanes2(vx, vy, &mut |s, p, q| s.bin(b, p, q))? } };
                self.set(*d, r);
            }
            I::Icmp(p, d, x, y) => {
                let (vx, vy) = (self.op(x), self.op(y));
                let p = *p;
                let r = match (&vx, &vy) { (V::B(a), V::B(c)) => V::B(self.cmp(p, *a, *c)), _ => self.lanes2(vx, vy, &mut |s, a, c| Ok(s.cmp(p, a, c)))? };
                self.set(*d, r);
            }
            I::Cast(c, d, x, ft, tt) => {
                let v = self.op(x);
                let r = match (c, v) {
                    (Cast::Bit, v) => self.bitcast(v, ft, tt),
                    (c, V::B(b)) => { let w = tt.bits(); V::B(match c { Cast::Trunc => self.ar.trunc(b, w), Cast::ZExt => self.ar.zext(b, w), _ => self.ar.sext(b, w) }) }
                    (c, V::A(vs)) => { let w = tt.elem(0).bits(); let mut o = vec![]; for x in vs.iter() { if let V::B(b) = x { o.push(V::B(match c { Cast::Trunc => self.ar.trunc(*b, w), Cast::ZExt => self.ar.zext(*b, w), _ => self.ar.sext(*b, w) })); } } V::A(Rc::new(o)) }
                };
                self.set(*d, r);
            }
            I::Gep(d, base, off, idx) => {
                let mut a = self.opb(base)?;
                for (o, sc) in idx {
                    let i = self.opb(o)?;
                    let i = if i.w < 64 { self.ar.sext(i, 64) } else { i };
                    let t = if i.id == 0 { k(i.c.wrapping_mul(*sc), 64) } else { self.ar.mul(i, k(*sc, 64)) };
                    a = self.ar.add(a, t);
                }
                if *off != 0 { a = if a.id == 0 { k(a.c.wrapping_add(*off as u64), 64) } else { self.ar.add(a, k(*off as u64, 64)) }; }
                self.set(*d, V::B(a));
            }
            I::Load(d, p, t) => {
                let pb = self.opb(p)?;
                let v = if pb.id == 0 { self.load_ty(pb.c, t)? } else {
                    let pb = self.simp(pb);
                    if pb.id == 0 { self.load_ty(pb.c, t)? } else if let Some(v) = self.sym_load(pb, t)? { v } else { let a = self.concretize(pb)?; self.load_ty(a, t)? }
                };
                self.set(*d, v);
            }
            I::Store(v, t, p) => { let a = self.opc(p)?; let v = self.op(v); self.store_ty(a, t, &v)?; }
            I::Alloca(d, sz) => { let a = self.alloc(*sz, None); self.st.top.allocs.push(a); self.set(*d, V::B(k(a, 64))); }
            I::Select(d, c, x, y) => {
                let cv = self.op(c);
                match cv {
                    V::B(c) => { let c = if c.id != 0 { self.simp(c) } else { c }; let (x, y) = (self.op(x), self.op(y)); let r = self.select(c, x, y)?; self.set(*d, r); }
                    V::A(cs) => { let (x, y) = (self.op(x), self.op(y)); let (V::A(x), V::A(y)) = (x, y) else { return Err(Stop::Unsup("select".into())) };
                        let mut v = vec![]; for i in 0..cs.len() { let V::B(c) = cs[i] else { return Err(Stop::Unsup("select".into())) }; v.push(self.select(c, x[i].clone(), y[i].clone())?); } self.set(*d, V::A(Rc::new(v))); }
                }
            }
            I::Extract(d, a, ix) => { let mut v = self.op(a); for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Unsup("extractvalue".into())) }; } self.set(*d, v); }
            I::Insert(d, a, x, ix, _) => {
                let mut v = self.op(a); let x = self.op(x);
                fn ins(v: &mut V, x: V, ix: &[u32]) { if ix.is_empty() { *v = x; return; } if let V::A(r) = v { ins(&mut Rc::make_mut(r)[ix[0] as usize], x, &ix[1..]); } }
                ins(&mut v, x, ix); self.set(*d, v);
            }
            I::Shuffle(d, a, b, m) => {
                let (V::A(x), V::A(y)) = (self.op(a), self.op(b)) else { return Err(Stop::Unsup("shuffle".into())) };
                let n = x.len() as i64;
                let v = m.iter().map(|&i| if i < n { x[i as usize].clone() } else { y[(i - n) as usize].clone() }).collect();
                self.set(*d, V::A(Rc::new(v)));
            }
            I::InsElt(d, a, v, i) => { let i = self.opc(i)?; let v = self.op(v); let V::A(mut x) = self.op(a) else { return Err(Stop::Unsup("insertelement".into())) }; Rc::make_mut(&mut x)[i as usize] = v; self.set(*d, V::A(x)); }
            I::ExtElt(d, a, i) => { let i = self.opc(i)?; let V::A(x) = self.op(a) else { return Err(Stop::Unsup("extractelement".into())) }; let v = x[i as usize].clone(); self.set(*d, v); }
            I::Rmw(o, d, p, v, t) => {
                let a = self.opc(p)?; let v = self.opb(v)?;
                let V::B(old) = self.load_ty(a, t)? else { return Err(Stop::Unsup("rmw".into())) };
                let n = match o.as_str() { "xchg" => v, "add" => self.ar.add(old, v), "sub" => self.ar.sub(old, v), "and" => self.ar.and(old, v), "or" => self.ar.or(old, v), "xor" => self.ar.xor(old, v), "umax" => self.ar.umax(old, v), "umin" => self.ar.umin(old, v), o => return Err(Stop::Unsup(format!("atomicrmw {}", o))) };
                self.store_ty(a, t, &V::B(n))?; self.set(*d, V::B(old));
            }
            I::CmpXchg(d, p, c, n, t) => {
                let a = self.opc(p)?; let c = self.opb(c)?; let n = self.opb(n)?;
                let V::B(old) = self.load_ty(a, t)? else { return Err(Stop::Unsup("cmpxchg".into())) };
                let e = self.ar.eq(old, c);
                let ok = self.branch(e)?;
                if ok { self.store_ty(a, t, &V::B(n))?; }
                self.set(*d, V::A(Rc::new(vec![V::B(old), V::B(k(ok as u64, 1))])));
            }
            I::Freeze(d, x) => { let v = self.op(x); self.set(*d, v); }
            I::Nop => {}
            I::Pad(_) | I::Resume => return Err(Stop::Unsup("unwinding".into())),
            I::Unsup(s) => return Err(Stop::Unsup(s.clone())),
            I::Br(t) => { self.jump(*t); return Ok(()); }
            I::CBr(c, t, f) => { let c = self.opb(c)?; let v = if c.id == 0 { c.c == 1 } else { self.branch(c)? }; self.jump(if v { *t } else { *f }); return Ok(()); }
            I::Switch(v, def, cs) => {
                let b = self.opb(v)?;
                let b = if b.id == 0 { b } else { self.simp(b) };
                if b.id == 0 { let t = cs.iter().find(|(c, _)| *c == b.c).map(|x| x.1).unwrap_or(*def); self.jump(t); return Ok(()); }
                // group the cases by target
                let mut targets: Vec<(u32, BV)> = vec![];
                let mut any = k(0, 1);
                for (c, t) in cs {
                    let e = self.ar.eq(b, k(*c, b.w));
                    any = self.ar.or(any, e);
                    match targets.iter_mut().find(|x| x.0 == *t) { Some(x) => x.1 = self.ar.or(x.1, e), None => targets.push((*t, e)) }
                }
                let dc = self.ar.not(any);
                match targets.iter_mut().find(|x| x.0 == *def) { Some(x) => x.1 = self.ar.or(x.1, dc), None => targets.push((*def, dc)) }
                let n = targets.len();
                for i in 0..n { let (t, c) = targets[i]; if i == n - 1 || self.branch(c)? { self.jump(t); return Ok(()); } }
                unreachable!()
            }
            I::Ret(v) => { let v = match v { Some(o) => Some(self.op(o)), None => None }; self.ret(v)?; self.st.top.ip += 1; return Ok(()); }
            I::Unreachable => return Err(Stop::Viol("memory".into(), "reached unreachable".into())),
            I::Call { d, ty, f, args } => {
                let fi = match f {
                    Callee::Fn(i) => *i,
                    Callee::Ptr(o) => { let a = self.opc(o)?; let oid = a >> OSH; if oid < FBASE || oid >= FBASE + self.m.funcs.len() as u64 { return Err(Stop::Viol("memory".into(), "call through bad pointer".into())); } (oid - FBASE) as u32 }
                    Callee::Asm(t) => {
                        // cpuid and friends: report no features
                        let v = self.zero(ty); if !t.contains("cpuid") && !t.is_empty() && !t.starts_with("\"\"") { return Err(Stop::Unsup(format!("asm {}", t))); }
                        if let Some(d) = d { self.set(*d, v); } self.st.top.ip += 1; return Ok(());
                    }
                };
                if self.sh.kinds[fi as usize] == FK::Defined {
                    let body = match self.m.body(fi) { Ok(b) => b, Err(e) => return Err(Stop::Unsup(e.clone())) };
                    let mut regs = self.pool.pop().unwrap_or_default();
                    regs.clear();
                    for a in args.iter() { let v = self.op(a); regs.push(v); }
                    regs.resize((body.nregs as usize).max(args.len()), V0);
                    if self.st.stack.len() > 4000 { return Err(Stop::Limit("recursion depth".into())); }
                    let fr = Frame { f: fi, body, regs, bb: 0, ip: 0, dst: *d, allocs: vec![] };
                    body.blocks[0].seen.store(true, Relaxed);
                    let old = std::mem::replace(&mut self.st.top, fr);
                    self.st.stack.push(Rc::new(old));
                    return Ok(());
                }
                let mut av = Vec::with_capacity(args.len());
                for a in args.iter() { av.push(self.op(a)); }
                let r = self.builtin(fi, ty, av)?;
                if let (Some(d), Some(v)) = (d, r) { self.set(*d, v); }
            }
        }
        self.st.top.ip += 1;
        Ok(())
    }
    fn zero(&mut self, t: &Ty) -> V { if t.scalar() { V::B(self.ar.kconst(0, t.bits())) } else if matches!(t, Ty::Void | Ty::Other) { V0 } else { V::A(Rc::new((0..t.count()).map(|i| self.zero(t.elem(i))).collect())) } }
    fn b(v: &V) -> R<BV> { match v { V::B(b) => Ok(*b), _ => Err(Stop::Unsup("aggregate argument".into())) } }
    fn str_at(&mut self, p: u64, n: u64) -> String { match self.read_bytes(p, n) { Ok(b) => b.iter().map(|x| if x.is_c() { x.c as u8 as char } else { '?' }).collect(), Err(_) => "?".into() } }
    fn location(&mut self, p: u64) -> Option<String> {
        let V::B(a) = self.load_ty(p, &Ty::Ptr).ok()? else { return None }; let V::B(n) = self.load_ty(p + 8, &Ty::Int(64)).ok()? else { return None };
        let V::B(l) = self.load_ty(p + 16, &Ty::Int(32)).ok()? else { return None }; let V::B(c) = self.load_ty(p + 20, &Ty::Int(32)).ok()? else { return None };
        if n.c > 1000 || !a.is_c() { return None; }
        let f = self.str_at(a.c, n.c);
        Some(format!("{}:{}:{}", f, l.c, c.c))
    }
    fn builtin(&mut self, fi: u32, ty: &Ty, a: Vec<V>) -> R<Option<V>> {
        let kind = self.sh.kinds[fi as usize].clone();
        let ptr = |x: u64| Some(V::B(k(x, 64)));
        macro_rules! bv { ($i:expr) => { Self::b(&a[$i])? } }
        macro_rules! con { ($i:expr) => {{ let t = Self::b(&a[$i])?; self.concretize(t)? }} }
        // no allocation larger than this succeeds, nor does it when replayed natively
        const BIG: u64 = 256 << 20;
        macro_rules! size { ($i:expr) => {{
            let t = Self::b(&a[$i])?;
            if t.id != 0 && t.w == 64 { let c = self.ar.ult(k(BIG, 64), t); if self.branch(c)? { return Ok(ptr(0)); } }
            let n = self.concretize(t)?;
            if n > BIG { return Ok(ptr(0)); }
            n
        }} }
        Ok(match kind {
            FK::Nop => None,
            FK::Alloc | FK::Malloc => { let n = size!(0); let p = self.alloc(n, None); ptr(p) }
            FK::AllocZ => { let n = size!(0); let p = self.alloc(n, Some(0)); ptr(p) }
            FK::Calloc => { let n = con!(0).wrapping_mul(con!(1)); if n > BIG { ptr(0) } else { let p = self.alloc(n, Some(0)); ptr(p) } }
            FK::Realloc | FK::CRealloc => {
                let p = con!(0); let n = if kind == FK::Realloc { size!(3) } else { size!(1) };
                let q = self.alloc(n, None);
                if p != 0 { let (o, off) = self.obj(p, 0)?; if off != 0 { return Err(Stop::Viol("memory".into(), "bad realloc".into())); } let m = (o.data.len() as u64).min(n); drop(o); self.copy(q, p, m)?; self.free(p)?; }
                ptr(q)
            }
            FK::Dealloc | FK::Free => { let p = con!(0); if p != 0 { self.free(p)?; } None }
            FK::PosixMemalign => { let p = con!(0); let n = con!(2); let q = self.alloc(n, None); self.store_ty(p, &Ty::Ptr, &V::B(k(q, 64)))?; Some(V::B(k(0, 32))) }
            FK::Memcpy => { let n = con!(2); let d = con!(0); let s = con!(1); self.copy(d, s, n)?; ptr(d) }
            FK::Memset => { let n = con!(2); let d = con!(0); let v = bv!(1); let v = self.ar.trunc(v, 8); if n > 0 { self.with_obj(d, n, |o, off, _| { for i in 0..n as usize { Self::put_byte(o, off + i, v); } })?; } ptr(d) }
            FK::Memcmp | FK::Bcmp => {
                let n = con!(2); let p = con!(0); let q = con!(1);
                let (x, y) = (self.read_bytes(p, n)?, self.read_bytes(q, n)?);
                let r = if kind == FK::Bcmp {
                    let mut e = k(1, 1);
                    for i in 0..n as usize { let t = self.ar.eq(x[i], y[i]); e = self.ar.and(e, t); if e == k(0, 1) { break; } }
                    self.ar.ite(e, k(0, 32), k(1, 32))
                } else {
                    let mut r = k(0, 32);
                    for i in (0..n as usize).rev() { let e = self.ar.eq(x[i], y[i]); if e == k(1, 1) { continue; } let l = self.ar.ult(x[i], y[i]); let d = self.ar.ite(l, k(!0, 32), k(1, 32)); r = self.ar.ite(e, r, d); }
                    r
                };
                Some(V::B(r))
            }
            FK::Strlen => { let p = con!(0); let mut n = 0; loop { let b = self.read_bytes(p + n, 1)?[0]; let z = self.ar.eq(b, k(0, 8)); if self.branch(z)? { break; } n += 1; } Some(V::B(k(n, 64))) }
            FK::Tls => Some(a[0].clone()),
            FK::Env => ptr(0),
            // the harness asked for something the library may refuse
            FK::Trap | FK::Panic | FK::PanicNoLoc if self.st.may_panic => return Err(Stop::Done),
            FK::Trap => return Err(Stop::Viol("panic".into(), "abort".into())),
            FK::Panic => {
                let mut loc = None;
                if let Some(V::B(p)) = a.last() { if p.is_c() { loc = self.location(p.c); } }
                let w = self.where_am_i();
                return Err(Stop::Viol("panic".into(), loc.unwrap_or_else(|| w.first().cloned().unwrap_or_default())));
            }
            FK::PanicNoLoc => { let n = self.m.funcs[fi as usize].dem.clone(); let w = self.where_am_i(); return Err(Stop::Viol("panic".into(), format!("{} at {}", n, w.first().cloned().unwrap_or_default()))); }
            FK::HashKeys => { let v = vec![V::B(k(0x0706050403020100, 64)), V::B(k(0x0f0e0d0c0b0a0908, 64))]; Some(V::A(Rc::new(v))) }
            FK::Sha => {
                let s = con!(0); let p = con!(1); let n = con!(2);
                for i in 0..n {
                    let st = self.read_bytes(s, 32)?; let blk = self.read_bytes(p + 64 * i, 64)?;
                    let conc = |v: &Vec<BV>| v.iter().all(|b| b.is_c());
                    if !conc(&st) { return Err(Stop::Unsup("symbolic hash state".into())); }
                    let mut w = [0u32; 8];
                    for j in 0..8 { w[j] = (0..4).map(|t| (st[4 * j + t].c as u32) << (8 * t)).sum(); }
                    if conc(&blk) { self.ag.sha_conc += 1; let bs: Vec<u8> = blk.iter().map(|b| b.c as u8).collect(); crate::sha::compress(&mut w, &bs); }
                    else {
                        // one fixed token per (chaining value, symbolic block)
                        self.ag.sha_sym += 1;
                        let mut h = 0x6a09e667f3bcc908bb67ae8584caa73bu128; let mut g = 0x3c6ef372fe94f82ba54ff53a5f1d36f1u128;
                        for x in w { h = (h ^ x as u128).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835); h ^= h >> 61; g = (g ^ h).wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9); g ^= g >> 59; }
                        for b in &blk { h = (h ^ self.ar.hash(*b)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835); h ^= h >> 61; g = (g ^ h).wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9); g ^= g >> 59; }
                        for j in 0..4 { w[j] = (h >> (32 * j)) as u32; w[j + 4] = (g >> (32 * j)) as u32; }
                    }
                    self.with_obj(s, 32, |o, off, _| for j in 0..8 { for t in 0..4 { Self::put_byte(o, off + 4 * j + t, k((w[j] >> (8 * t)) as u64, 8)); } })?;
                }
                None
            }
            FK::SymBytes => {
                let p = con!(0); let n = con!(1);
                let v0 = self.st.nvars; self.st.nvars += n as u32;
                let vars: Vec<BV> = (0..n as u32).map(|i| self.ar.var(v0 + i)).collect();
                if n > 0 { self.with_obj(p, n, |o, off, _| for (i, b) in vars.iter().enumerate() { Self::put_byte(o, off + i, *b); })?; }
                None
            }
            FK::SymChoose => {
                let n = con!(0);
                let v = self.ar.var(self.st.nvars); self.st.nvars += 1;
                if n == 0 || n > 256 { return Err(Stop::Unsup("sym_choose bound".into())); }
                if n < 256 { let c = self.ar.ult(v, k(n, 8)); if c.id == 0 { } else { let m = self.st.model.clone(); if self.ar.eval(c, &m) != 1 { let i = self.st.nvars - 1; let mut mm = (*m).clone(); mm.resize(i as usize + 1, 0); mm[i as usize] = 0; self.st.model = Rc::new(mm); } self.constrain(c); } }
                Some(V::B(self.ar.zext(v, 64)))
            }
            FK::SymConc => { let v = con!(0); Some(V::B(k(v, 64))) }
            FK::SymAssume => {
                let c0 = bv!(0); let c = self.simp(c0);
                if c.id == 0 { if c.c == 0 { return Err(Stop::Reject); } return Ok(None); }
                let m = self.st.model.clone();
                if self.ar.eval(c, &m) != 1 { match self.query(c)? { None => return Err(Stop::Reject), Some(ch) => self.st.model = self.with_model(&ch) } }
                self.constrain(c);
                self.learn(c0, 1);
                None
            }
            FK::SymCheck => {
                let c = bv!(0); let id = con!(1) as u32;
                let s = self.simp(c);
                let e = self.ag.checks.entry(id).or_default();
                if s.is_c() { e.0 += 1; } else { e.1 += 1; }
                if !self.branch(s)? { return Err(Stop::Viol("check".into(), format!("{}", id))); }
                None
            }
            FK::SymObs => { let v = bv!(0); self.st.obs.push((v, 8)); None }
            FK::SymObsB => { let p = con!(0); let n = con!(1); self.st.obs.push((k(n, 64), 8)); for b in self.read_bytes(p, n)? { self.st.obs.push((b, 1)); } None }
            FK::SymMayPanic => { self.st.may_panic = con!(0) & 1 == 1; None }
            FK::SymCover => { let v = con!(0) as u32; if !self.st.covers.contains(&v) { self.st.covers.push(v); } None }
            FK::SymReject => return Err(Stop::Reject),
            FK::SymParam => { let p = con!(0); let n = con!(1); let name = self.str_at(p, n); match self.sh.cfg.params.get(&name) { Some(v) => Some(V::B(k(*v, 64))), None => Some(V::B(k(0, 64))) } }
            FK::Intr(n) => Some(self.intrinsic(n, ty, a)?),
            FK::Unknown => return Err(Stop::Unsup(format!("external function {}", self.m.funcs[fi as usize].name))),
            FK::Defined => unreachable!(),
        })
    }
    fn intrinsic(&mut self, n: &str, ty: &Ty, a: Vec<V>) -> R<V> {
        if let V::A(x) = &a[0] {
            if n.starts_with("vector.reduce") {
                let mut r = Self::b(&x[0])?;
                for y in &x[1..] { let y = Self::b(y)?; r = match n { "vector.reduce.or" => self.ar.or(r, y), "vector.reduce.and" => self.ar.and(r, y), "vector.reduce.umax" => self.ar.umax(r, y), _ => self.ar.add(r, y) }; }
                return Ok(V::B(r));
            }
            let et = ty.elem(0).clone();
            let mut o = vec![];
            for i in 0..x.len() { let args = a.iter().map(|v| match v { V::A(v) => v[i].clone(), v => v.clone() }).collect(); o.push(self.intrinsic(n, &et, args)?); }
            return Ok(V::A(Rc::new(o)));
        }
        let x = Self::b(&a[0])?;
        let w = x.w;
        let y = if a.len() > 1 { Self::b(&a[1])? } else { x };
        let pair = |r: BV, o: BV| V::A(Rc::new(vec![V::B(r), V::B(o)]));
        let ar = &mut self.ar;
        Ok(V::B(match n {
            "umin" => ar.umin(x, y), "umax" => ar.umax(x, y),
            "smin" => { let c = ar.slt(x, y); ar.ite(c, x, y) } "smax" => { let c = ar.slt(x, y); ar.ite(c, y, x) }
            "abs" => { let s = ar.extract(x, w - 1, 1); let m = ar.neg(x); ar.ite(s, m, x) }
            "ctpop" => ar.ctpop(x), "ctlz" => if let Some(c) = ar.konst(x) { ar.kconst(((c << (128 - w)) | if w < 128 { 1u128 << (127 - w) } else { 0 }).leading_zeros().min(w) as u128, w) } else { ar.ctlz(x) },
            "cttz" => if let Some(c) = ar.konst(x) { ar.kconst(c.trailing_zeros().min(w) as u128, w) } else { ar.cttz(x) },
            "bswap" => ar.bswap(x), "bitreverse" => ar.bitreverse(x),
            "fshl" | "fshr" => {
                let z = Self::b(&a[2])?; let wc = ar.kconst(w as u128, w); let s = ar.urem(z, wc);
                if w <= 64 {
                    let c = ar.concat(x, y); let s2 = ar.zext(s, 2 * w);
                    if n == "fshl" { let t = ar.shl(c, s2); ar.extract(t, w, w) } else { let t = ar.lshr(c, s2); ar.extract(t, 0, w) }
                } else { return Err(Stop::Unsup("wide funnel shift".into())); }
            }
            "uadd.with.overflow" => { let r = ar.add(x, y); let o = if w <= 64 && { let (p, q) = (ar.range(x), ar.range(y)); p.1 as u128 + q.1 as u128 <= mask(w) as u128 } { k(0, 1) } else { ar.ult(r, x) }; return Ok(pair(r, o)); }
            "usub.with.overflow" => { let r = ar.sub(x, y); let o = ar.ult(x, y); return Ok(pair(r, o)); }
            "umul.with.overflow" => { let r = ar.mul(x, y);
                let o = if w <= 64 && { let (p, q) = (ar.range(x), ar.range(y)); p.1 as u128 * q.1 as u128 <= mask(w) as u128 } { k(0, 1) } else if let Some(c) = ar.konst(y).or(ar.konst(x)) { let v = if ar.konst(y).is_some() { x } else { y }; if c == 0 { k(0, 1) } else { let mx = ar.kconst(mask128(w) / c, w); ar.ult(mx, v) } }
                    else if w <= 64 { let p = ar.zext(x, 2 * w); let q = ar.zext(y, 2 * w); let t = ar.mul(p, q); let h = ar.extract(t, w, w); let z = ar.kconst(0, w); ar.ne(h, z) } else { return Err(Stop::Unsup("wide mul overflow".into())) };
                return Ok(pair(r, o)); }
            "sadd.with.overflow" | "ssub.with.overflow" => { let p = ar.sext(x, w + 1); let q = ar.sext(y, w + 1); let t = if n.starts_with("sadd") { ar.add(p, q) } else { ar.sub(p, q) }; let r = ar.trunc(t, w); let b = ar.sext(r, w + 1); let o = ar.ne(b, t); return Ok(pair(r, o)); }
            "smul.with.overflow" if w <= 64 => { let p = ar.sext(x, 2 * w); let q = ar.sext(y, 2 * w); let t = ar.mul(p, q); let r = ar.trunc(t, w); let b = ar.sext(r, 2 * w); let o = ar.ne(b, t); return Ok(pair(r, o)); }
            "uadd.sat" => { let r = ar.add(x, y); let o = ar.ult(r, x); let m = ar.kconst(mask128(w), w); ar.ite(o, m, r) }
            "usub.sat" => { let r = ar.sub(x, y); let o = ar.ult(x, y); let z = ar.kconst(0, w); ar.ite(o, z, r) }
            "scmp" | "ucmp" => { let rw = ty.bits(); let l = if n == "ucmp" { ar.ult(x, y) } else { ar.slt(x, y) }; let g = if n == "ucmp" { ar.ult(y, x) } else { ar.slt(y, x) }; let m1 = ar.kconst(mask128(rw), rw); let one = ar.kconst(1, rw); let z = ar.kconst(0, rw); let t = ar.ite(g, one, z); ar.ite(l, m1, t) }
            "is.constant" => k(0, 1), "expect" => x,
            "load.relative" => { let p = self.concretize(x)?; let o = self.concretize(y)?; let V::B(r) = self.load_ty(p.wrapping_add(o), &Ty::Int(32))? else { unreachable!() }; k(p.wrapping_add(((r.c as u32 as i32 as i64) << OSH) as u64), 64) }
            n => return Err(Stop::Unsup(format!("intrinsic {}", n))),
        }))
    }
}
impl Shared { pub fn q_stop(&self) { if let Ok(mut q) = self.q.try_lock() { q.stop = true; self.cv.notify_all(); } } }
