//! Z3 (C API) back end: translation of expressions, query slicing and caching.
use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};
type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("z3 error {}", e); std::process::abort(); }

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Default, Clone)]
pub struct Stats { pub intervals: u64, pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cached: u64, pub micros: u64, pub max_micros: u64 }

pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

pub struct Solver {
    ctx: P, s: P, sorts: Vec<P>, tru: P, fal: P,
    bools: FxMap<u32, P>, bvs: FxMap<u32, P>,
    cache: FxMap<(u64, u64), Option<Vec<(u32, u8)>>>,
    pub stats: Stats,
    pub dump: Option<(String, u64)>,
    pub dumped: u64,
}

impl Drop for Solver { fn drop(&mut self) { unsafe { Z3_del_context(self.ctx) } } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as _));
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as _), timeout_ms);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, b"random_seed\0".as_ptr() as _), 1);
            Z3_solver_set_params(ctx, s, p);
            let mut sorts = vec![std::ptr::null_mut()];
            for w in 1..=256 { let t = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, t); sorts.push(t); }
            let tru = Z3_mk_true(ctx); Z3_inc_ref(ctx, tru);
            let fal = Z3_mk_false(ctx); Z3_inc_ref(ctx, fal);
            Solver { ctx, s, sorts, tru, fal, bools: FxMap::default(), bvs: FxMap::default(), cache: FxMap::default(), stats: Stats::default(), dump: None, dumped: 0 }
        }
    }
    fn keep(&self, p: P) -> P { unsafe { Z3_inc_ref(self.ctx, p) }; p }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { return self.keep(Z3_mk_unsigned_int64(self.ctx, v as u64, self.sorts[w as usize])); }
            let lo = self.keep(Z3_mk_unsigned_int64(self.ctx, v as u64, self.sorts[64]));
            let hi = self.keep(Z3_mk_unsigned_int64(self.ctx, ((v >> 64) as u64) & mask(w - 64), self.sorts[(w - 64) as usize]));
            self.keep(Z3_mk_concat(self.ctx, hi, lo))
        }
    }
    fn bv(&mut self, ar: &Arena, b: BV) -> P {
        if b.id == 0 { return self.num(b.c as u128, b.w); }
        if let Some(&p) = self.bvs.get(&b.id) { return p; }
        let n = *ar.n(b);
        let c = self.ctx;
        let r = unsafe {
            if b.w == 1 && matches!(n.op, Op::And | Op::Or | Op::Eq | Op::Ult | Op::Slt | Op::Ite | Op::Xor) {
                let t = self.boolean(ar, b);
                let one = self.num(1, 1); let z = self.num(0, 1);
                Z3_mk_ite(c, t, one, z)
            } else {
                match n.op {
                    Op::Var => { let s = Z3_mk_int_symbol(c, n.a.c as c_int); Z3_mk_const(c, s, self.sorts[8]) }
                    Op::Const => self.num(n.a.c as u128 | (n.b.c as u128) << 64, n.w),
                    Op::Ite => { let x = self.boolean(ar, n.a); let y = self.bv(ar, n.b); let z = self.bv(ar, n.c); Z3_mk_ite(c, x, y, z) }
                    Op::ZExt => { let x = self.bv(ar, n.a); Z3_mk_zero_ext(c, n.w - n.a.w, x) }
                    Op::SExt => { let x = self.bv(ar, n.a); Z3_mk_sign_ext(c, n.w - n.a.w, x) }
                    Op::Extract => { let x = self.bv(ar, n.a); let lo = n.b.c as u32; Z3_mk_extract(c, lo + n.w - 1, lo, x) }
                    _ => {
                        let x = self.bv(ar, n.a); let y = self.bv(ar, n.b);
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        self.keep(r);
        self.bvs.insert(b.id, r);
        r
    }
    fn boolean(&mut self, ar: &Arena, b: BV) -> P {
        debug_assert_eq!(b.w, 1);
        if b.id == 0 { return if b.c == 1 { self.tru } else { self.fal }; }
        if let Some(&p) = self.bools.get(&b.id) { return p; }
        let n = *ar.n(b);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::And => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => { let x = self.boolean(ar, n.a); let y = self.boolean(ar, n.b); let e = Z3_mk_eq(c, x, y); Z3_mk_not(c, e) }
                Op::Eq => if n.a.w == 1 {
                    let x = self.boolean(ar, n.a);
                    if n.b == k(0, 1) { Z3_mk_not(c, x) } else { let y = self.boolean(ar, n.b); Z3_mk_eq(c, x, y) }
                } else { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_eq(c, x, y) },
                Op::Ult => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvult(c, x, y) }
                Op::Slt => { let x = self.bv(ar, n.a); let y = self.bv(ar, n.b); Z3_mk_bvslt(c, x, y) }
                Op::Ite => { let x = self.boolean(ar, n.a); let y = self.boolean(ar, n.b); let z = self.boolean(ar, n.c); Z3_mk_ite(c, x, y, z) }
                _ => { let x = self.bv(ar, b); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
            }
        };
        self.keep(r);
        self.bools.insert(b.id, r);
        r
    }
    pub fn vars(ar: &Arena, b: BV, seen: &mut FxSet<u32>, out: &mut Vec<u32>) {
        if b.id == 0 || ar.vmask(b) == 0 || !seen.insert(b.id) { return; }
        let n = *ar.n(b);
        if n.op == Op::Var { out.push(n.a.c as u32); return; }
        Self::vars(ar, n.a, seen, out); Self::vars(ar, n.b, seen, out); Self::vars(ar, n.c, seen, out);
    }
    /// Is `pc /\ cond` satisfiable?  Only constraints sharing variables (transitively) with `cond` matter, because `pc` is satisfiable.
    pub fn check(&mut self, ar: &mut Arena, pc: &[BV], cond: BV) -> Res {
        if cond.id == 0 { return if cond.c == 1 { Res::Sat(vec![]) } else { Res::Unsat }; }
        let mut m = ar.vmask(cond);
        let mut used = vec![false; pc.len()];
        let mut slice = vec![cond];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if !used[i] && ar.vmask(c) & m != 0 { used[i] = true; m |= ar.vmask(c); slice.push(c); ch = true; }
            }
            if !ch { break; }
        }
        // cache key: order independent over constraints
        let (mut h1, mut h2) = (0u64, 0u64);
        for (i, &c) in slice.iter().enumerate() {
            let h = ar.hash(c); let (a, b) = (h as u64, (h >> 64) as u64);
            let t = if i == 0 { 0x9E3779B97F4A7C15u64 } else { 1 };
            h1 = h1.wrapping_add(a.wrapping_mul(t) ^ a >> 32); h2 = h2.wrapping_add(b.rotate_left(17).wrapping_mul(t) ^ a);
        }
        if let Some(r) = self.cache.get(&(h1, h2)) { self.stats.cached += 1; return match r { Some(v) => Res::Sat(v.clone()), None => Res::Unsat }; }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.s);
            for &c in &slice { let p = self.boolean(ar, c); Z3_solver_assert(self.ctx, self.s, p); }
            if let Some((dir, every)) = &self.dump { if self.stats.queries % *every == 0 && self.dumped < 400 {
                let txt = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned();
                let id = format!("{}/q-{:?}-{}.smt2", dir, std::thread::current().id(), self.stats.queries).replace("ThreadId(", "").replace(")", "");
                let q = Z3_solver_check(self.ctx, self.s);
                let _ = std::fs::write(&id, format!("(set-logic QF_BV)\n; expect {}\n{}\n(check-sat)\n", match q { 1 => "sat", -1 => "unsat", _ => "unknown" }, txt));
                self.dumped += 1;
            } }
            match Z3_solver_check(self.ctx, self.s) {
                1 => {
                    let mo = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, mo);
                    let mut vs = vec![]; let mut seen = FxSet::default();
                    for &c in &slice { Self::vars(ar, c, &mut seen, &mut vs); }
                    let mut out = vec![];
                    for v in vs {
                        let x = ar.var(v); let p = self.bv(ar, x);
                        let mut q: P = std::ptr::null_mut(); let mut val = 0u64;
                        if !Z3_model_eval(self.ctx, mo, p, true, &mut q) { panic!("model eval"); }
                        Z3_inc_ref(self.ctx, q);
                        if !Z3_get_numeral_uint64(self.ctx, q, &mut val) { panic!("numeral"); }
                        out.push((v, val as u8));
                    }
                    Z3_model_dec_ref(self.ctx, mo);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1; self.stats.micros += us; self.stats.max_micros = self.stats.max_micros.max(us);
        match &r { Res::Sat(v) => { self.stats.sat += 1; self.cache.insert((h1, h2), Some(v.clone())); }
            Res::Unsat => { self.stats.unsat += 1; self.cache.insert((h1, h2), None); } Res::Unknown => self.stats.unknown += 1 }
        r
    }
}
