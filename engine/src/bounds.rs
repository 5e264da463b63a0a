//! What the path condition says about the range of each expression. It answers the simplest of the queries (an
//! unsigned comparison with disjoint ranges) without the solver, and only with "unsatisfiable".
use crate::expr::*;

type Iv = (u128, u128);
#[derive(Clone, Default)]
pub struct Bounds {
    /// Bounds of nodes of at most 128 bits, on top of what their structure gives.
    at: FxMap<u32, Iv>,
    /// Comparisons between two expressions, to look at again when bounds get tighter.
    rels: Vec<(BV, BV, bool)>,
    dirty: bool,
    /// The variables in `at`.
    mask: u128,
}
fn top(w: u32) -> Iv { (0, mask128(w)) }
const DEPTH: u32 = 1000;
const NODES: usize = 20000;

impl Bounds {
    pub fn stale(&self) -> bool { self.dirty }
    /// True if `c` cannot be 1.
    pub fn refutes(&self, ar: &Arena, c: BV) -> bool {
        if self.at.is_empty() { return false; }
        self.range(ar, c, &mut FxMap::default(), 0).1 == 0
    }
    /// `b` with what the bounds decide put in.
    pub fn narrow(&self, ar: &mut Arena, b: BV, done: &mut FxMap<u32, BV>, memo: &mut FxMap<u32, Iv>, depth: u32) -> BV {
        if b.id == 0 || self.at.is_empty() || ar.vmask(b) & self.mask == 0 || b.w > 128 || depth > DEPTH || done.len() > NODES { return b; }
        if let Some(&r) = done.get(&b.id) { return r; }
        let n = *ar.n(b);
        if matches!(n.op, Op::Var | Op::Const) { return b; }
        let (lo, hi) = self.range(ar, b, memo, 0);
        let r = if lo == hi { ar.kconst(lo, b.w) } else if n.op == Op::Ite && { let c = self.range(ar, n.a, memo, 0); c.0 == c.1 } {
            let x = if self.range(ar, n.a, memo, 0).0 == 1 { n.b } else { n.c };
            self.narrow(ar, x, done, memo, depth + 1)
        } else {
            let x = self.narrow(ar, n.a, done, memo, depth + 1); let y = self.narrow(ar, n.b, done, memo, depth + 1); let z = self.narrow(ar, n.c, done, memo, depth + 1);
            if x == n.a && y == n.b && z == n.c { b } else { ar.build(n.op, n.w, x, y, z) }
        };
        done.insert(b.id, r);
        r
    }
    fn own(&self, ar: &Arena, b: BV) -> Iv {
        let n = ar.n(b);
        let (mut lo, mut hi) = if n.w <= 64 { (n.lo as u128, n.hi as u128) } else { top(n.w) };
        if let Some(&(l, h)) = self.at.get(&b.id) { lo = lo.max(l); hi = hi.min(h); }
        (lo, hi)
    }
    fn range(&self, ar: &Arena, b: BV, memo: &mut FxMap<u32, Iv>, depth: u32) -> Iv {
        if let Some(v) = ar.konst(b) { return (v, v); }
        if b.w > 128 { return (0, !0); }
        if let Some(&r) = memo.get(&b.id) { return r; }
        let (lo, hi) = self.own(ar, b);
        if lo >= hi || depth > DEPTH || memo.len() > NODES { return (lo, hi); }
        let n = *ar.n(b);
        let m = mask128(n.w);
        let full = top(n.w);
        let mut go = |x: BV| self.range(ar, x, memo, depth + 1);
        let r = match n.op {
            Op::ZExt => go(n.a),
            Op::Extract if n.a.w <= 128 => { let l = n.b.c as u32; let x = go(n.a); let (u, v) = (x.0 >> l, x.1 >> l); if u & !m == v & !m { (u & m, v & m) } else { full } }
            Op::Concat => { let (x, y) = (go(n.a), go(n.b)); if x.0 == x.1 { (x.0 << n.b.w | y.0, x.0 << n.b.w | y.1) } else { (x.0 << n.b.w, x.1 << n.b.w | mask128(n.b.w)) } }
            Op::Add => {
                let (x, y) = (go(n.a), go(n.b));
                let ((l, p), (h, q)) = (x.0.overflowing_add(y.0), x.1.overflowing_add(y.1));
                let (p, q) = if n.w < 128 { (l > m, h > m) } else { (p, q) };
                if p == q { (l & m, h & m) } else { full }
            }
            Op::Sub => {
                let (x, y) = (go(n.a), go(n.b));
                // never, or always, below zero
                if x.0 >= y.1 || x.1 < y.0 { (x.0.wrapping_sub(y.1) & m, x.1.wrapping_sub(y.0) & m) } else { full }
            }
            Op::Mul => { let (x, y) = (go(n.a), go(n.b)); match x.1.checked_mul(y.1) { Some(h) if h <= m => (x.0 * y.0, h), _ => full } }
            Op::UDiv => { let (x, y) = (go(n.a), go(n.b)); if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full } }
            Op::URem => { let (x, y) = (go(n.a), go(n.b)); if y.0 > 0 { if x.1 < y.0 { x } else { (0, (y.1 - 1).min(x.1)) } } else { full } }
            Op::And => { let (x, y) = (go(n.a), go(n.b)); if n.w == 1 { (x.0 & y.0, x.1 & y.1) } else { (0, x.1.min(y.1)) } }
            Op::Or => { let (x, y) = (go(n.a), go(n.b)); if n.w == 1 { (x.0 | y.0, x.1 | y.1) } else { (x.0.max(y.0), m) } }
            Op::Eq if n.a.w <= 128 => { let (x, y) = (go(n.a), go(n.b)); if x.1 < y.0 || y.1 < x.0 { (0, 0) } else if x == y && x.0 == x.1 { (1, 1) } else { (0, 1) } }
            Op::Ult if n.a.w <= 128 => { let (x, y) = (go(n.a), go(n.b)); if x.1 < y.0 { (1, 1) } else if x.0 >= y.1 { (0, 0) } else { (0, 1) } }
            Op::Ite => {
                let c = go(n.a);
                if c.0 == 1 { go(n.b) } else if c.1 == 0 { go(n.c) } else { let (x, y) = (go(n.b), go(n.c)); (x.0.min(y.0), x.1.max(y.1)) }
            }
            _ => full,
        };
        let r = (lo.max(r.0), hi.min(r.1));
        // an empty range would say that the path is infeasible, which it is not
        let r = if r.0 > r.1 { (lo, hi) } else { r };
        memo.insert(b.id, r);
        r
    }
    /// `b` is within the bounds.
    fn bound(&mut self, ar: &Arena, b: BV, lo: u128, hi: u128, depth: u32) {
        if ar.konst(b).is_some() || b.w > 128 || depth > 40 { return; }
        let (l, h) = self.own(ar, b);
        let (lo, hi) = (lo.max(l), hi.min(h));
        if lo > hi || (lo, hi) == (l, h) { return; }
        self.at.insert(b.id, (lo, hi)); self.mask |= ar.vmask(b);
        self.dirty = true;
        let n = *ar.n(b);
        let m = mask128(n.w);
        match n.op {
            Op::ZExt => self.bound(ar, n.a, lo, hi, depth + 1),
            Op::Concat => {
                self.bound(ar, n.a, lo >> n.b.w, hi >> n.b.w, depth + 1);
                if lo >> n.b.w == hi >> n.b.w { let y = mask128(n.b.w); self.bound(ar, n.b, lo & y, hi & y, depth + 1); }
            }
            Op::Add => for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if let Some(c) = ar.konst(y) { if (lo >= c) == (hi >= c) { self.bound(ar, x, lo.wrapping_sub(c) & m, hi.wrapping_sub(c) & m, depth + 1); } }
            },
            Op::Ite => {
                let mut memo = FxMap::default();
                let (x, y) = (self.range(ar, n.b, &mut memo, 0), self.range(ar, n.c, &mut memo, 0));
                let (px, py) = (x.0 <= hi && lo <= x.1, y.0 <= hi && lo <= y.1);
                if px && !py { self.learn(ar, n.a, 1); self.bound(ar, n.b, lo, hi, depth + 1); }
                if py && !px { self.learn(ar, n.a, 0); self.bound(ar, n.c, lo, hi, depth + 1); }
            }
            _ => {}
        }
    }
    /// `b` has the value `v`.
    pub fn learn(&mut self, ar: &Arena, b: BV, v: u64) {
        if b.id == 0 || b.w > 64 { return; }
        let n = *ar.n(b);
        if b.w > 1 { self.bound(ar, b, v as u128, v as u128, 0); return; }
        if self.at.get(&b.id) == Some(&(v as u128, v as u128)) { return; }
        self.at.insert(b.id, (v as u128, v as u128)); self.mask |= ar.vmask(b);
        match n.op {
            Op::Ult if n.a.w <= 128 => {
                let follows = { let mut memo = FxMap::default(); let (x, y) = (self.range(ar, n.a, &mut memo, 0), self.range(ar, n.b, &mut memo, 0)); if v == 1 { x.1 < y.0 } else { x.0 >= y.1 } };
                if follows { return; }
                if ar.konst(n.a).is_none() && ar.konst(n.b).is_none() { self.rels.push((n.a, n.b, v == 1)); }
                self.compare(ar, n.a, n.b, v == 1);
            }
            Op::And if v == 1 => { self.learn(ar, n.a, 1); self.learn(ar, n.b, 1); }
            Op::Or if v == 0 => { self.learn(ar, n.a, 0); self.learn(ar, n.b, 0); }
            Op::Eq if n.a.w == 1 => if n.b.is_c() { self.learn(ar, n.a, (n.b.c == v) as u64); },
            Op::Eq if n.a.w <= 128 => {
                let (x, y) = { let mut memo = FxMap::default(); (self.range(ar, n.a, &mut memo, 0), self.range(ar, n.b, &mut memo, 0)) };
                if v == 1 { self.bound(ar, n.a, y.0, y.1, 0); self.bound(ar, n.b, x.0, x.1, 0); }
                else if y.0 == y.1 {
                    if x.0 == y.0 && x.0 < x.1 { self.bound(ar, n.a, x.0 + 1, x.1, 0); }
                    if x.1 == y.0 && x.0 < x.1 { self.bound(ar, n.a, x.0, x.1 - 1, 0); }
                }
            }
            _ => {}
        }
    }
    fn compare(&mut self, ar: &Arena, a: BV, b: BV, less: bool) {
        let (x, y) = { let mut memo = FxMap::default(); (self.range(ar, a, &mut memo, 0), self.range(ar, b, &mut memo, 0)) };
        if less {
            if y.1 > 0 { self.bound(ar, a, 0, y.1 - 1, 0); }
            if let Some(l) = x.0.checked_add(1) { self.bound(ar, b, l, !0, 0); }
        } else { self.bound(ar, a, y.0, !0, 0); self.bound(ar, b, 0, x.1, 0); }
    }
    /// Looks at the comparisons again.
    pub fn settle(&mut self, ar: &Arena) {
        for _ in 0..3 {
            if !self.dirty { break; }
            self.dirty = false;
            if self.rels.len() > 400 { return; }
            for i in 0..self.rels.len() { let (a, b, v) = self.rels[i]; self.compare(ar, a, b, v); }
        }
        self.dirty = false;
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct R(u64);
    impl R { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } }
    /// What is concluded from conditions which hold in a model holds in that model.
    #[test]
    fn bounds_agree_with_evaluation() {
        let mut r = R(0x9E3779B97F4A7C15);
        let (mut decided, mut narrowed) = (0u64, 0u64);
        for _ in 0..20000 {
            let mut a = Arena::new();
            let m: Vec<u8> = (0..4).map(|_| match r.n() % 4 { 0 => 0, 1 => 255, 2 => (r.n() % 20) as u8, _ => r.n() as u8 }).collect();
            let mut pool: Vec<BV> = (0..4).map(|i| a.var(i)).collect();
            let (mut b, mut conds) = (Bounds::default(), vec![]);
            for _ in 0..40 {
                let ws = [8u32, 8, 16, 64, 64, 64, 128];
                let w = ws[(r.n() % 7) as usize];
                let small = r.n() % 3 > 0;
                let pick = |a: &mut Arena, r: &mut R, w: u32| -> BV {
                    if r.n() % 3 == 0 { let v = match r.n() % 5 { 0 => 0, 1 => mask128(w), 2 => (r.n() % 300) as u128, 3 => (r.n() % 30) as u128, _ => 0u128.wrapping_sub((r.n() % 20) as u128) }; return a.kconst(v & mask128(w), w); }
                    let x = if small { pool[(r.n() % 4) as usize] } else { pool[(r.n() % pool.len() as u64) as usize] };
                    if x.w == w { x } else if x.w < w { a.zext(x, w) } else { let lo = if r.n() & 1 == 0 { 0 } else { r.n() as u32 % (x.w - w + 1) }; a.extract(x, lo, w) }
                };
                let (x, y) = (pick(&mut a, &mut r, w), pick(&mut a, &mut r, w));
                let s = match r.n() % 14 {
                    0 | 1 => a.add(x, y), 2 => a.sub(x, y), 3 => a.mul(x, y), 4 if a.eval(y, &m) != 0 => a.udiv(x, y), 5 if a.eval(y, &m) != 0 => a.urem(x, y),
                    6 => { let c = a.ult(x, y); a.ite(c, x, y) } 7 => { let c = a.ult(x, y); a.ite(c, y, x) } 8 => { let c = a.eq(x, y); let z = pick(&mut a, &mut r, w); a.ite(c, x, z) }
                    9 if w <= 64 => a.concat(x, y), 10 => a.and(x, y), 11 => a.or(x, y), 12 => { let (c, d) = (a.ult(x, y), a.eq(x, y)); if r.n() & 1 == 0 { a.or(c, d) } else { a.and(c, d) } }
                    _ => if r.n() & 1 == 0 { a.ult(x, y) } else { a.eq(x, y) },
                };
                if s.w == 1 && s.id != 0 && r.n() & 3 > 0 { conds.push(s); }
                if s.w > 128 { continue }
                if s.w == 1 { let (p, q) = (k(r.n() & 255, 8), pool[(r.n() % 4) as usize]); let t = a.ite(s, p, q); pool.push(t); } else { pool.push(s); }
            }
            for c in conds { let v = a.eval(c, &m) as u64; b.learn(&a, c, v); if r.n() & 1 == 0 { b.settle(&a); } }
            b.settle(&a);
            let (mut done, mut memo) = (FxMap::default(), FxMap::default());
            for &t in &pool {
                let v = a.eval(t, &m);
                let (lo, hi) = b.range(&a, t, &mut FxMap::default(), 0);
                assert!(lo <= v && v <= hi, "{} {} {}", lo, v, hi);
                if t.id != 0 && lo == hi { decided += 1; }
                let n = b.narrow(&mut a, t, &mut done, &mut memo, 0);
                if n != t { narrowed += 1; }
                assert_eq!(a.eval(n, &m), v);
            }
        }
        assert!(decided > 10000 && narrowed > 10000, "{} {}", decided, narrowed);
    }
}
