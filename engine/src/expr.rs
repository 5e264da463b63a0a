//! Hash-consed bit-vector expressions with an eager simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

/// A bit-vector value of width `w`: a constant `c` (id == 0, only for w <= 64) or node `id`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct BV { pub c: u64, pub id: u32, pub w: u32 }

#[inline] pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline] pub fn mask128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline] pub fn k(c: u64, w: u32) -> BV { BV { c: c & mask(w), id: 0, w } }
impl BV {
    #[inline] pub fn is_c(&self) -> bool { self.id == 0 }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op { Var, Const, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Slt, Ite, ZExt, SExt, Extract, Concat }

#[derive(Clone, Copy)]
pub struct Node { pub op: Op, pub w: u32, pub a: BV, pub b: BV, pub c: BV, pub kz: u64, pub ko: u64, pub lo: u64, pub hi: u64, pub mask: u128, pub h: u128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(Op, u32, BV, BV, BV), u32>,
    stamp: Vec<u32>, val: Vec<u128>, cur: u32,
}

const Z: BV = BV { c: 0, id: 0, w: 0 };
fn mix(h: u128, x: u128) -> u128 {
    let m = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    let m = m ^ (m >> 67);
    m.wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9) ^ (m >> 59)
}

impl Arena {
    pub fn new() -> Self {
        let d = Node { op: Op::Const, w: 0, a: Z, b: Z, c: Z, kz: 0, ko: 0, lo: 0, hi: 0, mask: 0, h: 0 };
        Arena { nodes: vec![d], map: FxMap::default(), stamp: vec![0], val: vec![0], cur: 0 }
    }
    #[inline] pub fn n(&self, b: BV) -> &Node { &self.nodes[b.id as usize] }
    #[inline] pub fn opof(&self, b: BV) -> Option<Op> { if b.id == 0 { None } else { Some(self.nodes[b.id as usize].op) } }
    pub fn hash(&self, b: BV) -> u128 {
        if b.id == 0 { mix(mix(0x1234, b.c as u128), b.w as u128) } else { self.nodes[b.id as usize].h }
    }
    pub fn vmask(&self, b: BV) -> u128 { if b.id == 0 { 0 } else { self.nodes[b.id as usize].mask } }
    pub fn kconst(&mut self, v: u128, w: u32) -> BV {
        if w <= 64 { return k(v as u64, w); }
        let v = v & mask128(w);
        self.raw(Op::Const, w, k(v as u64, 64), k((v >> 64) as u64, 64), Z)
    }
    #[inline] pub fn konst(&self, b: BV) -> Option<u128> {
        if b.id == 0 { Some(b.c as u128) } else {
            let n = &self.nodes[b.id as usize];
            if n.op == Op::Const { Some(n.a.c as u128 | (n.b.c as u128) << 64) } else { None }
        }
    }
    pub fn var(&mut self, idx: u32) -> BV { self.raw(Op::Var, 8, k(idx as u64, 32), Z, Z) }
    pub fn of_id(&self, id: u32) -> BV { BV { c: 0, id, w: self.nodes[id as usize].w } }

    fn kb(&self, b: BV) -> (u64, u64) { if b.id == 0 { (!b.c & mask(b.w), b.c) } else { let n = self.n(b); (n.kz, n.ko) } }
    pub fn range(&self, b: BV) -> (u64, u64) { if b.id == 0 { (b.c, b.c) } else { let n = self.n(b); (n.lo, n.hi) } }

    fn raw(&mut self, op: Op, w: u32, a: BV, b: BV, c: BV) -> BV {
        let key = (op, w, a, b, c);
        if let Some(&id) = self.map.get(&key) { return BV { c: 0, id, w }; }
        let m = if op == Op::Var { 1u128 << (a.c % 128) } else if op == Op::Const { 0 } else { self.vmask(a) | self.vmask(b) | self.vmask(c) };
        let mut h = mix(mix(0xabcdef, op as u128), w as u128);
        for x in [a, b, c] { h = mix(h, self.hash(x)); }
        let (mut kz, mut ko, mut lo, mut hi) = (0u64, 0u64, 0u64, !0u64);
        if w <= 64 {
            let mw = mask(w);
            hi = mw;
            let aw = a.w;
            match op {
                Op::And => { let (x, y) = (self.kb(a), self.kb(b)); kz = x.0 | y.0; ko = x.1 & y.1; hi = self.range(a).1.min(self.range(b).1); }
                Op::Or => { let (x, y) = (self.kb(a), self.kb(b)); kz = x.0 & y.0; ko = x.1 | y.1; lo = self.range(a).0.max(self.range(b).0); }
                Op::Xor => { let (x, y) = (self.kb(a), self.kb(b)); kz = (x.0 & y.0) | (x.1 & y.1); ko = (x.0 & y.1) | (x.1 & y.0); }
                Op::ZExt => { let x = self.kb(a); kz = (x.0 & mask(aw)) | (mw & !mask(aw)); ko = x.1; let r = self.range(a); lo = r.0; hi = r.1; }
                Op::SExt => { let x = self.kb(a); let s = 1u64 << (aw - 1); let up = mw & !mask(aw);
                    kz = x.0 & mask(aw); ko = x.1; if x.0 & s != 0 { kz |= up; let r = self.range(a); lo = r.0; hi = r.1; } else if x.1 & s != 0 { ko |= up; } }
                Op::Extract => if aw <= 64 { let l = b.c; let x = self.kb(a); kz = (x.0 >> l) & mw; ko = (x.1 >> l) & mw;
                    let r = self.range(a); if (r.1 >> l) <= mw { lo = r.0 >> l; hi = r.1 >> l; } },
                Op::Concat => { let (x, y) = (self.kb(a), self.kb(b)); kz = ((x.0 << b.w) | y.0) & mw; ko = ((x.1 << b.w) | y.1) & mw;
                    let (r, s) = (self.range(a), self.range(b)); lo = (r.0 << b.w) | s.0; hi = (r.1 << b.w) | s.1; }
                Op::Add => { let (r, s) = (self.range(a), self.range(b));
                    if let Some(t) = r.1.checked_add(s.1) { if t <= mw { lo = r.0 + s.0; hi = t; } }
                    let (x, y) = (self.kb(a), self.kb(b));
                    let t = ((x.0 | x.1) & (y.0 | y.1)).trailing_ones().min(w);
                    if t > 0 { let s = x.1.wrapping_add(y.1); let tm = mask(t); ko = s & tm; kz = !s & tm; } }
                Op::Sub => { let (r, s) = (self.range(a), self.range(b)); if r.0 >= s.1 { lo = r.0 - s.1; hi = r.1 - s.0; } }
                Op::Mul => { let (r, s) = (self.range(a), self.range(b)); if let Some(t) = r.1.checked_mul(s.1) { if t <= mw { lo = r.0 * s.0; hi = t; } } }
                Op::UDiv => { let (r, s) = (self.range(a), self.range(b)); if s.0 > 0 { lo = r.0 / s.1; hi = r.1 / s.0; } }
                Op::URem => { let s = self.range(b); if s.0 > 0 { hi = (s.1 - 1).min(self.range(a).1); } }
                Op::LShr => { hi = self.range(a).1; }
                Op::Ite => { let (x, y) = (self.kb(b), self.kb(c)); kz = x.0 & y.0; ko = x.1 & y.1; let (r, s) = (self.range(b), self.range(c)); lo = r.0.min(s.0); hi = r.1.max(s.1); }
                _ => {}
            }
            lo = lo.max(ko); hi = hi.min(!kz & mw);
            // leading zeros from the upper bound
            let lz = hi.leading_zeros(); if lz > 0 { kz |= mw & !(if lz == 64 { 0 } else { !0u64 >> lz }); }
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op, w, a, b, c, kz, ko, lo, hi, mask: m, h });
        self.stamp.push(0); self.val.push(0);
        self.map.insert(key, id);
        BV { c: 0, id, w }
    }
    fn fin(&mut self, op: Op, w: u32, a: BV, b: BV, c: BV) -> BV {
        let r = self.raw(op, w, a, b, c);
        if w <= 64 { let n = self.n(r); if n.lo == n.hi { return k(n.lo, w); } if (n.kz | n.ko) == mask(w) { return k(n.ko, w); } }
        r
    }

    pub fn add(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.kconst(x.wrapping_add(y) & mask128(w), w); }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.konst(b) {
            if y == 0 { return a; }
            let n = *self.n(a);
            if n.op == Op::Add { if let Some(z) = self.konst(n.b) { let c = self.kconst(y.wrapping_add(z), w); return self.add(n.a, c); } }
            if n.op == Op::Ite && self.konst(n.b).is_some() && self.konst(n.c).is_some() { let x = self.add(n.b, b); let y = self.add(n.c, b); return self.ite(n.a, x, y); }
        } else {
            // keep constants outermost
            if self.opof(a) == Some(Op::Add) { let n = *self.n(a); if self.konst(n.b).is_some() { let t = self.add(n.a, b); return self.add(t, n.b); } }
            if self.opof(b) == Some(Op::Add) { let n = *self.n(b); if self.konst(n.b).is_some() { let t = self.add(a, n.a); return self.add(t, n.b); } }
            if self.opof(b) == Some(Op::Sub) { let n = *self.n(b); if n.b == a { return n.a; } }
            if self.opof(a) == Some(Op::Sub) { let n = *self.n(a); if n.b == b { return n.a; } }
        }
        let (a, b) = if self.konst(b).is_none() && self.hash(b) < self.hash(a) { (b, a) } else { (a, b) };
        self.fin(Op::Add, w, a, b, Z)
    }
    pub fn neg(&mut self, a: BV) -> BV { let z = self.kconst(0, a.w); self.sub(z, a) }
    pub fn sub(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if a == b { return self.kconst(0, w); }
        if let Some(y) = self.konst(b) { let c = self.kconst((y.wrapping_neg()) & mask128(w), w); return self.add(a, c); }
        // strip constants
        let (mut ca, mut xa) = (0u128, a);
        let (mut cb, mut xb) = (0u128, b);
        if self.opof(a) == Some(Op::Add) { let n = *self.n(a); if let Some(c) = self.konst(n.b) { ca = c; xa = n.a; } }
        if self.opof(b) == Some(Op::Add) { let n = *self.n(b); if let Some(c) = self.konst(n.b) { cb = c; xb = n.a; } }
        if xa == xb { return self.kconst(ca.wrapping_sub(cb) & mask128(w), w); }
        if ca != 0 || cb != 0 {
            let t = self.sub(xa, xb); let c = self.kconst(ca.wrapping_sub(cb) & mask128(w), w);
            return self.add(t, c);
        }
        if self.opof(a) == Some(Op::Add) { let n = *self.n(a); if n.a == b { return n.b; } if n.b == b { return n.a; } }
        self.fin(Op::Sub, w, a, b, Z)
    }
    pub fn mul(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.kconst(x.wrapping_mul(y) & mask128(w), w); }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.konst(b) {
            if y == 0 { return b; } if y == 1 { return a; }
            if y.is_power_of_two() { let s = self.kconst(y.trailing_zeros() as u128, w); return self.shl(a, s); }
        }
        let (a, b) = if self.konst(b).is_none() && self.hash(b) < self.hash(a) { (b, a) } else { (a, b) };
        self.fin(Op::Mul, w, a, b, Z)
    }
    pub fn udiv(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { if y != 0 { return self.kconst(x / y, w); } }
        if let Some(y) = self.konst(b) { if y == 1 { return a; } if y.is_power_of_two() { let s = self.kconst(y.trailing_zeros() as u128, w); return self.lshr(a, s); } }
        self.fin(Op::UDiv, w, a, b, Z)
    }
    pub fn urem(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { if y != 0 { return self.kconst(x % y, w); } }
        if let Some(y) = self.konst(b) { if y.is_power_of_two() { let m = self.kconst(y - 1, w); return self.and(a, m); } }
        self.fin(Op::URem, w, a, b, Z)
    }
    pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }
    pub fn sdiv(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { if y != 0 { let r = Self::sx(x, w).wrapping_div(Self::sx(y, w)); return self.kconst(r as u128 & mask128(w), w); } }
        self.fin(Op::SDiv, w, a, b, Z)
    }
    pub fn srem(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { if y != 0 { let r = Self::sx(x, w).wrapping_rem(Self::sx(y, w)); return self.kconst(r as u128 & mask128(w), w); } }
        self.fin(Op::SRem, w, a, b, Z)
    }
    pub fn and(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if a == b { return a; }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.kconst(x & y, w); }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.konst(b) {
            if y == 0 { return b; } if y == mask128(w) { return a; }
            if w <= 64 {
                let (kz, _) = self.kb(a);
                if !(y as u64) & mask(w) & !kz == 0 { return a; }
                // contiguous low mask -> zext(extract)
                let y = y as u64;
                if (y + 1).is_power_of_two() { let t = y.trailing_ones(); let e = self.extract(a, 0, t); return self.zext(e, w); }
                let n = *self.n(a);
                if n.op == Op::And { if self.konst(n.b).is_some() { let c = self.and(n.b, b); return self.and(n.a, c); } }
                if n.op == Op::Concat || n.op == Op::ZExt {
                    let lw = if n.op == Op::Concat { n.b.w } else { n.a.w };
                    let hi = self.extract(a, lw, w - lw); let lo = self.extract(a, 0, lw);
                    let h = self.and(hi, k(y >> lw, w - lw)); let l = self.and(lo, k(y, lw));
                    return self.concat(h, l);
                }
                if n.op == Op::Ite && self.konst(n.b).is_some() && self.konst(n.c).is_some() { let x = self.and(n.b, b); let y = self.and(n.c, b); return self.ite(n.a, x, y); }
            }
        } else if w == 1 {
            if self.is_not_of(a, b) { return k(0, 1); }
            // absorption
            for (x, y) in [(a, b), (b, a)] { let n = *self.n(x);
                if n.op == Op::And && (n.a == y || n.b == y) { return x; }
                if n.op == Op::Or && (n.a == y || n.b == y) { return y; } }
        }
        let (a, b) = if self.konst(b).is_none() && self.hash(b) < self.hash(a) { (b, a) } else { (a, b) };
        self.fin(Op::And, w, a, b, Z)
    }
    fn is_not_of(&self, a: BV, b: BV) -> bool {
        let f = |x: BV, y: BV| { let n = self.n(x); n.op == Op::Eq && n.a == y && n.b == k(0, 1) };
        f(a, b) || f(b, a)
    }
    pub fn or(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if a == b { return a; }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.kconst(x | y, w); }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.konst(b) {
            if y == 0 { return a; } if y == mask128(w) { return b; }
            if w <= 64 { let (_, ko) = self.kb(a); if (y as u64) & !ko == 0 { return a; } }
        } else if w == 1 {
            if self.is_not_of(a, b) { return k(1, 1); }
            for (x, y) in [(a, b), (b, a)] { let n = *self.n(x);
                if n.op == Op::Or && (n.a == y || n.b == y) { return x; }
                if n.op == Op::And && (n.a == y || n.b == y) { return y; } }
        }
        if w <= 64 && w > 1 {
            let (za, _) = self.kb(a); let (zb, _) = self.kb(b);
            // one occupies the top, the other the bottom
            let ta = za.trailing_ones().min(w); let ub = w - ((zb << (64 - w)).leading_ones().min(w));
            if ub <= ta && ta > 0 && ta < w {
                let t = if ub > 0 { ub } else { ta };
                let hi = self.extract(a, t, w - t); let lo = self.extract(b, 0, t);
                return self.concat(hi, lo);
            }
            let tb = zb.trailing_ones().min(w); let ua = w - ((za << (64 - w)).leading_ones().min(w));
            if ua <= tb && tb > 0 && tb < w {
                let t = if ua > 0 { ua } else { tb };
                let hi = self.extract(b, t, w - t); let lo = self.extract(a, 0, t);
                return self.concat(hi, lo);
            }
        } else if w > 64 {
            // concat(x, 0:t) | zext(y) with |y| <= t
            for (x, y) in [(a, b), (b, a)] {
                let (nx, ny) = if x.id != 0 && y.id != 0 { (*self.n(x), *self.n(y)) } else { continue };
                if nx.op == Op::Concat && ny.op == Op::ZExt && self.konst(nx.b) == Some(0) && ny.a.w <= nx.b.w {
                    let l = self.zext(ny.a, nx.b.w); return self.concat(nx.a, l);
                }
            }
        }
        let (a, b) = if self.konst(b).is_none() && self.hash(b) < self.hash(a) { (b, a) } else { (a, b) };
        self.fin(Op::Or, w, a, b, Z)
    }
    pub fn xor(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if a == b { return self.kconst(0, w); }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return self.kconst(x ^ y, w); }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.konst(b) {
            if y == 0 { return a; }
            if w == 1 { return self.not(a); }
            let n = *self.n(a);
            if n.op == Op::Xor { if self.konst(n.b).is_some() { let c = self.xor(n.b, b); return self.xor(n.a, c); } }
        }
        let (a, b) = if self.konst(b).is_none() && self.hash(b) < self.hash(a) { (b, a) } else { (a, b) };
        self.fin(Op::Xor, w, a, b, Z)
    }
    pub fn shl(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let Some(s) = self.konst(b) {
            if s >= w as u128 { return self.kconst(0, w); }
            let s = s as u32;
            if s == 0 { return a; }
            if let Some(x) = self.konst(a) { return self.kconst((x << s) & mask128(w), w); }
            let e = self.extract(a, 0, w - s); let z = self.kconst(0, s);
            return self.concat(e, z);
        }
        self.fin(Op::Shl, w, a, b, Z)
    }
    pub fn lshr(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let Some(s) = self.konst(b) {
            if s >= w as u128 { return self.kconst(0, w); }
            let s = s as u32;
            if s == 0 { return a; }
            let e = self.extract(a, s, w - s);
            return self.zext(e, w);
        }
        self.fin(Op::LShr, w, a, b, Z)
    }
    pub fn ashr(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if let Some(s) = self.konst(b) {
            let s = s.min(w as u128 - 1) as u32;
            if s == 0 { return a; }
            let e = self.extract(a, s, w - s);
            return self.sext(e, w);
        }
        self.fin(Op::AShr, w, a, b, Z)
    }
    pub fn extract(&mut self, a: BV, lo: u32, w: u32) -> BV {
        debug_assert!(lo + w <= a.w && w > 0);
        if w == a.w { return a; }
        if let Some(x) = self.konst(a) { return self.kconst((x >> lo) & mask128(w), w); }
        let n = *self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b.c as u32, w),
            Op::Concat => {
                let lw = n.b.w;
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let l = self.extract(n.b, lo, lw - lo); let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = n.a.w;
                if lo >= iw { return self.kconst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let e = self.extract(n.a, lo, iw - lo); return self.zext(e, w);
            }
            Op::SExt => {
                let iw = n.a.w;
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw { let e = self.extract(n.a, lo, iw - lo); return self.sext(e, w); }
                let e = self.extract(n.a, iw - 1, 1); return self.sext(e, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            Op::Ite => { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return match n.op { Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), _ => self.mul(x, y) };
            }
            _ => {}
        }
        if a.w <= 64 && lo == 0 && false { }
        self.fin(Op::Extract, w, a, k(lo as u64, 32), Z)
    }
    pub fn trunc(&mut self, a: BV, w: u32) -> BV { self.extract(a, 0, w) }
    pub fn zext(&mut self, a: BV, w: u32) -> BV {
        if a.w == w { return a; }
        if let Some(x) = self.konst(a) { return self.kconst(x, w); }
        let n = *self.n(a);
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Ite && self.konst(n.b).is_some() && self.konst(n.c).is_some() && a.w > 1 { let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y); }
        self.fin(Op::ZExt, w, a, Z, Z)
    }
    pub fn sext(&mut self, a: BV, w: u32) -> BV {
        if a.w == w { return a; }
        if let Some(x) = self.konst(a) { return self.kconst(Self::sx(x, a.w) as u128 & mask128(w), w); }
        if a.w <= 64 && self.kb(a).0 >> (a.w - 1) & 1 == 1 { return self.zext(a, w); }
        let n = *self.n(a);
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.fin(Op::SExt, w, a, Z, Z)
    }
    pub fn concat(&mut self, h: BV, l: BV) -> BV {
        let w = h.w + l.w;
        if let (Some(x), Some(y)) = (self.konst(h), self.konst(l)) { return self.kconst(x << l.w | y, w); }
        if self.konst(h) == Some(0) { return self.zext(l, w); }
        if self.opof(h) == Some(Op::ZExt) { let n = *self.n(h); let t = self.concat(n.a, l); return self.zext(t, w); }
        if self.opof(h) == Some(Op::Concat) { let n = *self.n(h); let t = self.concat(n.b, l); return self.concat(n.a, t); }
        if self.opof(h) == Some(Op::Extract) {
            let n = *self.n(h);
            let (lh, ll) = if self.opof(l) == Some(Op::Concat) { let m = *self.n(l); (m.a, Some(m.b)) } else { (l, None) };
            let whole = if n.b.c == lh.w as u64 && lh == n.a { None } else if self.opof(lh) == Some(Op::Extract) {
                let m = *self.n(lh);
                if m.a == n.a && m.b.c + lh.w as u64 == n.b.c { Some((m.a, m.b.c as u32)) } else { None }
            } else { None };
            if let Some((x, lo)) = whole {
                let e = self.extract(x, lo, h.w + lh.w);
                return match ll { Some(r) => self.concat(e, r), None => e };
            }
        }
        self.fin(Op::Concat, w, h, l, Z)
    }
    pub fn not(&mut self, a: BV) -> BV {
        if a.w == 1 { return self.eq(a, k(0, 1)); }
        let m = self.kconst(mask128(a.w), a.w); self.xor(a, m)
    }
    pub fn eq(&mut self, a: BV, b: BV) -> BV {
        if a == b { return k(1, 1); }
        let w = a.w;
        debug_assert_eq!(a.w, b.w);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return k((x == y) as u64, 1); }
        let (a, b) = if self.konst(a).is_some() { (b, a) } else { (a, b) };
        if w <= 64 {
            let (x, y) = (self.kb(a), self.kb(b));
            if (x.0 & y.1) | (x.1 & y.0) != 0 { return k(0, 1); }
            let (r, s) = (self.range(a), self.range(b));
            if r.1 < s.0 || s.1 < r.0 { return k(0, 1); }
        }
        let n = *self.n(a);
        if let Some(y) = self.konst(b) {
            if w == 1 {
                if y == 1 { return a; }
                if n.op == Op::Eq && n.b == k(0, 1) { return n.a; }
            }
            match n.op {
                Op::ZExt => { if y >> n.a.w != 0 { return k(0, 1); } let c = self.kconst(y, n.a.w); return self.eq(n.a, c); }
                Op::SExt => { let c = self.kconst(y & mask128(n.a.w), n.a.w);
                    let back = self.sext(c, w); if back != b { return k(0, 1); } return self.eq(n.a, c); }
                Op::Concat => {
                    let lw = n.b.w;
                    let ch = self.kconst(y >> lw, n.a.w); let cl = self.kconst(y & mask128(lw), lw);
                    let x = self.eq(n.a, ch); if x == k(0, 1) { return x; } let z = self.eq(n.b, cl);
                    return self.and(x, z);
                }
                Op::Ite => {
                    let x = self.eq(n.b, b); let z = self.eq(n.c, b);
                    if x.is_c() || z.is_c() { return self.ite(n.a, x, z); }
                }
                Op::Add => if let Some(c) = self.konst(n.b) { let t = self.kconst(y.wrapping_sub(c) & mask128(w), w); return self.eq(n.a, t); },
                Op::Sub => if let Some(c) = self.konst(n.a) { let t = self.kconst(c.wrapping_sub(y) & mask128(w), w); return self.eq(n.b, t); }
                    else if y == 0 { return self.eq(n.a, n.b); },
                Op::Xor => if let Some(c) = self.konst(n.b) { let t = self.kconst(y ^ c, w); return self.eq(n.a, t); }
                    else if y == 0 { return self.eq(n.a, n.b); },
                Op::Or if y == 0 => { let x = self.eq(n.a, b); let z = self.eq(n.b, b); return self.and(x, z); }
                _ => {}
            }
        } else {
            let m = *self.n(b);
            if n.op == Op::ZExt && m.op == Op::ZExt {
                let t = n.a.w.max(m.a.w); let x = self.zext(n.a, t); let y = self.zext(m.a, t); return self.eq(x, y);
            }
            if n.op == Op::Concat && m.op == Op::Concat && n.b.w == m.b.w { let x = self.eq(n.a, m.a); let y = self.eq(n.b, m.b); return self.and(x, y); }
            if n.op == Op::Add && m.op == Op::Add && n.b == m.b { return self.eq(n.a, m.a); }
        }
        let (a, b) = if self.konst(b).is_none() && self.hash(b) < self.hash(a) { (b, a) } else { (a, b) };
        self.fin(Op::Eq, 1, a, b, Z)
    }
    pub fn ne(&mut self, a: BV, b: BV) -> BV { let e = self.eq(a, b); self.not(e) }
    pub fn ult(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if a == b { return k(0, 1); }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return k((x < y) as u64, 1); }
        if self.konst(b) == Some(0) { return k(0, 1); }
        if w == 1 { let x = self.not(a); return self.and(x, b); }
        if w <= 64 {
            let (r, s) = (self.range(a), self.range(b));
            if r.1 < s.0 { return k(1, 1); }
            if r.0 >= s.1 { return k(0, 1); }
            // single boundary values
            if b.is_c() && r.0 + 1 == b.c { return self.eq(a, k(r.0, w)); }
            if a.is_c() && s.1 == a.c + 1 { return self.eq(b, k(s.1, w)); }
            if b.is_c() && r.1 == b.c { let e = self.eq(a, b); return self.not(e); }
            if a.is_c() && s.0 == a.c { let e = self.eq(a, b); return self.not(e); }
        }
        let na = if a.id != 0 { Some(*self.n(a)) } else { None };
        let nb = if b.id != 0 { Some(*self.n(b)) } else { None };
        match (na, nb) {
            (Some(x), Some(y)) if x.op == Op::ZExt && y.op == Op::ZExt => {
                let t = x.a.w.max(y.a.w); let p = self.zext(x.a, t); let q = self.zext(y.a, t); return self.ult(p, q);
            }
            (Some(x), _) if x.op == Op::ZExt && self.konst(b).is_some() => {
                let y = self.konst(b).unwrap();
                if y >> x.a.w != 0 { return k(1, 1); }
                let c = self.kconst(y, x.a.w); return self.ult(x.a, c);
            }
            (_, Some(y)) if y.op == Op::ZExt && self.konst(a).is_some() => {
                let x = self.konst(a).unwrap();
                if x >> y.a.w != 0 { return k(0, 1); }
                let c = self.kconst(x, y.a.w); return self.ult(c, y.a);
            }
            (Some(x), _) if x.op == Op::Ite && self.konst(b).is_some() => {
                let p = self.ult(x.b, b); let q = self.ult(x.c, b);
                if p.is_c() || q.is_c() { return self.ite(x.a, p, q); }
            }
            (_, Some(y)) if y.op == Op::Ite && self.konst(a).is_some() => {
                let p = self.ult(a, y.b); let q = self.ult(a, y.c);
                if p.is_c() || q.is_c() { return self.ite(y.a, p, q); }
            }
            _ => {}
        }
        self.fin(Op::Ult, 1, a, b, Z)
    }
    pub fn ule(&mut self, a: BV, b: BV) -> BV { let t = self.ult(b, a); self.not(t) }
    pub fn slt(&mut self, a: BV, b: BV) -> BV {
        let w = a.w;
        if a == b { return k(0, 1); }
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) { return k((Self::sx(x, w) < Self::sx(y, w)) as u64, 1); }
        if w == 1 { let x = self.not(b); return self.and(a, x); }
        if self.konst(b) == Some(0) { return self.extract(a, w - 1, 1); }
        if self.konst(a) == Some(mask128(w)) { let e = self.extract(b, w - 1, 1); return self.not(e); }
        if w <= 64 {
            let (x, y) = (self.kb(a), self.kb(b)); let s = 1u64 << (w - 1);
            if (x.0 & s != 0 && y.0 & s != 0) || (x.1 & s != 0 && y.1 & s != 0) { return self.ult(a, b); }
            if x.1 & s != 0 && y.0 & s != 0 { return k(1, 1); }
            if x.0 & s != 0 && y.1 & s != 0 { return k(0, 1); }
        }
        let nb = |s: &Self, x: BV| if x.id != 0 && s.n(x).op == Op::SExt { Some(s.n(x).a) } else { None };
        if let (Some(x), Some(c)) = (nb(self, a), self.konst(b)) {
            let t = self.kconst(c & mask128(x.w), x.w); if self.sext(t, w) == b { return self.slt(x, t); }
        }
        if let (Some(c), Some(y)) = (self.konst(a), nb(self, b)) {
            let t = self.kconst(c & mask128(y.w), y.w); if self.sext(t, w) == a { return self.slt(t, y); }
        }
        self.fin(Op::Slt, 1, a, b, Z)
    }
    pub fn ite(&mut self, c: BV, a: BV, b: BV) -> BV {
        if c.id == 0 { return if c.c == 1 { a } else { b }; }
        if a == b { return a; }
        let n = *self.n(c);
        if n.op == Op::Eq && n.b == k(0, 1) { return self.ite(n.a, b, a); }
        if a.w == 1 {
            match (a.is_c().then_some(a.c), b.is_c().then_some(b.c)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let t = self.not(c); return self.and(t, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let t = self.not(c); return self.or(t, a); }
                _ => {}
            }
        }
        if a.id != 0 { let m = *self.n(a); if m.op == Op::Ite && m.a == c { return self.ite(c, m.b, b); } if m.op == Op::Ite && m.c == b { let d = self.and(c, m.a); return self.ite(d, m.b, b); } }
        if b.id != 0 { let m = *self.n(b); if m.op == Op::Ite && m.a == c { return self.ite(c, a, m.c); } if m.op == Op::Ite && m.b == a { let d = self.or(c, m.a); return self.ite(d, a, m.c); } }
        self.fin(Op::Ite, a.w, c, a, b)
    }
    pub fn umin(&mut self, a: BV, b: BV) -> BV { let c = self.ult(a, b); self.ite(c, a, b) }
    pub fn umax(&mut self, a: BV, b: BV) -> BV { let c = self.ult(a, b); self.ite(c, b, a) }
    pub fn ctpop(&mut self, a: BV) -> BV {
        let w = a.w;
        let mut r = self.kconst(0, w);
        for i in 0..w { let b = self.extract(a, i, 1); let z = self.zext(b, w); r = self.add(r, z); }
        r
    }
    pub fn ctlz(&mut self, a: BV) -> BV {
        let w = a.w;
        let mut r = self.kconst(w as u128, w);
        for i in 0..w { let b = self.extract(a, i, 1); let v = self.kconst((w - 1 - i) as u128, w); r = self.ite(b, v, r); }
        r
    }
    pub fn cttz(&mut self, a: BV) -> BV {
        let w = a.w;
        let mut r = self.kconst(w as u128, w);
        for i in (0..w).rev() { let b = self.extract(a, i, 1); let v = self.kconst(i as u128, w); r = self.ite(b, v, r); }
        r
    }
    pub fn bswap(&mut self, a: BV) -> BV {
        let mut r = self.extract(a, 0, 8);
        for i in 1..a.w / 8 { let b = self.extract(a, i * 8, 8); r = self.concat(r, b); }
        r
    }
    pub fn bitreverse(&mut self, a: BV) -> BV {
        let mut r = self.extract(a, 0, 1);
        for i in 1..a.w { let b = self.extract(a, i, 1); r = self.concat(r, b); }
        r
    }

    /// Value under an assignment of the variables.
    pub fn eval(&mut self, b: BV, m: &[u8]) -> u128 {
        if b.id == 0 { return b.c as u128; }
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 { for s in self.stamp.iter_mut() { *s = 0; } self.cur = 1; }
        self.ev(b, m)
    }
    fn ev(&mut self, b: BV, m: &[u8]) -> u128 {
        if b.id == 0 { return b.c as u128; }
        let i = b.id as usize;
        if self.stamp[i] == self.cur { return self.val[i]; }
        let n = self.nodes[i];
        let w = n.w; let mw = mask128(w);
        let r = match n.op {
            Op::Var => *m.get(n.a.c as usize).unwrap_or(&0) as u128,
            Op::Const => n.a.c as u128 | (n.b.c as u128) << 64,
            Op::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => Self::sx(self.ev(n.a, m), n.a.w) as u128 & mw,
            Op::Extract => (self.ev(n.a, m) >> n.b.c) & mw,
            _ => {
                let x = self.ev(n.a, m); let y = self.ev(n.b, m);
                let aw = n.a.w;
                match n.op {
                    Op::Add => x.wrapping_add(y) & mw, Op::Sub => x.wrapping_sub(y) & mw, Op::Mul => x.wrapping_mul(y) & mw,
                    Op::UDiv => if y == 0 { mw } else { x / y }, Op::URem => if y == 0 { x } else { x % y },
                    Op::SDiv => { let (p, q) = (Self::sx(x, aw), Self::sx(y, aw)); (if q == 0 { if p >= 0 { -1 } else { 1 } } else { p.wrapping_div(q) }) as u128 & mw }
                    Op::SRem => { let (p, q) = (Self::sx(x, aw), Self::sx(y, aw)); (if q == 0 { p } else { p.wrapping_rem(q) }) as u128 & mw }
                    Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u128 { 0 } else { (x << y) & mw },
                    Op::LShr => if y >= w as u128 { 0 } else { x >> y },
                    Op::AShr => { let s = y.min(w as u128 - 1); (Self::sx(x, w) >> s) as u128 & mw }
                    Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Slt => (Self::sx(x, aw) < Self::sx(y, aw)) as u128,
                    Op::Concat => x << n.b.w | y,
                    _ => unreachable!(),
                }
            }
        };
        self.stamp[i] = self.cur; self.val[i] = r;
        r
    }

    /// Rebuild with some nodes replaced by constants.
    pub fn subst(&mut self, b: BV, eqs: &FxMap<u32, u64>, emask: u128, memo: &mut FxMap<u32, BV>) -> BV {
        if b.id == 0 { return b; }
        if self.vmask(b) & emask == 0 { return b; }
        if let Some(&c) = eqs.get(&b.id) { return k(c, b.w); }
        if let Some(&r) = memo.get(&b.id) { return r; }
        let n = *self.n(b);
        let r = match n.op {
            Op::Var | Op::Const => b,
            _ => {
                let x = self.subst(n.a, eqs, emask, memo); let y = self.subst(n.b, eqs, emask, memo); let z = self.subst(n.c, eqs, emask, memo);
                if x == n.a && y == n.b && z == n.c { b } else { self.build(n.op, n.w, x, y, z) }
            }
        };
        let r = if r.id != 0 && r != b { eqs.get(&r.id).map(|&c| k(c, r.w)).unwrap_or(r) } else { r };
        memo.insert(b.id, r);
        r
    }
    pub fn build(&mut self, op: Op, w: u32, x: BV, y: BV, z: BV) -> BV {
        match op {
            Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), Op::Mul => self.mul(x, y), Op::UDiv => self.udiv(x, y), Op::URem => self.urem(x, y),
            Op::SDiv => self.sdiv(x, y), Op::SRem => self.srem(x, y), Op::And => self.and(x, y), Op::Or => self.or(x, y), Op::Xor => self.xor(x, y),
            Op::Shl => self.shl(x, y), Op::LShr => self.lshr(x, y), Op::AShr => self.ashr(x, y), Op::Eq => self.eq(x, y), Op::Ult => self.ult(x, y),
            Op::Slt => self.slt(x, y), Op::Ite => self.ite(x, y, z), Op::ZExt => self.zext(x, w), Op::SExt => self.sext(x, w),
            Op::Extract => self.extract(x, y.c as u32, w), Op::Concat => self.concat(x, y), Op::Var | Op::Const => unreachable!(),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct R(u64);
    impl R { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 } }
    /// The simplifier against direct evaluation of the unsimplified operation, on random terms.
    #[test]
    fn simplifier_agrees_with_evaluation() {
        let mut r = R(0x9E3779B97F4A7C15);
        for round in 0..3000u64 {
            let mut a = Arena::new();
            let mut pool: Vec<BV> = (0..4).map(|i| a.var(i)).collect();
            let m: Vec<Vec<u8>> = (0..6).map(|_| (0..4).map(|_| match r.n() % 4 { 0 => 0, 1 => 255, 2 => (r.n() % 3) as u8, _ => r.n() as u8 }).collect()).collect();
            for _ in 0..40 {
                let ws = [1u32, 7, 8, 16, 32, 56, 64, 128];
                let w = ws[(r.n() % 8) as usize];
                let pick = |a: &mut Arena, r: &mut R, w: u32| -> BV {
                    if r.n() % 5 == 0 { let v = match r.n() % 4 { 0 => 0, 1 => mask128(w), 2 => (1u128 << (r.n() % w as u64)) - (r.n() & 1) as u128, _ => r.n() as u128 | (r.n() as u128) << 64 }; return a.kconst(v & mask128(w), w); }
                    let x = pool[(r.n() % pool.len() as u64) as usize];
                    if x.w == w { x } else if x.w < w { if r.n() & 1 == 0 { a.zext(x, w) } else { a.sext(x, w) } } else { let lo = r.n() as u32 % (x.w - w + 1); a.extract(x, lo, w) }
                };
                let (x, y) = (pick(&mut a, &mut r, w), pick(&mut a, &mut r, w));
                let c = pick(&mut a, &mut r, 1);
                let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Slt, Op::Ite, Op::Concat, Op::Extract, Op::ZExt, Op::SExt, Op::SDiv, Op::SRem];
                let op = ops[(r.n() % ops.len() as u64) as usize];
                let (rw, p, q, z) = match op {
                    Op::Eq | Op::Ult | Op::Slt => (1, x, y, Z),
                    Op::Ite => (w, c, x, y),
                    Op::Concat => { if w > 64 { continue } (2 * w, x, y, Z) }
                    Op::Extract => { let lo = r.n() as u32 % w; let ew = 1 + r.n() as u32 % (w - lo); (ew, x, k(lo as u64, 32), Z) }
                    Op::ZExt | Op::SExt => { if w == 128 { continue } (w + 1 + r.n() as u32 % (128 - w), x, Z, Z) }
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem => { if a.konst(y) == Some(0) { continue } (w, x, y, Z) }
                    _ => (w, x, y, Z),
                };
                let s = a.build(op, rw, p, q, z);
                assert_eq!(s.w, rw);
                let raw = a.raw(op, rw, p, q, z);
                for mm in &m {
                    let e1 = a.eval(s, mm);
                    let e2 = a.eval(raw, mm);
                    assert_eq!(e1, e2, "round {} op {:?} w {}", round, op, rw);
                    if rw <= 64 { for t in [s, raw] { let (lo, hi) = a.range(t); assert!(lo as u128 <= e1 && e1 <= hi as u128); let (kz, ko) = a.kb(t); assert!(e1 as u64 & kz == 0 && ko & !(e1 as u64) == 0); } }
                }
                pool.push(s);
            }
        }
    }
}
