//! Lazy reader of textual LLVM IR (the output of rustc for the harness crate with everything linked in).
use crate::expr::{mask, FxMap};
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, OnceLock};

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u32), Ptr, Flt(u32), Arr(u64, Arc<Ty>), Vec(u64, Arc<Ty>), Struct(Arc<Vec<Ty>>, bool), Other }
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8, Ty::Flt(w) => (*w as u64 / 8).next_power_of_two(), Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let s = (*w as u64 + 7) / 8; let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr => 8, Ty::Flt(w) => if *w == 80 { 16 } else { *w as u64 / 8 },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => if **t == Ty::Int(1) { (n + 7) / 8 } else { n * t.size() },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                let a = self.align(); (o + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o; }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty { match self { Ty::Struct(f, _) => &f[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("elem") } }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) | Ty::Flt(w) => *w, Ty::Ptr => 64, _ => panic!("bits of {:?}", self) } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Flt(_) | Ty::Ptr) }
    pub fn count(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => 0 } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum C { I(u128, u32), Agg(Vec<C>) }
#[derive(Clone, Debug)]
pub enum O { R(u32), C(u64, u32), K(Arc<C>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, Bit }

#[derive(Debug)]
pub enum Callee { Fn(u32), Ptr(O), Asm(String) }
#[derive(Debug)]
pub enum I {
    Bin(Bin, u32, O, O), Icmp(Pred, u32, O, O), Cast(Cast, u32, O, Ty, Ty), Gep(u32, O, i64, Vec<(O, u64)>),
    Load(u32, O, Ty), Store(O, Ty, O), Alloca(u32, u64), Call { d: Option<u32>, ty: Ty, f: Callee, args: Vec<O> },
    Select(u32, O, O, O), Extract(u32, O, Vec<u32>), Insert(u32, O, O, Vec<u32>, Ty), Shuffle(u32, O, O, Vec<i64>),
    InsElt(u32, O, O, O), ExtElt(u32, O, O), Rmw(String, u32, O, O, Ty), CmpXchg(u32, O, O, O, Ty), Freeze(u32, O), Pad(u32), Nop,
    Unsup(String),
    Br(u32), CBr(O, u32, u32), Switch(O, u32, Vec<(u64, u32)>), Ret(Option<O>), Unreachable, Resume,
}
#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub insts: Vec<(I, u32)>, pub seen: AtomicBool }
#[derive(Debug)]
pub struct Body { pub nregs: u32, pub blocks: Vec<Block>, pub nparams: u32 }
pub struct Func { pub name: String, pub dem: String, pub line: usize, pub defined: bool, pub body: OnceLock<Result<Body, String>> }
pub struct Global { pub name: String, pub line: usize, pub cnst: bool, pub size: u64, pub external: bool, pub init: OnceLock<Vec<u8>> }

pub struct Module {
    text: &'static str, lines: Vec<(usize, usize)>,
    pub funcs: Vec<Func>, pub globals: Vec<Global>,
    pub fmap: FxMap<&'static str, u32>, gmap: FxMap<&'static str, u32>, named: FxMap<&'static str, &'static str>,
    pub meta: FxMap<u32, &'static str>,
    pub functions_parsed: std::sync::atomic::AtomicUsize,
}

pub const GBASE: u64 = 1; // object ids of globals start here
pub const FBASE: u64 = 1 << 20; // object ids of functions
pub const HBASE: u64 = 1 << 21; // object ids of run-time objects
pub const OSH: u32 = 24;

struct Ps<'a> { m: &'a Module, s: &'static str, b: &'static [u8], i: usize, names: Option<&'a mut Names> }
struct Names { map: FxMap<&'static str, u32>, n: u32, blocks: FxMap<&'static str, u32> }
impl Names { fn get(&mut self, s: &'static str) -> u32 { let n = &mut self.n; *self.map.entry(s).or_insert_with(|| { *n += 1; *n - 1 }) } }

type R<T> = Result<T, String>;
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Ps<'a> {
    fn new(m: &'a Module, s: &'static str, names: Option<&'a mut Names>) -> Self { Ps { m, s, b: s.as_bytes(), i: 0, names } }
    fn ws(&mut self) { while self.i < self.b.len() && (self.b[self.i] == b' ' || self.b[self.i] == b'\n' || self.b[self.i] == b'\t') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.b.get(self.i).unwrap_or(&0) }
    fn at(&mut self, t: &str) -> bool { self.ws(); self.s[self.i..].starts_with(t) }
    fn eat(&mut self, t: &str) -> bool { if self.at(t) { self.i += t.len(); true } else { false } }
    fn kw(&mut self, t: &str) -> bool {
        if self.at(t) && !self.b.get(self.i + t.len()).map_or(false, |&c| idc(c)) { self.i += t.len(); true } else { false }
    }
    fn exp(&mut self, t: &str) -> R<()> { if self.eat(t) { Ok(()) } else { Err(format!("expected {} at {}", t, self.rest())) } }
    fn rest(&self) -> String { self.s[self.i..].chars().take(120).collect() }
    fn word(&mut self) -> &'static str { self.ws(); let st = self.i; while self.i < self.b.len() && idc(self.b[self.i]) { self.i += 1; } &self.s[st..self.i] }
    fn name(&mut self) -> &'static str {
        // after % or @
        if self.b[self.i] == b'"' { let st = self.i + 1; self.i = st; while self.b[self.i] != b'"' { self.i += 1; } self.i += 1; &self.s[st..self.i - 1] } else { self.word() }
    }
    fn balanced(&mut self) {
        self.ws();
        let (mut d, mut q) = (0, false);
        while self.i < self.b.len() {
            match self.b[self.i] { b'"' => q = !q, b'(' | b'[' | b'{' if !q => d += 1, b')' | b']' | b'}' if !q => { d -= 1; if d == 0 { self.i += 1; return; } } _ => {} }
            self.i += 1;
        }
    }
    fn int(&mut self) -> R<i128> {
        self.ws(); let st = self.i;
        if self.b.get(self.i) == Some(&b'-') { self.i += 1; }
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { self.i += 1; }
        self.s[st..self.i].parse::<i128>().map_err(|_| format!("int at {}", &self.s[st..].chars().take(60).collect::<String>()))
    }
    fn is_ty(&mut self) -> bool {
        let c = self.peek();
        if c == b'[' || c == b'<' || c == b'{' || c == b'%' { return true; }
        for t in ["void", "ptr", "float", "double", "x86_fp80", "half", "label", "metadata", "token", "fp128"] { let i = self.i; if self.kw(t) { self.i = i; return true; } }
        if c == b'i' { let mut j = self.i + 1; let st = j; while j < self.b.len() && self.b[j].is_ascii_digit() { j += 1; } return j > st && !self.b.get(j).map_or(false, |&c| idc(c)); }
        false
    }
    fn ty(&mut self) -> R<Ty> {
        match self.peek() {
            b'[' => { self.i += 1; let n = self.int()? as u64; self.exp("x")?; let t = self.ty()?; self.exp("]")?; return Ok(Ty::Arr(n, Arc::new(t))); }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { let t = self.fields()?; self.exp(">")?; return Ok(Ty::Struct(Arc::new(t), true)); }
                let n = self.int()? as u64; self.exp("x")?; let t = self.ty()?; self.exp(">")?; return Ok(Ty::Vec(n, Arc::new(t)));
            }
            b'{' => { let t = self.fields()?; return Ok(Ty::Struct(Arc::new(t), false)); }
            b'%' => { self.i += 1; let n = self.name(); let d = *self.m.named.get(n).ok_or("named type")?; return Ps::new(self.m, d, None).ty(); }
            _ => {}
        }
        let w = self.word();
        Ok(match w {
            "void" => Ty::Void, "ptr" => Ty::Ptr, "half" => Ty::Flt(16), "float" => Ty::Flt(32), "double" => Ty::Flt(64), "x86_fp80" => Ty::Flt(80), "fp128" => Ty::Flt(128),
            "label" | "metadata" | "token" | "opaque" => Ty::Other,
            _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
            _ => return Err(format!("type '{}' at {}", w, self.rest())),
        })
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        self.exp("{")?; let mut v = vec![];
        if self.eat("}") { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat("}") { return Ok(v); } self.exp(",")?; }
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_lowercase() && c != b'"' { return; }
            if c == b'"' { self.i += 1; while self.b[self.i] != b'"' { self.i += 1; } self.i += 1; if self.eat("=") { self.i += 1; while self.b[self.i] != b'"' { self.i += 1; } self.i += 1; } continue; }
            if self.is_ty() { return; }
            let st = self.i; let w = self.word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "mul" | "xor" | "or" | "and" | "shl"
                | "splat" | "none" | "blockaddress" | "asm" | "c" | "addrspacecast" | "ptrtoaddr" => { self.i = st; return; }
                "align" | "cc" => { if self.peek() == b'(' { self.balanced() } else { let _ = self.int(); } }
                _ => { if self.b.get(self.i) == Some(&b'(') { self.balanced() } }
            }
        }
    }
    fn zero(t: &Ty) -> C { match t { Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => C::Agg((0..t.count()).map(|i| Self::zero(t.elem(i))).collect()), Ty::Void | Ty::Other => C::I(0, 1), _ => C::I(0, t.bits()) } }
    fn cval(&mut self, t: &Ty) -> R<C> {
        match self.op(t)? { O::C(v, w) => Ok(C::I(v as u128, w)), O::K(c) => Ok((*c).clone()), O::R(_) => Err("register in constant".into()) }
    }
    fn mk(c: C) -> O { match c { C::I(v, w) if w <= 64 => O::C(v as u64 & mask(w), w), c => O::K(Arc::new(c)) } }
    fn tyval(&mut self) -> R<(Ty, O)> { let t = self.ty()?; self.attrs(); let o = self.op(&t)?; Ok((t, o)) }
    fn op(&mut self, t: &Ty) -> R<O> {
        let c = self.peek();
        match c {
            b'%' => { self.i += 1; let n = self.name(); let nm = self.names.as_mut().ok_or("local in constant")?; return Ok(O::R(nm.get(n))); }
            b'@' => { self.i += 1; let n = self.name(); return Ok(O::C(self.m.addr_of(n).ok_or_else(|| format!("global {}", n))?, 64)); }
            b'-' | b'0'..=b'9' => {
                if let Ty::Flt(w) = t {
                    let st = self.i; while self.i < self.b.len() && (idc(self.b[self.i]) || self.b[self.i] == b'+') { self.i += 1; }
                    let tx = &self.s[st..self.i];
                    let d = if tx.starts_with("0x") { u64::from_str_radix(tx[2..].trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0) } else { tx.parse::<f64>().unwrap_or(0.0).to_bits() };
                    let v = if *w == 32 { (f64::from_bits(d) as f32).to_bits() as u64 } else { d };
                    return Ok(Self::mk(C::I(v as u128, *w)));
                }
                let v = self.int()?; let w = t.bits();
                return Ok(Self::mk(C::I(v as u128 & crate::expr::mask128(w), w)));
            }
            b'[' | b'{' | b'<' => {
                let packed = c == b'<' && self.b[self.i + 1] == b'{';
                self.i += if packed { 2 } else { 1 };
                let close = match c { b'[' => "]", b'{' => "}", _ => if packed { "}>" } else { ">" } };
                let mut v = vec![];
                if self.eat(close) { return Ok(O::K(Arc::new(C::Agg(v)))); }
                loop { let t = self.ty()?; v.push(self.cval(&t)?); if self.eat(close) { break; } self.exp(",")?; }
                return Ok(O::K(Arc::new(C::Agg(v))));
            }
            b'c' if self.b.get(self.i + 1) == Some(&b'"') => {
                self.i += 2; let mut v = vec![];
                while self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' && self.b[self.i + 1] == b'\\' { v.push(C::I(b'\\' as u128, 8)); self.i += 2; }
                    else if self.b[self.i] == b'\\' { let h = u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).map_err(|_| "esc")?; v.push(C::I(h as u128, 8)); self.i += 3; }
                    else { v.push(C::I(self.b[self.i] as u128, 8)); self.i += 1; }
                }
                self.i += 1;
                return Ok(O::K(Arc::new(C::Agg(v))));
            }
            _ => {}
        }
        let st = self.i;
        let w = self.word();
        match w {
            "true" => Ok(O::C(1, 1)), "false" => Ok(O::C(0, 1)), "null" => Ok(O::C(0, 64)),
            "undef" | "poison" | "zeroinitializer" | "none" => Ok(Self::mk(Self::zero(t))),
            "splat" => { self.exp("(")?; let (_, _) = (0, 0); let et = self.ty()?; let v = self.cval(&et)?; self.exp(")")?; Ok(O::K(Arc::new(C::Agg(vec![v; t.count()])))) }
            "getelementptr" => {
                loop { if self.kw("inbounds") || self.kw("nuw") || self.kw("nusw") { continue; } if self.at("inrange") { self.word(); self.balanced(); continue; } break; }
                self.exp("(")?;
                let et = self.ty()?; self.exp(",")?;
                let bt = self.ty()?; let base = self.cval(&bt)?;
                let mut a = match base { C::I(v, _) => v as u64, _ => return Err("gep base".into()) };
                let mut cur = et; let mut first = true;
                while self.eat(",") {
                    let it = self.ty()?; let iv = match self.cval(&it)? { C::I(v, w) => crate::expr::Arena::sx(v, w) as i64, _ => return Err("idx".into()) };
                    if first { a = a.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false; } else { a = a.wrapping_add(cur.field_off(iv as usize)); let n = cur.elem(iv as usize).clone(); cur = n; }
                }
                self.exp(")")?;
                Ok(O::C(a, 64))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                while self.kw("nuw") || self.kw("nsw") {}
                self.exp("(")?; let ft = self.ty()?; let v = self.cval(&ft)?; if !self.kw("to") { return Err("to".into()); } let tt = self.ty()?; self.exp(")")?;
                match v { C::I(v, _) => { let op = w; let w = tt.bits();
                    // an entry of a relative table: kept as the difference of the object numbers, which load.relative undoes
                    if op == "trunc" && w == 32 && ft.bits() == 64 { if v & ((1 << OSH) - 1) != 0 { return Err("relative table entry".into()); } return Ok(Self::mk(C::I((((v as u64) as i64 >> OSH) as u32) as u128, 32))); }
                    Ok(Self::mk(C::I(v & crate::expr::mask128(w), w))) } _ => Err("cast agg".into()) }
            }
            "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" => {
                while self.kw("nuw") || self.kw("nsw") {}
                self.exp("(")?; let t1 = self.ty()?; let a = self.cval(&t1)?; self.exp(",")?; let t2 = self.ty()?; let b = self.cval(&t2)?; self.exp(")")?;
                match (a, b) { (C::I(a, wd), C::I(b, _)) => { let r = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, "mul" => a.wrapping_mul(b), _ => a << b };
                    Ok(Self::mk(C::I(r & crate::expr::mask128(wd), wd))) } _ => Err("const bin".into()) }
            }
            _ => { self.i = st; Err(format!("operand at {}", self.rest())) }
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.kw("label") { return Err(format!("label at {}", self.rest())); }
        self.exp("%")?; let n = self.name();
        let nm = self.names.as_mut().unwrap();
        nm.blocks.get(n).copied().ok_or_else(|| format!("block {}", n))
    }
    fn dbg(&self) -> u32 {
        match self.s.rfind("!dbg !") { Some(p) => { let t = &self.s[p + 6..]; let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len()); t[..e].parse().unwrap_or(0) } None => 0 }
    }
    fn inst(&mut self) -> R<I> {
        let mut d: Option<u32> = None;
        if self.peek() == b'%' {
            self.i += 1; let n = self.name(); self.exp("=")?;
            d = Some(self.names.as_mut().unwrap().get(n));
        }
        loop { if self.kw("tail") || self.kw("musttail") || self.kw("notail") { continue; } break; }
        let w = self.word();
        let dd = d.unwrap_or(u32::MAX);
        let bin = |w: &str| Some(match w { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, _ => return None });
        if let Some(b) = bin(w) {
            while self.kw("nuw") || self.kw("nsw") || self.kw("exact") || self.kw("disjoint") {}
            let t = self.ty()?; let x = self.op(&t)?; self.exp(",")?; let y = self.op(&t)?;
            return Ok(I::Bin(b, dd, x, y));
        }
        Ok(match w {
            "icmp" => {
                while self.kw("samesign") {}
                let p = match self.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                let t = self.ty()?; let x = self.op(&t)?; self.exp(",")?; let y = self.op(&t)?;
                I::Icmp(p, dd, x, y)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                while self.kw("nuw") || self.kw("nsw") || self.kw("nneg") {}
                let ft = self.ty()?; let x = self.op(&ft)?; if !self.kw("to") { return Err("to".into()); } let tt = self.ty()?;
                let cst = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" => Cast::Bit, _ => { let (a, b) = (ft.bits(), tt.bits()); if a > b { Cast::Trunc } else { Cast::ZExt } } };
                I::Cast(cst, dd, x, ft, tt)
            }
            "getelementptr" => {
                while self.kw("inbounds") || self.kw("nuw") || self.kw("nusw") {}
                let et = self.ty()?; self.exp(",")?;
                let (bt, base) = self.tyval()?;
                if bt != Ty::Ptr { return Ok(I::Unsup("vector gep".into())); }
                let mut off = 0i64; let mut v = vec![]; let mut cur = et; let mut first = true;
                while self.peek() == b',' {
                    let save = self.i; self.i += 1; if self.peek() == b'!' { self.i = save; break; }
                    let (_, io) = self.tyval()?;
                    match io {
                        O::C(c, w) => { let iv = crate::expr::Arena::sx(c as u128, w) as i64;
                            if first { off = off.wrapping_add(iv.wrapping_mul(cur.size() as i64)); } else { off = off.wrapping_add(match &cur { Ty::Struct(..) => cur.field_off(iv as usize) as i64, t => (t.elem(0).size() as i64).wrapping_mul(iv) }); let n = cur.elem(if matches!(cur, Ty::Struct(..)) { iv as usize } else { 0 }).clone(); cur = n; } }
                        o => { if first { v.push((o, cur.size())); } else { let n = cur.elem(0).clone(); v.push((o, n.size())); cur = n; } }
                    }
                    first = false;
                }
                I::Gep(dd, base, off, v)
            }
            "load" => { while self.kw("atomic") || self.kw("volatile") {} let t = self.ty()?; self.exp(",")?; let (_, p) = self.tyval()?; I::Load(dd, p, t) }
            "store" => { while self.kw("atomic") || self.kw("volatile") {} let (t, v) = self.tyval()?; self.exp(",")?; let (_, p) = self.tyval()?; I::Store(v, t, p) }
            "alloca" => {
                let t = self.ty()?; let mut n = 1;
                if self.eat(",") { if self.is_ty() { let (_, c) = self.tyval()?; match c { O::C(c, _) => n = c, _ => return Ok(I::Unsup("dynamic alloca".into())) } } }
                I::Alloca(dd, t.size() * n)
            }
            "select" => { let (t, c) = self.tyval()?; self.exp(",")?; let (_, x) = self.tyval()?; self.exp(",")?; let (_, y) = self.tyval()?; let _ = t; I::Select(dd, c, x, y) }
            "freeze" => { let (_, x) = self.tyval()?; I::Freeze(dd, x) }
            "extractvalue" => { let (_, a) = self.tyval()?; let mut ix = vec![]; while self.peek() == b',' { let s = self.i; self.i += 1; if self.peek() == b'!' { self.i = s; break; } ix.push(self.int()? as u32); } I::Extract(dd, a, ix) }
            "insertvalue" => { let (t, a) = self.tyval()?; self.exp(",")?; let (_, v) = self.tyval()?; let mut ix = vec![]; while self.peek() == b',' { let s = self.i; self.i += 1; if self.peek() == b'!' { self.i = s; break; } ix.push(self.int()? as u32); } I::Insert(dd, a, v, ix, t) }
            "shufflevector" => {
                let (_, a) = self.tyval()?; self.exp(",")?; let (_, b) = self.tyval()?; self.exp(",")?; let mt = self.ty()?;
                let m = match self.cval(&mt)? { C::Agg(v) => v.into_iter().map(|c| match c { C::I(v, _) => v as i64, _ => 0 }).collect(), _ => return Err("mask".into()) };
                I::Shuffle(dd, a, b, m)
            }
            "insertelement" => { let (_, a) = self.tyval()?; self.exp(",")?; let (_, v) = self.tyval()?; self.exp(",")?; let (_, i) = self.tyval()?; I::InsElt(dd, a, v, i) }
            "extractelement" => { let (_, a) = self.tyval()?; self.exp(",")?; let (_, i) = self.tyval()?; I::ExtElt(dd, a, i) }
            "atomicrmw" => { while self.kw("volatile") {} let o = self.word().to_string(); let (_, p) = self.tyval()?; self.exp(",")?; let (t, v) = self.tyval()?; I::Rmw(o, dd, p, v, t) }
            "cmpxchg" => { while self.kw("weak") || self.kw("volatile") {} let (_, p) = self.tyval()?; self.exp(",")?; let (t, c) = self.tyval()?; self.exp(",")?; let (_, n) = self.tyval()?; I::CmpXchg(dd, p, c, n, t) }
            "fence" => I::Nop,
            "landingpad" | "cleanuppad" | "catchpad" | "catchswitch" => I::Pad(dd),
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            "ret" => { if self.kw("void") { I::Ret(None) } else { let (_, v) = self.tyval()?; I::Ret(Some(v)) } }
            "br" => { if self.at("label") { I::Br(self.label()?) } else { let (_, c) = self.tyval()?; self.exp(",")?; let t = self.label()?; self.exp(",")?; let f = self.label()?; I::CBr(c, t, f) } }
            "switch" => {
                let (_, v) = self.tyval()?; self.exp(",")?; let def = self.label()?; self.exp("[")?; let mut cs = vec![];
                while !self.eat("]") { let (_, c) = self.tyval()?; self.exp(",")?; let l = self.label()?; match c { O::C(c, _) => cs.push((c, l)), _ => return Err("wide switch".into()) } }
                I::Switch(v, def, cs)
            }
            "call" | "invoke" => {
                self.attrs();
                while !self.is_ty() { let st = self.i; self.attrs(); if self.i == st { return Err(format!("call at {}", self.rest())); } }
                let ty = self.ty()?;
                if self.peek() == b'(' { self.balanced(); }
                self.ws();
                let f = if self.kw("asm") {
                    while self.kw("sideeffect") || self.kw("alignstack") || self.kw("inteldialect") || self.kw("unwind") {}
                    let st = self.i; self.i += 1; while self.b[self.i] != b'"' { self.i += 1; } self.i += 1; self.exp(",")?; self.ws(); self.i += 1; while self.b[self.i] != b'"' { self.i += 1; } self.i += 1;
                    Callee::Asm(self.s[st..self.i].to_string())
                } else if self.peek() == b'@' { self.i += 1; let n = self.name(); Callee::Fn(*self.m.fmap.get(n).ok_or_else(|| format!("function {}", n))?) }
                else { Callee::Ptr(self.op(&Ty::Ptr)?) };
                self.exp("(")?;
                let mut args = vec![];
                if !self.eat(")") {
                    loop {
                        let t = self.ty()?; self.attrs();
                        if t == Ty::Other {
                            // metadata operand: skip to the matching , or )
                            let mut dpt = 0;
                            while self.i < self.b.len() { match self.b[self.i] { b'(' => dpt += 1, b')' if dpt == 0 => break, b')' => dpt -= 1, b',' if dpt == 0 => break, _ => {} } self.i += 1; }
                            args.push(O::C(0, 1));
                        } else { args.push(self.op(&t)?); }
                        if self.eat(")") { break; }
                        self.exp(",")?;
                    }
                }
                I::Call { d, ty, f, args }
            }
            _ => I::Unsup(format!("{} ({})", w, &self.s[..self.s.len().min(100)])),
        })
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(String::from_utf8_lossy(&std::fs::read(path).expect("read ir")).into_owned().into_boxed_str());
        let mut lines = vec![]; let mut st = 0;
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push((st, i)); st = i + 1; } }
        if st < text.len() { lines.push((st, text.len())); }
        let mut m = Module { text, lines, funcs: vec![], globals: vec![], fmap: FxMap::default(), gmap: FxMap::default(), named: FxMap::default(), meta: FxMap::default(), functions_parsed: Default::default() };
        let mut lastc = "";
        let mut infn = false;
        for i in 0..m.lines.len() {
            let l = m.line(i);
            let b = l.as_bytes();
            if infn { if l == "}" { infn = false; } continue; }
            if b.is_empty() { continue; }
            if b[0] == b';' { if !l.starts_with("; Function Attrs") { lastc = l[1..].trim(); } }
            else if b[0] == b'@' {
                let mut p = Ps::new(&m, l, None); p.i = 1; let name = p.name();
                let rest = &l[p.i..];
                let rest = rest.trim_start().trim_start_matches('=').trim_start();
                let gi = m.globals.len() as u32;
                let external = rest.starts_with("external") || rest.contains("extern_weak");
                m.globals.push(Global { name: name.to_string(), line: i, cnst: false, size: 0, external, init: OnceLock::new() });
                m.gmap.insert(name, gi);
            } else if l.starts_with("define") || l.starts_with("declare") {
                let def = l.starts_with("define");
                let at = l.find('@').unwrap(); let mut p = Ps::new(&m, l, None); p.i = at + 1; let name = p.name();
                let fi = m.funcs.len() as u32;
                m.funcs.push(Func { name: name.to_string(), dem: lastc.to_string(), line: i, defined: def, body: OnceLock::new() });
                m.fmap.insert(name, fi);
                lastc = "";
                infn = def;
            } else if b[0] == b'%' {
                let eq = l.find(" = type ").unwrap_or(0); if eq > 0 { m.named.insert(l[1..eq].trim_matches('"'), &l[eq + 8..]); }
            } else if b[0] == b'!' && b.len() > 1 && b[1].is_ascii_digit() {
                if l.contains("DILocation") || l.contains("DISubprogram") || l.contains("DILexicalBlock") || l.contains("DIFile") {
                    let e = l[1..].find(' ').unwrap() + 1; if let Ok(n) = l[1..e].parse::<u32>() { m.meta.insert(n, &l[e + 3..]); }
                }
            }
        }
        // sizes of globals
        for gi in 0..m.globals.len() {
            if m.globals[gi].external { continue; }
            let l = m.line(m.globals[gi].line);
            let (off, cnst) = match l.find(" constant ").map(|x| (x + 10, true)).into_iter().chain(l.find(" global ").map(|x| (x + 8, false))).min() { Some(x) => x, None => continue };
            let mut p = Ps::new(&m, l, None); p.i = off;
            let sz = p.ty().map(|t| t.size()).unwrap_or(0);
            m.globals[gi].size = sz; m.globals[gi].cnst = cnst;
        }
        m
    }
    fn line(&self, i: usize) -> &'static str { let (a, b) = self.lines[i]; &self.text[a..b] }
    pub fn addr_of(&self, n: &str) -> Option<u64> {
        if let Some(&g) = self.gmap.get(n) { return Some((GBASE + g as u64) << OSH); }
        self.fmap.get(n).map(|&f| (FBASE + f as u64) << OSH)
    }
    pub fn global_init(&self, g: usize) -> &Vec<u8> {
        self.globals[g].init.get_or_init(|| {
            if self.globals[g].external { return vec![]; }
            let l = self.line(self.globals[g].line);
            let off = l.find(" constant ").map(|x| x + 10).into_iter().chain(l.find(" global ").map(|x| x + 8)).min().unwrap();
            let mut p = Ps::new(self, l, None); p.i = off;
            let t = p.ty().expect("global type");
            let mut out = vec![0u8; t.size() as usize];
            match p.op(&t) { Ok(O::C(v, w)) => Self::put(&C::I(v as u128, w), &t, &mut out, 0), Ok(O::K(c)) => Self::put(&c, &t, &mut out, 0), e => panic!("initialiser of {}: {:?}", self.globals[g].name, e) }
            out
        })
    }
    fn put(c: &C, t: &Ty, out: &mut [u8], off: usize) {
        match c {
            C::I(v, w) => { let n = ((*w + 7) / 8) as usize; for i in 0..n { out[off + i] = (v >> (8 * i)) as u8; } }
            C::Agg(v) => for (i, x) in v.iter().enumerate() { Self::put(x, t.elem(i), out, off + t.field_off(i) as usize) },
        }
    }
    pub fn body(&self, f: u32) -> Result<&Body, &String> {
        self.funcs[f as usize].body.get_or_init(|| { self.functions_parsed.fetch_add(1, std::sync::atomic::Ordering::Relaxed); self.parse_fn(f).map_err(|e| format!("{}: {}", self.funcs[f as usize].name, e)) }).as_ref()
    }
    fn parse_fn(&self, f: u32) -> R<Body> {
        let start = self.funcs[f as usize].line;
        let mut names = Names { map: FxMap::default(), n: 0, blocks: FxMap::default() };
        // header: parameters
        let h = self.line(start);
        let at = h.find('@').unwrap();
        let mut nparams = 0;
        {
            let mut p = Ps::new(self, h, Some(&mut names)); p.i = at + 1; p.name(); p.exp("(")?;
            if !p.eat(")") { loop {
                if p.eat("...") { p.exp(")")?; break; }
                p.ty()?; p.attrs();
                if p.peek() == b'%' { p.i += 1; let n = p.name(); let id = p.names.as_mut().unwrap().get(n); if id != nparams { return Err("param order".into()); } }
                else { return Err("unnamed parameter".into()); }
                nparams += 1;
                if p.eat(")") { break; } p.exp(",")?;
            } }
        }
        // pass 1: blocks and logical lines
        let mut logical: Vec<(u32, &'static str)> = vec![];
        let mut nb = 0u32;
        let mut i = start + 1;
        let mut first = true;
        while self.line(i) != "}" {
            let l = self.line(i); let b = l.as_bytes();
            if b.is_empty() || b[0] == b';' { i += 1; continue; }
            if b[0] != b' ' {
                let e = if b[0] == b'"' { l[1..].find('"').unwrap() + 2 } else { l.find(':').ok_or_else(|| format!("label line {}", l))? };
                let nm = l[..e].trim_matches('"');
                names.blocks.insert(nm, nb); nb += 1; first = false; i += 1; continue;
            }
            if first { nb += 1; first = false; }
            let t = l.trim_start();
            if t.starts_with("#dbg") || t.starts_with("; ") || t.starts_with(';') { i += 1; continue; }
            let mut j = i;
            let is_inv = t.contains("invoke ") && (t.starts_with("invoke ") || t.contains("= invoke "));
            if t.starts_with("switch ") && !l.contains(']') { while !self.line(j).trim_start().starts_with(']') { j += 1; } }
            else if is_inv { while !self.line(j).contains("unwind label") { j += 1; } }
            else if t.contains("= landingpad") { while { let n = self.line(j + 1).trim_start(); n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") } { j += 1; } }
            let (a, _) = self.lines[i]; let (_, e) = self.lines[j];
            logical.push((nb - 1, &self.text[a..e]));
            i = j + 1;
        }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], insts: vec![], seen: AtomicBool::new(false) }).collect();
        for (bi, t) in logical {
            let tt = t.trim_start();
            let mut p = Ps::new(self, t, Some(&mut names));
            let dbg = p.dbg();
            if tt.contains("= phi ") && tt.starts_with('%') {
                p.ws(); p.exp("%")?; let n = p.name(); p.exp("=")?; let d = p.names.as_mut().unwrap().get(n); p.word();
                let ty = p.ty()?; let mut inc = vec![];
                loop { p.exp("[")?; let v = p.op(&ty)?; p.exp(",")?; p.exp("%")?; let bn = p.name(); let bb = *p.names.as_ref().unwrap().blocks.get(bn).unwrap_or(&0); p.exp("]")?; inc.push((bb, v)); if p.peek() != b',' { break; } let s = p.i; p.i += 1; if p.peek() != b'[' { p.i = s; break; } }
                blocks[bi as usize].phis.push((d, inc));
                continue;
            }
            let ins = p.inst().map_err(|e| format!("{} in `{}`", e, &t[..t.len().min(200)]))?;
            let is_inv = matches!(ins, I::Call { .. }) && (tt.starts_with("invoke ") || tt.contains("= invoke "));
            blocks[bi as usize].insts.push((ins, dbg));
            if is_inv {
                let q = t.rfind("to label ").ok_or("invoke target")?;
                let mut p2 = Ps::new(self, t, Some(&mut names)); p2.i = q + 3; let l = p2.label()?;
                blocks[bi as usize].insts.push((I::Br(l), dbg));
            }
        }
        Ok(Body { nregs: names.n, blocks, nparams })
    }
    /// (file, line, function) of a debug location id; follows to the innermost scope.
    pub fn loc(&self, id: u32) -> Option<(String, u32, String)> {
        let l = self.meta.get(&id)?;
        if !l.contains("DILocation(") { return None; }
        let line = Self::field(l, "line: ").and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut sc: u32 = Self::field(l, "scope: !")?.parse().ok()?;
        for _ in 0..50 {
            let s = self.meta.get(&sc)?;
            if s.contains("DISubprogram(") {
                let name = Self::field(s, "name: \"").unwrap_or_default();
                let f: u32 = Self::field(s, "file: !")?.parse().ok()?;
                let fl = self.meta.get(&f)?;
                let mut fnm = Self::field(fl, "filename: \"").unwrap_or_default();
                if !fnm.starts_with('/') { if let Some(d) = Self::field(fl, "directory: \"") { fnm = format!("{}/{}", d, fnm); } }
                return Some((fnm, line, name));
            }
            sc = Self::field(s, "scope: !")?.parse().ok()?;
        }
        None
    }
    pub fn inlined_at(&self, id: u32) -> Option<u32> { self.meta.get(&id).and_then(|l| Self::field(l, "inlinedAt: !")).and_then(|s| s.parse().ok()) }
    fn field(l: &str, key: &str) -> Option<String> {
        let p = l.find(key)? + key.len(); let r = &l[p..];
        let e = if key.ends_with('"') { r.find('"')? } else { r.find(|c: char| !c.is_ascii_alphanumeric())? };
        Some(r[..e].to_string())
    }
}
