//! The symbolic inputs. Under the executor these are its primitives; natively they replay a recorded input.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_assume(b: bool);
        fn sym_check(b: bool, id: u32);
        fn sym_choose(n: u64) -> u64;
        fn sym_concretize(v: u64) -> u64;
        fn sym_observe(v: u64);
        fn sym_observe_bytes(p: *const u8, n: usize);
        fn sym_cover(id: u32);
        fn sym_may_panic(b: bool);
        fn sym_reject() -> !;
        fn sym_param(p: *const u8, n: usize) -> u64;
    }
    pub fn fill(b: &mut [u8]) { unsafe { sym_bytes(b.as_mut_ptr(), b.len()) } }
    pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    pub fn check_raw(b: bool, id: u32) { unsafe { sym_check(b, id) } }
    pub fn choose_raw(n: u64) -> u64 { unsafe { sym_choose(n) } }
    pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
    pub fn obs(v: u64) { unsafe { sym_observe(v) } }
    pub fn obs_bytes(b: &[u8]) { unsafe { sym_observe_bytes(b.as_ptr(), b.len()) } }
    pub fn cover(id: u32) { unsafe { sym_cover(id) } }
    /// Whether a panic is, from here, a refusal, which ends the run well.
    pub fn may_panic(b: bool) { unsafe { sym_may_panic(b) } }
    pub fn reject() -> ! { unsafe { sym_reject() } }
    pub fn param(n: &str) -> u64 { unsafe { sym_param(n.as_ptr(), n.len()) } }
}
#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::collections::BTreeMap;
    pub struct Failed(pub u32);
    pub struct Rejected;
    #[derive(Default)]
    pub struct State { pub input: Vec<u8>, pub pos: usize, pub hash: u64, pub may_panic: bool, pub params: BTreeMap<String, u64> }
    thread_local! { pub static S: RefCell<State> = RefCell::default(); }
    fn h(b: u8) { S.with(|s| { let mut s = s.borrow_mut(); s.hash = (s.hash ^ b as u64).wrapping_mul(0x100000001b3); }) }
    pub fn fill(b: &mut [u8]) { S.with(|s| { let mut s = s.borrow_mut(); for x in b { *x = s.input.get(s.pos).copied().unwrap_or(0); s.pos += 1; } }) }
    pub fn assume(b: bool) { if !b { reject() } }
    pub fn check_raw(b: bool, id: u32) { if !b { std::panic::panic_any(Failed(id)) } }
    pub fn choose_raw(n: u64) -> u64 { let mut b = [0]; fill(&mut b); assume((b[0] as u64) < n); b[0] as u64 }
    pub fn conc(v: u64) -> u64 { v }
    pub fn obs(v: u64) { for b in v.to_le_bytes() { h(b) } }
    pub fn obs_bytes(x: &[u8]) { obs(x.len() as u64); for b in x { h(*b) } }
    pub fn cover(_: u32) {}
    pub fn may_panic(b: bool) { S.with(|s| s.borrow_mut().may_panic = b) }
    pub fn reject() -> ! { std::panic::panic_any(Rejected) }
    pub fn param(n: &str) -> u64 { S.with(|s| *s.borrow().params.get(n).unwrap_or(&0)) }
}
pub use imp::*;

/// With `only`, what is computed is the business of other properties: paths on which that is wrong are left to them.
pub fn check(b: bool, id: u32) { if id < 990 && param("only") == 1 { assume(b) } else { check_raw(b, id) } }

pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0; N]; fill(&mut b); b }
pub fn vec(n: usize) -> Vec<u8> { let mut b = vec![0; n]; fill(&mut b); b }
pub fn u8() -> u8 { bytes::<1>()[0] }
pub fn u16() -> u16 { u16::from_le_bytes(bytes()) }
pub fn u32() -> u32 { u32::from_le_bytes(bytes()) }
pub fn u64() -> u64 { u64::from_le_bytes(bytes()) }
/// A value of so many bits, all of them if `bits` is 0.
pub fn uint(bits: u64) -> u64 { match bits { 8 => u8() as u64, 16 => u16() as u64, 32 => u32() as u64, _ => u64() } }
pub fn bool() -> bool { u8() & 1 == 1 }
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
/// 0: not known yet; 1: choices are explored; otherwise the state of the generator which makes them.
static MODE: AtomicU64 = AtomicU64::new(0);
pub fn reset() { MODE.store(0, Relaxed) }
fn mode() -> u64 {
    let mut s = MODE.load(Relaxed);
    if s == 0 { let n = param("big"); s = if n == 0 { 1 } else { (conc(choose_raw(n)) + 1 + param("seed") * 1000).wrapping_mul(0x9e3779b97f4a7c15) | 2 }; MODE.store(s, Relaxed); }
    s
}
/// Whether the shape is one of `big` large ones, rather than any within small bounds.
pub fn big() -> bool { mode() != 1 }
/// One of `0..n`; the executor explores each value as its own set of paths.
pub fn choose(n: u64) -> u64 {
    if n <= 1 { return 0; }
    if mode() == 1 { return conc(choose_raw(n)); }
    let s = MODE.load(Relaxed).wrapping_add(0x9e3779b97f4a7c15).max(2);
    MODE.store(s, Relaxed);
    let mut z = s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    (z ^ (z >> 31)) % n
}
/// With a large shape: true once in `n` times. Otherwise both.
pub fn rare(n: u64) -> bool { if big() { choose(n) == 0 } else { choose(2) == 1 } }
/// One of `lo..=hi`, explored separately.
pub fn pick(lo: u64, hi: u64) -> u64 { lo + choose(hi - lo + 1) }
