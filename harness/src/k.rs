//! Reference encoder/decoder and small helpers, written from the dag-pb / UnixFS v1 / protobuf specifications only.
use libipld::multihash::{Code, MultihashDigest};
use libipld::Cid;

pub fn sha_cid(block: &[u8]) -> Cid { Cid::new_v1(0x70, Code::Sha2_256.digest(block)) }
/// Raw bytes of a dag-pb CIDv1 whose digest is `n` repeated.
pub fn cid_raw(n: u8) -> [u8; 36] { let mut b = [n; 36]; b[0] = 1; b[1] = 0x70; b[2] = 0x12; b[3] = 0x20; b }
pub fn cid(n: u8) -> Cid { Cid::try_from(&cid_raw(n)[..]).unwrap() }
/// The same for more of them.
pub fn cid2_raw(n: u16) -> [u8; 36] { let mut b = cid_raw(0x5a); b[34] = (n >> 8) as u8; b[35] = n as u8; b }
pub fn cid2(n: u16) -> Cid { Cid::try_from(&cid2_raw(n)[..]).unwrap() }
/// Raw bytes of a CIDv0.
pub fn cid0_raw(n: u8) -> [u8; 34] { let mut b = [n; 34]; b[0] = 0x12; b[1] = 0x20; b }

/// Appends a canonical varint of a (concrete) value.
pub fn varint(o: &mut Vec<u8>, mut v: u64) { while v >= 0x80 { o.push(v as u8 | 0x80); v >>= 7; } o.push(v as u8); }
/// Appends a non-canonical ten byte varint, so that a symbolic value does not change the layout.
pub fn pvarint(o: &mut Vec<u8>, v: u64) { for i in 0..9 { o.push((v >> (7 * i)) as u8 | 0x80); } o.push((v >> 63) as u8); }
pub fn bytes(o: &mut Vec<u8>, tag: u8, b: &[u8]) { o.push(tag); varint(o, b.len() as u64); o.extend_from_slice(b); }
pub fn num(o: &mut Vec<u8>, tag: u8, v: u64) { o.push(tag); varint(o, v); }
pub fn pnum(o: &mut Vec<u8>, tag: u8, v: u64) { o.push(tag); pvarint(o, v); }

pub const RAW: u8 = 0; pub const DIR: u8 = 1; pub const FILE: u8 = 2; pub const META: u8 = 3; pub const SYMLINK: u8 = 4; pub const HAMT: u8 = 5;

/// One dag-pb link: hash, name, tsize, each optional.
pub fn link(o: &mut Vec<u8>, hash: Option<&[u8]>, name: Option<&[u8]>, tsize: Option<u64>) {
    let mut l = Vec::with_capacity(80);
    if let Some(h) = hash { bytes(&mut l, 0x0a, h); }
    if let Some(n) = name { bytes(&mut l, 0x12, n); }
    if let Some(t) = tsize { num(&mut l, 0x18, t); }
    bytes(o, 0x12, &l);
}
/// A UnixFS message being built.
#[derive(Clone, Default)]
pub struct Fs { pub b: Vec<u8> }
impl Fs {
    pub fn new(ty: u8) -> Fs { let mut b = Vec::with_capacity(256); b.push(8); b.push(ty); Fs { b } }
    pub fn data(mut self, d: &[u8]) -> Fs { bytes(&mut self.b, 0x12, d); self }
    pub fn num(mut self, tag: u8, v: u64) -> Fs { num(&mut self.b, tag, v); self }
    pub fn pnum(mut self, tag: u8, v: u64) -> Fs { pnum(&mut self.b, tag, v); self }
    pub fn filesize(self, v: u64) -> Fs { self.num(0x18, v) }
    pub fn blocksize(self, v: u64) -> Fs { self.num(0x20, v) }
    pub fn hash_type(self, v: u64) -> Fs { self.num(0x28, v) }
    pub fn fanout(self, v: u64) -> Fs { self.num(0x30, v) }
    pub fn mode(self, v: u32) -> Fs { self.pnum(0x38, v as u64) }
    pub fn mtime(mut self, secs: Option<i64>, nanos: Option<u32>) -> Fs {
        let mut m = Vec::with_capacity(32);
        if let Some(s) = secs { pnum(&mut m, 8, s as u64); }
        if let Some(n) = nanos { m.push(21); m.extend_from_slice(&n.to_le_bytes()); }
        bytes(&mut self.b, 0x42, &m); self
    }
    /// The dag-pb block with the given already encoded links.
    pub fn block(&self, links: &[u8]) -> Vec<u8> { let mut o = Vec::with_capacity(links.len() + self.b.len() + 8); o.extend_from_slice(links); bytes(&mut o, 0x0a, &self.b); o }
}
pub fn hamt() -> Fs { Fs::new(HAMT).hash_type(34).fanout(256) }

/// A decoded node.
#[derive(Default, Debug)]
pub struct Node { pub links: Vec<(Vec<u8>, Vec<u8>, u64)>, pub ty: u64, pub data: Option<Vec<u8>>, pub filesize: Option<u64>, pub blocksizes: Vec<u64>, pub hash_type: Option<u64>, pub fanout: Option<u64>, pub mode: Option<u64>, pub mtime: Option<Vec<u8>> }
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn varint(&mut self) -> Option<u64> { let mut v = 0; for i in 0..10 { let (b, r) = self.0.split_first()?; self.0 = r; v |= ((b & 0x7f) as u64) << (7 * i); if b & 0x80 == 0 { return Some(v); } } None }
    fn bytes(&mut self) -> Option<&'a [u8]> { let n = self.varint()? as usize; if n > self.0.len() { return None; } let (a, b) = self.0.split_at(n); self.0 = b; Some(a) }
}
/// Decodes the canonical form (known fields only); `None` if the block is not of that form.
pub fn decode(b: &[u8]) -> Option<Node> {
    let mut n = Node::default();
    let mut r = Rd(b);
    let mut inner: Option<&[u8]> = None;
    while !r.0.is_empty() {
        match r.varint()? {
            0x12 => { let mut l = Rd(r.bytes()?); let mut x = (vec![], vec![], 0); while !l.0.is_empty() { match l.varint()? { 0x0a => x.0 = l.bytes()?.to_vec(), 0x12 => x.1 = l.bytes()?.to_vec(), 0x18 => x.2 = l.varint()?, _ => return None } } if inner.is_some() { return None; } n.links.push(x); }
            0x0a => { if inner.is_some() { return None; } inner = Some(r.bytes()?) }
            _ => return None,
        }
    }
    let mut r = Rd(inner?);
    while !r.0.is_empty() {
        match r.varint()? {
            8 => n.ty = r.varint()?, 0x12 => n.data = Some(r.bytes()?.to_vec()), 0x18 => n.filesize = Some(r.varint()?), 0x20 => n.blocksizes.push(r.varint()?),
            0x28 => n.hash_type = Some(r.varint()?), 0x30 => n.fanout = Some(r.varint()?), 0x38 => n.mode = Some(r.varint()?), 0x42 => n.mtime = Some(r.bytes()?.to_vec()), _ => return None,
        }
    }
    Some(n)
}
/// The block with the given cid.
pub fn find<'a>(s: &'a [(Cid, Vec<u8>)], c: &Cid) -> Option<&'a [u8]> { s.iter().find(|x| x.0 == *c).map(|x| &x.1[..]) }
