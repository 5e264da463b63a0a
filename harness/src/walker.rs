//! Walking whole trees with `Walker`, against an independent depth-first model.
use crate::{k, rt};
use libipld::Cid;
use std::path::Path;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::Metadata;

#[derive(Clone, Copy, PartialEq)]
enum Kind { Dir, Bucket, File, Symlink }
#[derive(Clone)]
struct Event { id: u16, kind: Kind, /** for directories: at the root, or sharded */ root: bool, path: String, mode: Option<u32>, mtime: Option<(i64, u32)>, bytes: Vec<u8>, first: bool, last: bool, size: u64 }

/// Names a child may get: several lengths, non-ASCII, a dotted one.
const NAMES: [&str; 4] = ["a", "bb", "\u{fc}x", ".c"];
/// And in large trees.
fn large_name() -> String {
    let i = rt::choose(14) as usize;
    if i < 9 { ["a", "ab", "00", "0Ab", "...", ".a.", "\u{1f600}", "a b", "C:"][i].to_string() } else { let c = [b'x', b'0', b'.'][rt::choose(3) as usize] as char; c.to_string().repeat([3, 100, 125, 126, 255, 128, 300][rt::choose(7) as usize]) }
}

struct Gen { next: u16, store: Vec<Option<Vec<u8>>>, events: Vec<Event>, /** what is complete: id, whether seen as a bucket, its events */ done: Vec<(u16, bool, usize, usize)>, fan: u64, depth: u64, meta: bool, hamt: bool, names: u64, parts: u64, dup: u64, wide: u64, extra: bool, chain: bool }
impl Gen {
    fn new() -> Gen {
        let p = rt::param;
        Gen { next: 1, store: vec![None; 2001], events: vec![], done: vec![], fan: p("fan"), depth: p("depth"), meta: p("meta") == 1, hamt: p("hamt") == 1, names: p("names"), parts: p("parts"), dup: p("dup"), wide: p("wide"), chain: p("chain") == 1, extra: p("extra") == 1 || (rt::big() && p("extra") == 0) }
    }
    fn fresh(&mut self) -> u16 { if self.next > 2000 { rt::reject() } self.next += 1; self.next - 1 }
    fn name(&self, i: u64) -> String {
        if self.chain { return ["a", "b"][i as usize % 2].to_string(); }
        if rt::big() { return large_name(); }
        if self.names == 9 {
            // any text which can be a path segment
            let n = rt::vec(1 + rt::choose(2) as usize);
            for b in &n { rt::assume(*b != b'/'); }
            if n == b"." || n == b".." { rt::reject() }
            return match String::from_utf8(n) { Ok(s) => s, Err(_) => rt::reject() };
        }
        NAMES[((i + if self.names > 1 { rt::choose(self.names) } else { 0 }) % 4) as usize].to_string()
    }
    fn metadata(&self, mut f: k::Fs) -> (k::Fs, Option<u32>, Option<(i64, u32)>) {
        if !self.meta { return (f, None, None); }
        let (mut mode, mut mtime) = (None, None);
        let c = rt::choose(4);
        if c & 1 == 1 { let m = rt::u32(); mode = Some(m); f = f.mode(m); }
        if c & 2 == 2 { let (s, n) = (rt::u64() as i64, rt::u32()); if rt::choose(2) == 1 { mtime = Some((s, n)); f = f.mtime(Some(s), Some(n)); } else { mtime = Some((s, 0)); f = f.mtime(Some(s), None); } }
        (f, mode, mtime)
    }
    /// Builds the node `id` seen under `path` and everything below it, appending the events of a depth-first walk.
    fn node(&mut self, id: u16, path: &str, root: bool, level: u64) {
        let leafs = 3;
        let kinds = if level < self.depth { if self.hamt { 5 } else { 4 } } else { leafs };
        match if self.chain && level < self.depth { 3 + rt::choose(16) / 15 * (kinds - 4) } else if rt::big() && level == 0 { kinds - 1 } else { rt::choose(kinds) } {
            0 => { // single block file or raw
                let n = if rt::big() { [0, 1, 2, 3, 126, 127, 128, 200][rt::choose(8) as usize] } else { rt::choose(3) as usize };
                let data = rt::vec(n);
                let ty = if rt::choose(2) == 0 { k::FILE } else { k::RAW };
                let mut f = k::Fs::new(ty);
                if n > 0 { f = f.data(&data); }
                let (f, mode, mtime) = self.metadata(f.filesize(n as u64));
                self.store[id as usize] = Some(f.block(&[]));
                self.events.push(Event { id, kind: Kind::File, root, path: path.into(), mode, mtime, bytes: data, first: true, last: true, size: n as u64 });
            }
            1 => {
                let n = if rt::big() { [0, 1, 2, 3, 126, 127, 128, 200][rt::choose(8) as usize] } else { rt::choose(3) as usize };
                let data = rt::vec(n);
                let mut f = k::Fs::new(k::SYMLINK);
                if n > 0 { f = f.data(&data); }
                if self.extra {
                    // which mean nothing for a link
                    if rt::choose(2) == 1 { f = f.pnum(0x18, rt::u64()); }
                    if rt::choose(2) == 1 { f = f.pnum(0x20, rt::u64()); }
                    if rt::choose(2) == 1 { f = f.pnum(0x28, rt::u64()); }
                    if rt::choose(2) == 1 { f = f.pnum(0x30, rt::u64()); }
                }
                let (f, mode, mtime) = self.metadata(f);
                self.store[id as usize] = Some(f.block(&[]));
                self.events.push(Event { id, kind: Kind::Symlink, root, path: path.into(), mode, mtime, bytes: data, first: true, last: true, size: 0 });
            }
            2 => self.multi(id, path, root),
            3 => {
                let (f, mode, mtime) = self.metadata(k::Fs::new(k::DIR));
                self.events.push(Event { id, kind: Kind::Dir, root, path: path.into(), mode, mtime, bytes: vec![], first: true, last: true, size: 0 });
                let n = self.links(level);
                let mut links = vec![];
                let mut todo: Vec<(u16, String)> = vec![];
                for i in 0..n {
                    let (c, name) = match self.again(&todo) { None => (self.elsewhere(false).unwrap_or_else(|| self.fresh()), self.name(i)), Some((c, name)) => (c, if rt::choose(2) == 1 { name } else { self.name(i) }) };
                    k::link(&mut links, Some(&k::cid2_raw(c)), Some(name.as_bytes()), Some(7));
                    todo.push((c, name));
                }
                self.store[id as usize] = Some(f.block(&links));
                for (c, name) in todo { let p = join(path, &name); self.entry(c, &p, level); }
            }
            _ => {
                let (f, mode, mtime) = self.metadata(k::hamt());
                self.events.push(Event { id, kind: Kind::Dir, root: true, path: path.into(), mode, mtime, bytes: vec![], first: true, last: true, size: 0 });
                self.shard(id, f, path, level);
            }
        }
    }
    fn links(&self, level: u64) -> u64 { if self.chain { return 1; } (if level == 0 { self.wide } else { 0 }) + rt::choose(self.fan + 1) }
    /// Sometimes, the link before once more, or another one of the same block.
    fn again<T: Clone>(&self, todo: &[T]) -> Option<T> { if self.dup == 1 && !todo.is_empty() && rt::rare(4) { if rt::big() { Some(todo[rt::choose(todo.len() as u64) as usize].clone()) } else { todo.last().cloned() } } else { None } }
    /// Sometimes, something which is elsewhere in the tree.
    fn elsewhere(&self, bucket: bool) -> Option<u16> {
        if self.dup == 0 || !rt::big() || rt::choose(8) > 0 { return None; }
        let d: Vec<u16> = self.done.iter().filter(|d| d.1 == bucket).map(|d| d.0).collect();
        if d.is_empty() { None } else { Some(d[rt::choose(d.len() as u64) as usize]) }
    }
    /// If all there is to `c` is known, it comes again below `path`.
    fn repeat(&mut self, c: u16, bucket: bool, path: &str) -> bool {
        let Some((_, _, from, to)) = self.done.iter().find(|d| d.0 == c && d.1 == bucket).cloned() else { return false };
        if self.events.len() + to - from > 2000 { rt::reject() }
        let old = self.events[from].path.len();
        for i in from..to {
            let mut e = self.events[i].clone();
            let below = &e.path[old..];
            e.path = if below.is_empty() { path.to_string() } else { join(path, below.strip_prefix('/').unwrap_or(below)) };
            self.events.push(e);
        }
        true
    }
    /// A node below a directory.
    fn entry(&mut self, c: u16, p: &str, level: u64) {
        if self.repeat(c, false, p) { return; }
        let at = self.events.len();
        self.node(c, p, false, level + 1);
        self.done.push((c, false, at, self.events.len()));
    }
    /// The links of one HAMT block: entries carry a two character prefix, further buckets only the prefix.
    fn shard(&mut self, id: u16, f: k::Fs, path: &str, level: u64) {
        let n = self.links(level);
        let mut links = vec![];
        let mut todo: Vec<(u16, Option<String>)> = vec![];
        for i in 0..n {
            let mut name = if rt::big() {
                // whatever the two bytes are
                if rt::choose(9) == 0 { ["\u{fc}", "..", "a/", "zz", "//"][rt::choose(5) as usize].as_bytes().to_vec() } else { format!("{:02X}", rt::choose(256)).into_bytes() }
            } else if self.names == 9 {
                match String::from_utf8(rt::vec(2)) { Ok(s) => s.into_bytes(), Err(_) => rt::reject() }
            } else { [b"0A", b"F3", b"7B"][i as usize % 3].to_vec() };
            let (c, sub) = match self.again(&todo) {
                Some(x) => x,
                None => { let bucket = level < self.depth && rt::choose(2) == 1; (self.elsewhere(bucket).unwrap_or_else(|| self.fresh()), if bucket { None } else { Some(self.name(i)) }) }
            };
            if let Some(s) = &sub { name.extend_from_slice(s.as_bytes()); }
            k::link(&mut links, Some(&k::cid2_raw(c)), Some(&name), None);
            todo.push((c, sub));
        }
        self.store[id as usize] = Some(f.block(&links));
        for (c, sub) in todo {
            match sub {
                Some(s) => { let p = join(path, &s); self.entry(c, &p, level) }
                None => {
                    if self.repeat(c, true, path) { continue; }
                    let at = self.events.len();
                    self.events.push(Event { id: c, kind: Kind::Bucket, root: false, path: path.into(), mode: None, mtime: None, bytes: vec![], first: true, last: true, size: 0 });
                    self.shard(c, k::hamt(), path, level + 1);
                    self.done.push((c, true, at, self.events.len()));
                }
            }
        }
    }
    /// A file of several blocks: the root links to leaves, the first of which may be a link block itself.
    fn multi(&mut self, id: u16, path: &str, root: bool) {
        let n = 1 + rt::choose(self.parts);
        let mut before: Option<(u16, usize, u64)> = None;
        let nested = rt::choose(2) == 1;
        let (mut links, mut sizes, mut total) = (vec![], vec![], 0u64);
        let mut segs: Vec<(Vec<u8>, bool)> = vec![];
        for i in 0..n {
            // the same content again
            if let Some((c, at, size)) = before {
                if self.dup == 1 && rt::rare(4) {
                    k::link(&mut links, Some(&k::cid2_raw(c)), Some(b""), Some(9));
                    let again = segs[at..].to_vec();
                    before = Some((c, segs.len(), size));
                    segs.extend(again);
                    sizes.push(size); total += size;
                    continue;
                }
            }
            let c = self.fresh();
            let (at, was) = (segs.len(), total);
            k::link(&mut links, Some(&k::cid2_raw(c)), Some(b""), Some(9));
            if rt::big() && rt::choose(3) == 0 { let s = self.part(c, 3, &mut segs); sizes.push(s); total += s; }
            else if nested && i == 0 {
                let (a, b) = (self.fresh(), self.fresh());
                let mut l = vec![];
                for x in [a, b] { k::link(&mut l, Some(&k::cid2_raw(x)), None, Some(9)); }
                self.store[c as usize] = Some(k::Fs::new(k::FILE).filesize(3).blocksize(2).blocksize(1).block(&l));
                segs.push((vec![], false));
                for (x, n) in [(a, 2), (b, 1)] { let d = rt::vec(n); self.store[x as usize] = Some(k::Fs::new(k::RAW).data(&d).filesize(n as u64).block(&[])); segs.push((d, false)); }
                sizes.push(3); total += 3;
            } else {
                let d = rt::vec(2);
                self.store[c as usize] = Some(k::Fs::new(if i % 2 == 0 { k::RAW } else { k::FILE }).data(&d).filesize(2).block(&[]));
                segs.push((d, false));
                sizes.push(2); total += 2;
            }
            before = Some((c, at, total - was));
        }
        segs.last_mut().unwrap().1 = true;
        let mut f = k::Fs::new(k::FILE).filesize(total);
        for s in sizes { f = f.blocksize(s); }
        let (f, mode, mtime) = self.metadata(f);
        self.store[id as usize] = Some(f.block(&links));
        self.events.push(Event { id, kind: Kind::File, root, path: path.into(), mode, mtime, bytes: vec![], first: true, last: false, size: total });
        for (d, last) in segs { self.events.push(Event { id, kind: Kind::File, root, path: path.into(), mode, mtime, bytes: d, first: false, last, size: total }); }
    }
    /// A part of a file which is made of parts down to some depth.
    fn part(&mut self, id: u16, depth: u64, segs: &mut Vec<(Vec<u8>, bool)>) -> u64 {
        let n = if depth == 0 { 0 } else { rt::choose(4) };
        if n == 0 {
            let d = rt::vec(1 + rt::choose(130) as usize);
            let s = d.len() as u64;
            let f = k::Fs::new(if rt::choose(2) == 0 { k::RAW } else { k::FILE }).data(&d);
            self.store[id as usize] = Some(if rt::choose(2) == 0 { f } else { f.filesize(s) }.block(&[]));
            segs.push((d, false));
            return s;
        }
        segs.push((vec![], false));
        let (mut l, mut f, mut total) = (vec![], vec![], 0);
        let ids: Vec<u16> = (0..n).map(|_| self.fresh()).collect();
        for x in ids { k::link(&mut l, Some(&k::cid2_raw(x)), None, None); let s = self.part(x, depth - 1, segs); f.push(s); total += s; }
        let mut m = k::Fs::new(k::FILE).filesize(total);
        for s in f { m = m.blocksize(s); }
        self.store[id as usize] = Some(m.block(&l));
        total
    }
}
fn join(p: &str, n: &str) -> String { let mut s = String::with_capacity(p.len() + n.len() + 1); if !p.is_empty() { s.push_str(p); s.push('/'); } s.push_str(n); s }

fn meta(m: &Metadata, e: &Event, id: u32) { rt::check(m.mode() == e.mode, id); rt::check(m.mtime() == e.mtime, id); }

/// The blocks a walker still has to be given, in order: the model of `pending_links`.
fn unread(b: &[u8]) -> Vec<u16> { k::decode(b).map_or(vec![], |n| n.links.iter().map(|l| u16::from_be_bytes([l.0[34], l.0[35]])).collect()) }

/// The name the root of a walk gets: none, one component, or, with `roots`, several or any text.
pub fn root_name() -> String {
    match rt::param("roots") {
        0 => ["", "r"][rt::choose(2) as usize].to_string(),
        1 => ["a/b", "/", "./x", "..", ".", "a//b", "r/", "/x/yy/z", "a/."][rt::choose(9) as usize].to_string(),
        n => match String::from_utf8(rt::vec(rt::choose(n) as usize)) { Ok(s) => s, Err(_) => rt::reject() },
    }
}
/// Whether `p` is what the names in `e`, each after a slash, make of the root name.
fn same_path(p: &Path, e: &str) -> bool { if rt::param("roots") == 0 { p.as_os_str() == e } else { p == Path::new(e) } }

/// A walk visits every node once, depth first in link order, and describes each truthfully.
pub fn h_walk_tree() {
    let mut g = Gen::new();
    let root_name = &root_name()[..];
    let id = g.fresh();
    g.node(id, root_name, true, 0);
    let mut w = Walker::new(k::cid2(id), root_name.to_string());
    let mut cache = match rt::param("used") { 0 => None, 1 => crate::visit::used_cache(rt::choose(crate::visit::USED)), _ => rt::reject() };
    let fault = rt::param("fault") == 1;
    let mut todo = vec![id]; // next block last
    let mut n = 0;
    let share = rt::param("share") == 1;
    while w.should_continue() {
        rt::check(n < g.events.len(), 1);
        let e = &g.events[n];
        {
            let (next, rest) = w.pending_links();
            let Some(t) = todo.pop() else { rt::check(false, 2); return };
            rt::check(*next == k::cid2(t), 3);
            let rest: Vec<&Cid> = rest.collect();
            rt::check(rest.len() == todo.len(), 4);
            for (r, t) in rest.iter().zip(todo.iter().rev()) { rt::check(**r == k::cid2(*t), 5); }
            n += 1;
            // somewhere, the wrong block comes
            if fault && n > 1 && rt::rare(6) {
                let bad = match rt::choose(4) { 0 => vec![], 1 => vec![0x12, 1], 2 => vec![0x0a, 2, 8], _ => k::Fs::new(k::META).block(&[]) };
                rt::check(w.next(&bad, &mut None).is_err(), 20);
                rt::check(!w.should_continue(), 21);
                rt::cover(5);
                return;
            }
            let Some(block) = &g.store[t as usize] else { rt::check(false, 6); return };
            let mut l = unread(block);
            l.reverse();
            todo.extend(l);
            let mut fresh = None;
            let r = w.next(block, if share { &mut cache } else { &mut fresh });
            let Ok(c) = r else { rt::check(false, 7); return };
            crate::show::value(&c);
            let (kind, cid, path) = match &c {
                ContinuedWalk::Bucket(c, p) => (Kind::Bucket, **c, *p),
                ContinuedWalk::Directory(c, p, m) => { meta(m, e, 8); rt::check(!e.root, 9); (Kind::Dir, **c, *p) }
                ContinuedWalk::RootDirectory(c, p, m) => { meta(m, e, 8); rt::check(e.root, 19); (Kind::Dir, **c, *p) }
                ContinuedWalk::Symlink(t, c, p, m) => { meta(m, e, 8); rt::check(*t == &e.bytes[..], 10); (Kind::Symlink, **c, *p) }
                ContinuedWalk::File(s, c, p, m, size) => {
                    meta(m, e, 8);
                    rt::check(s.as_bytes() == &e.bytes[..] && s.as_ref() == &e.bytes[..], 10);
                    rt::check(s.is_first() == e.first, 11);
                    rt::check(s.is_last() == e.last, 12);
                    rt::check(*size == e.size, 13);
                    (Kind::File, **c, *p)
                }
            };
            rt::check(kind == e.kind, 14);
            rt::check(cid == k::cid2(e.id), 15);
            rt::check(same_path(path, &e.path), 16);
            rt::obs(e.id as u64); rt::obs_bytes(&e.bytes);
            rt::cover(match kind { Kind::Dir => 1, Kind::Bucket => 2, Kind::File => 3, Kind::Symlink => 4 });
        }
    }
    if fault { rt::reject() }
    rt::check(n == g.events.len(), 17);
    rt::check(todo.is_empty(), 18);
}

/// A block which cannot be part of a tree ends the walk with what is wrong about it, wherever it is met.
pub fn h_walk_errors() {
    use unixfs_v1::walk::Error;
    let mut w = Walker::new(k::cid(1), ["", "r"][rt::choose(2) as usize].to_string());
    // first the blocks leading to it: none, a directory, a shard whose link is an entry or a bucket, a file, or a directory and a shard
    let place = rt::choose(6);
    let parents: &[(u8, &[u8])] = match place { 0 => &[], 1 => &[(k::DIR, b"a")], 2 => &[(k::HAMT, b"00a")], 3 => &[(k::HAMT, b"00")], 4 => &[(k::FILE, b"")], _ => &[(k::DIR, b"d"), (k::HAMT, b"0F")] };
    for (ty, name) in parents {
        let mut l = vec![];
        k::link(&mut l, Some(&k::cid_raw(2)), Some(name), None);
        k::link(&mut l, Some(&k::cid_raw(3)), Some(match *ty { k::DIR => b"z", k::HAMT => b"11z", _ => b"" }), None);
        let f = match *ty { k::HAMT => k::hamt(), k::FILE => k::Fs::new(k::FILE).filesize(4).blocksize(2).blocksize(2), t => k::Fs::new(t) };
        rt::check(w.next(&f.block(&l), &mut None).is_ok(), 1);
    }
    let (file, bucket) = (place == 4, place == 3 || place == 5);
    let what = rt::choose(8);
    let mut l = vec![];
    // good ones, few or many
    let good = if what == 5 || what == 6 || what == 7 { 1 + rt::param("many") } else { 1 } as usize;
    for _ in 0..good { k::link(&mut l, Some(&k::cid_raw(7)), Some(if what == 5 { b"x" } else { b"00x" }), None); }
    // the text, for some names only behind what is short
    let mut text = vec![b'a'; if rt::param("long") == 1 { [252, 255, 256, 1000][rt::choose(4) as usize] } else { 0 }];
    text.extend_from_slice(&rt::vec(1 + rt::choose(rt::param("name")) as usize));
    if std::str::from_utf8(&text).is_err() { rt::reject() }
    let mut bad: &[u8] = &[1, 0x70, 0x12];
    let nth = if rt::choose(2) == 1 { good } else { 0 };
    let block = match what {
        0 => vec![0x12, 9, 1],
        1 => vec![0x0a, 3, 8, 2, 0x12],
        2 => vec![],
        3 => k::Fs::new(k::META).block(&[]),
        4 => { let t = [k::DIR, k::SYMLINK, k::FILE, k::RAW, k::HAMT][rt::choose(5) as usize]; let ok = if file { t == k::FILE || t == k::RAW } else if bucket { t == k::HAMT } else { true }; if ok { rt::reject() } (if t == k::HAMT { k::hamt() } else { k::Fs::new(t).data(b"").filesize(0) }).block(&[]) }
        // a link without a usable hash, or name, next to a good one
        5 | 6 => {
            if file || (bucket && what == 5) { rt::reject() }
            let hamt = what == 6;
            let bad_hash = rt::choose(2) == 1;
            if rt::choose(2) == 1 { bad = b""; }
            let mut name = if hamt { b"01".to_vec() } else { vec![] };
            name.extend_from_slice(&text);
            // names which would not stay below their directory
            let t = &text[..];
            let bad_name = t == b"." || t == b".." || t.contains(&b'/');
            if !bad_hash && !bad_name { rt::reject() }
            let (mut x, good) = (vec![], k::cid_raw(8));
            k::link(&mut x, Some(if bad_hash { bad } else { &good }), Some(&name), None);
            let links = if nth == 0 { x.extend_from_slice(&l); x } else { l.extend_from_slice(&x); l.clone() };
            let b = (if hamt { k::hamt() } else { k::Fs::new(k::DIR) }).block(&links);
            match w.next(&b, &mut None) {
                Err(Error::InvalidCid(e)) => { rt::check(bad_hash && e.nth == nth as usize && e.hash[..] == *bad && e.name.as_bytes() == &name[..], 2); rt::cover(5) }
                Err(Error::InvalidLinkName(n, s)) => { rt::check(bad_name && n == nth as usize && s.as_bytes() == &name[..], 3); rt::cover(6) }
                _ => rt::check(false, 4),
            }
            rt::check(!w.should_continue(), 5);
            return;
        }
        // no name at all
        _ => {
            if file || bucket { rt::reject() }
            let hamt = rt::choose(2) == 1;
            let mut x = vec![];
            let empty = if rt::choose(2) == 1 { None } else { Some(if hamt { [&b""[..], b"0"][rt::choose(2) as usize] } else { b"" }) };
            k::link(&mut x, Some(&k::cid_raw(8)), empty, None);
            let at = if rt::param("many") > 0 { good } else { 0 };
            if at == 0 { l.clear(); }
            l.extend_from_slice(&x);
            let b = (if hamt { k::hamt() } else { k::Fs::new(k::DIR) }).block(&l);
            rt::check(matches!(w.next(&b, &mut None), Err(Error::InvalidLinkName(n, s)) if n == at && s.as_bytes() == empty.unwrap_or(b"")), 6);
            rt::check(!w.should_continue(), 7);
            rt::cover(7);
            return;
        }
    };
    let r = w.next(&block, &mut None).map(|_| ());
    if let Err(e) = &r { crate::show::error(e); }
    rt::check(match (what, &r) {
        (0, Err(Error::DagPbParsingFailed(_))) => true,
        // the rest of a file is not told apart
        (1, Err(Error::UnixFsParsingFailed(_))) => true,
        (1, Err(Error::DagPbParsingFailed(_))) => file,
        (2, Err(Error::EmptyDagPbNode)) => true,
        (3, Err(Error::UnsupportedType(t))) => !file && !bucket && !t.is_directory() && !t.is_file(),
        (3, Err(Error::UnexpectedType(t))) => (file || bucket) && !t.is_directory() && !t.is_file(),
        (4, Err(Error::UnexpectedType(_))) => file || bucket,
        _ => false,
    }, 8);
    rt::check(!w.should_continue(), 9);
    rt::obs(what); rt::cover(what as u32 + 10);
}
