//! Building directory trees from paths, against a plain model of the tree.
use crate::{k, rt};
use libipld::multihash::Multihash;
use libipld::Cid;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeBuildingFailed, TreeConstructionFailed, TreeOptions};
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{resolve, MaybeResolved, Metadata, UnixFs};

enum M { Leaf(Cid, Vec<u8>, u64), Dir(D) }
#[derive(Default)]
struct D { kids: Vec<(Vec<u8>, M)>, mode: Option<u32>, mtime: Option<(i64, u32)> }
#[derive(PartialEq, Debug, Clone, Copy)]
enum E { Slash = 1, Repeat, Rooted, TooMany, Leaf, Dup }

impl D {
    fn get(&self, n: &[u8]) -> Option<usize> { self.kids.iter().position(|k| k.0 == n) }
    /// Follows the directories of `path` up to its last segment, making those which are missing.
    fn enter(&mut self, path: &[&[u8]]) -> Result<&mut D, E> {
        let Some((n, rest)) = path.split_first() else { return Ok(self) };
        let i = match self.get(n) { Some(i) => i, None => { self.kids.push((n.to_vec(), M::Dir(D::default()))); self.kids.len() - 1 } };
        match &mut self.kids[i].1 { M::Dir(d) => d.enter(rest), M::Leaf(..) => Err(E::Leaf) }
    }
    /// Whether following `path` would meet a leaf.
    fn blocked(&self, path: &[&[u8]]) -> bool {
        let Some((n, rest)) = path.split_first() else { return false };
        match self.get(n).map(|i| &self.kids[i].1) { None => false, Some(M::Leaf(..)) => true, Some(M::Dir(d)) => d.blocked(rest) }
    }
    fn admit(&self, path: &[u8], wrap: bool) -> Result<(), E> {
        if path.last() == Some(&b'/') { return Err(E::Slash); }
        if path.windows(2).any(|w| w == b"//") { return Err(E::Repeat); }
        if path.first() == Some(&b'/') { return Err(E::Rooted); }
        let segs: Vec<&[u8]> = path.split(|b| *b == b'/').collect();
        if !wrap && !self.kids.is_empty() && self.get(segs[0]).is_none() { return Err(E::TooMany); }
        if self.blocked(&segs[..segs.len() - 1]) { return Err(E::Leaf); }
        Ok(())
    }
    fn put(&mut self, path: &[u8], leaf: M, wrap: bool) -> Result<(), E> {
        self.admit(path, wrap)?;
        let segs: Vec<&[u8]> = path.split(|b| *b == b'/').collect();
        let (n, dirs) = segs.split_last().unwrap();
        let d = self.enter(dirs)?;
        if d.get(n).is_some() { return Err(E::Dup); }
        d.kids.push((n.to_vec(), leaf));
        Ok(())
    }
    fn meta(&mut self, path: &[u8], mode: Option<u32>, mtime: Option<(i64, u32)>, wrap: bool) -> Result<(), E> {
        self.admit(path, wrap)?;
        let segs: Vec<&[u8]> = path.split(|b| *b == b'/').collect();
        let d = self.enter(&segs)?;
        d.mode = mode; d.mtime = mtime;
        Ok(())
    }
}
fn join(p: &[u8], n: &[u8]) -> Vec<u8> { let mut o = p.to_vec(); if !o.is_empty() { o.push(b'/'); } o.extend_from_slice(n); o }
/// The directories below and including `d`, each after those in it.
fn dirs<'a>(path: Vec<u8>, d: &'a D, out: &mut Vec<(Vec<u8>, &'a D)>) {
    for (n, x) in &d.kids { if let M::Dir(x) = x { dirs(join(&path, n), x, out); } }
    out.push((path, d));
}
fn error(e: &TreeBuildingFailed, path: &str) -> E {
    use TreeBuildingFailed::*;
    let (c, p) = match e { RootedPath(p) => (E::Rooted, p), RepeatSlashesInPath(p) => (E::Repeat, p), PathEndsInSlash(p) => (E::Slash, p), TooManyRootLevelEntries => return E::TooMany, DuplicatePath(p) => (E::Dup, p), LeafAsDirectory(p) => (E::Leaf, p) };
    rt::check(p == path, 80);
    c
}

/// A path in a large tree: names which often meet, some of them long, or above or below one seen before.
fn large_path(seen: &[String], dir: bool) -> String {
    if !seen.is_empty() && rt::choose(if dir { 2 } else { 4 }) == 0 {
        let p = &seen[rt::choose(seen.len() as u64) as usize];
        let cuts: Vec<usize> = p.match_indices('/').map(|x| x.0).chain(Some(p.len())).collect();
        let mut q = p[..cuts[rt::choose(cuts.len() as u64) as usize]].to_string();
        if rt::choose(3) == 0 { q.push('/'); q.push_str(["d", "e", "a"][rt::choose(3) as usize]); }
        return q;
    }
    let pool = rt::param("pool").max(1);
    let mut p = String::new();
    // most are at one place
    let many = rt::choose(3) > 0;
    let n = if many { 1 + if rt::param("deep") > 4 { rt::choose(rt::param("deep") + 1) } else { rt::param("deep") } } else { 1 + rt::choose(rt::param("segs")) };
    for i in 0..n {
        if i > 0 { p.push('/'); }
        if many && n > 4 && rt::choose(12) == 0 { p.push_str([" a", "a ", "D", "\u{fc}", "dd", "..."][rt::choose(6) as usize]); continue; }
        if many && i + 1 < n || i == 0 && rt::choose(4) > 0 { p.push_str("d"); continue; }
        match rt::choose(if many { 9 } else { 6 }) {
            0 => p.push_str(["a", "b", "d", "\u{fc}", "ab", "a b", "...", "A", " ", " a", "a ", ".a", "\u{ff5e}", "\u{1f600}", "\u{e000}z"][rt::choose(15) as usize]),
            1 => { let c = ['x', 'd', 'z', '\u{fc}', '\u{20ac}'][rt::choose(5) as usize]; for _ in 0..[1, 2, 60, 83, 84, 85, 86, 87, 125, 126, 127, 128, 255, 256, 300][rt::choose(15) as usize] { p.push(c); } }
            2 => p.push_str("d"),
            _ => { p.push('n'); let v = rt::choose(pool); for d in [1000, 100, 10, 1] { if v >= d || d == 1 { p.push((b'0' + (v / d % 10) as u8) as char); } } }
        }
    }
    if rt::choose(40) == 0 { p.insert(0, '/'); } else if rt::choose(40) == 0 { p.push('/'); } else if rt::choose(40) == 0 { let at = p.find('/').unwrap_or(0); p.insert(at, '/'); }
    p
}
/// A path: any text of some length, or some segments of some length each.
fn path(seen: &[String], dir: bool) -> String {
    let b = if rt::big() {
        large_path(seen, dir).into_bytes()
    } else if rt::param("raw") > 0 {
        rt::vec(rt::choose(rt::param("raw") + 1) as usize)
    } else {
        let mut b = vec![];
        let n = 1 + rt::choose(rt::param("segs"));
        for i in 0..n {
            if i > 0 { b.push(b'/'); }
            let v = rt::vec(1 + rt::choose(rt::param("name")) as usize);
            for x in &v { rt::assume(*x != b'/'); }
            // what a path segment of a file system can be
            if rt::param("plain") == 1 { for x in &v { rt::assume(*x != 0); } rt::assume(!(v.iter().all(|x| *x == b'.') && v.len() < 3)); }
            b.extend_from_slice(&v);
        }
        b
    };
    if rt::big() || rt::param("utf8") == 1 { match String::from_utf8(b) { Ok(s) => s, Err(_) => rt::reject() } }
    else { for x in &b { rt::assume(*x < 0x80); } String::from_utf8(b).unwrap() }
}
/// What a leaf links to: any codec and version.
fn leaf(i: u64) -> (Cid, Vec<u8>) {
    let c = if rt::param("cids") == 1 { rt::choose(5) } else { 0 };
    let mut raw = match c { 0 => k::cid_raw(1).to_vec(), 1 => { let mut b = k::cid_raw(1).to_vec(); b[1] = 0x55; b } 2 => k::cid0_raw(1).to_vec(), 3 => { let mut b = vec![1, 0xa9, 2, 0x12, 32]; b.extend_from_slice(&[7; 32]); b } _ => vec![1, 0x55, 0, 2, b'h', b'i'] };
    let _ = i;
    // two links may well be the same
    if c < 4 { let n = raw.len(); raw[n - 1] = rt::u8(); raw[n - 2] = rt::u8(); }
    let cid = match Cid::try_from(&raw[..]) { Ok(c) => c, Err(_) => { rt::check(false, 81); Cid::new_v1(0x55, Multihash::default()) } };
    (cid, raw)
}
fn small() -> u64 { if rt::big() { return rt::choose(1 << rt::choose(33)); } let v = rt::u8(); rt::assume(v < 0x80); v as u64 }
fn metadata(wide: u64) -> (Metadata, Option<u32>, Option<(i64, u32)>) {
    let mut f = UnixFs::default();
    let c = rt::choose(4);
    if c & 1 == 1 { f.mode = Some(if wide == 1 { rt::u32() } else { small() as u32 }); }
    if c & 2 == 2 {
        f.mtime = Some(Default::default());
        let m = f.mtime.as_mut().unwrap();
        m.Seconds = if wide == 2 { rt::u64() as i64 } else { small() as i64 };
        m.FractionalNanoseconds = if rt::choose(2) == 1 { let n = rt::u32(); if rt::big() { rt::assume(n != 0); } Some(n) } else { None };
    }
    let m = Metadata::from(&f);
    let mtime = f.mtime.as_ref().map(|t| (t.Seconds, t.FractionalNanoseconds.unwrap_or(0)));
    rt::check(m.mode() == f.mode && m.mtime() == mtime, 82);
    (m, f.mode, mtime)
}
struct Built { model: D, wrap: bool, builder: BufferingTreeBuilder, limit: Option<u64>, failed: bool, done: u64 }
/// Runs up to `ops` operations on both; every one has to succeed or fail alike.
fn ops() -> Built {
    let wrap = rt::choose(2) == 1;
    let mut o = TreeOptions::default();
    let mut limit = Some(512 * 1024);
    match rt::param("limit") { 0 => {} 1 => { limit = Some(rt::u64()); o.block_size_limit(limit); } _ => { limit = None; o.block_size_limit(None); } }
    if wrap { o.wrap_with_directory(); }
    let mut b = Built { model: D::default(), wrap, builder: BufferingTreeBuilder::new(o), limit, failed: false, done: 0 };
    let (max, fixed) = (rt::param("ops"), rt::param("fixed") == 1);
    let n = if fixed { max } else { rt::choose(max + 1) };
    let wide = rt::param("wide");
    let mut seen = vec![];
    for i in 0..n {
        let put = rt::param("meta") == 0 || if rt::big() { rt::choose(6) > 0 } else { rt::choose(2) == 0 };
        let p = path(&seen, !put);
        if rt::big() { seen.push(p.clone()); }
        let (want, got) = if put {
            let (cid, raw) = leaf(i);
            let size = if wide == 4 || wide == 3 && i == 0 { rt::u64() } else { small() };
            (b.model.put(p.as_bytes(), M::Leaf(cid, raw, size), wrap), b.builder.put_link(&p, cid, size))
        } else {
            let (m, mode, mtime) = metadata(if i == 0 { wide } else { 0 });
            (b.model.meta(p.as_bytes(), mode, mtime, wrap), b.builder.set_metadata(&p, m))
        };
        match (&got, want) {
            (Ok(()), Ok(())) => { b.done += 1; rt::obs(0); }
            (Err(e), Err(w)) => { crate::show::error(e); b.failed = true; let e = error(e, &p); rt::check(e == w, 1); rt::obs(e as u64); rt::cover(40 + e as u32); if put { rt::cover(50) } else { rt::cover(51) } if i > 0 { rt::cover(52) } }
            _ => rt::check(false, 2),
        }
    }
    crate::show::value(&b.builder);
    b
}

/// Every operation is admitted or refused, for the right reason.
pub fn h_tree_admission() { let b = ops(); if !b.failed { rt::cover(1) } else if b.done > 0 { rt::cover(2) } }

fn render(d: &D, below: &dyn Fn(&[u8]) -> (Vec<u8>, u64)) -> (Vec<u8>, u64) {
    let mut kids: Vec<&(Vec<u8>, M)> = d.kids.iter().collect();
    // by the bytes of the name
    for i in 1..kids.len() { let mut j = i; while j > 0 && kids[j].0 < kids[j - 1].0 { kids.swap(j, j - 1); j -= 1; } }
    let (mut links, mut total) = (Vec::with_capacity(512), 0u64);
    for (n, m) in kids {
        let (hash, size) = match m { M::Leaf(_, raw, size) => (raw.clone(), *size), M::Dir(_) => below(n) };
        k::link(&mut links, Some(&hash), Some(n), Some(size));
        total = total.saturating_add(size);
    }
    let mut f = k::Fs::new(k::DIR);
    if let Some(m) = d.mode { k::num(&mut f.b, 0x38, m as u64); }
    if let Some((s, n)) = d.mtime { let mut t = vec![]; k::num(&mut t, 8, s as u64); if n != 0 { t.push(21); t.extend_from_slice(&n.to_le_bytes()); } k::bytes(&mut f.b, 0x42, &t); }
    let b = f.block(&links);
    total = total.saturating_add(b.len() as u64);
    (b, total)
}

/// Every directory is emitted once, after those in it, as the block it has to be.
pub fn h_tree_content() {
    let Built { model, wrap, builder, limit, failed, done, .. } = ops();
    if rt::param("failing") == 1 && !failed { rt::reject(); }
    let mut all = vec![];
    dirs(vec![], &model, &mut all);
    if !wrap { all.pop(); }
    let mut out: Vec<Option<(Cid, u64)>> = vec![None; all.len()];
    let mut it = builder.build();
    let owned = rt::param("borrow") == 1;
    let mut order = vec![];
    loop {
        let (path, cid, total, block) = if owned && rt::choose(2) == 1 {
            match it.next_borrowed() { None => break, Some(Err(e)) => { too_large(&e, &all, &out, limit); rt::check(it.next_borrowed().is_none(), 10); rt::cover(4); return } Some(Ok(n)) => { crate::show::value(&n); (n.path.to_string(), *n.cid, n.total_size, n.block.to_vec()) } }
        } else {
            match it.next() { None => break, Some(Err(e)) => { too_large(&e, &all, &out, limit); rt::check(it.next().is_none(), 11); rt::cover(4); return } Some(Ok(n)) => (n.path, n.cid, n.total_size, n.block.into_vec()) }
        };
        let ready = |d: usize| ready(&all, &out, d);
        let Some(i) = (0..all.len()).find(|i| out[*i].is_none() && all[*i].0 == path.as_bytes() && ready(*i)) else { rt::check(false, 12); return };
        let (want, size) = expected(&all, &out, i);
        rt::check(block == want, 13);
        rt::check(total == size, 14);
        rt::check(cid == k::sha_cid(&block), 15);
        if let Some(l) = limit { rt::check(block.len() as u64 <= l, 16); }
        out[i] = Some((cid, total));
        order.push(i);
        rt::obs(block.len() as u64); rt::obs(total); rt::obs_bytes(path.as_bytes());
    }
    rt::check(out.iter().all(|o| o.is_some()), 17);
    rt::check(it.next().is_none(), 18);
    // the last one is the root of everything
    if let Some(l) = order.last() { rt::check(wrap || all.len() == 0 || model.kids.len() == 1, 19); rt::check(*l == all.len() - 1, 20); }
    rt::cover(if wrap { 1 } else { 2 });
    if all.len() > 2 { rt::cover(3) }
    if failed && done > 0 { rt::cover(5) }
}
fn ready(all: &[(Vec<u8>, &D)], out: &[Option<(Cid, u64)>], i: usize) -> bool {
    all[i].1.kids.iter().all(|(n, m)| match m { M::Leaf(..) => true, M::Dir(_) => below(all, out, i, n).is_some() })
}
/// The emitted directory `n` in directory `i`: its position is known from the structure alone.
fn below(all: &[(Vec<u8>, &D)], out: &[Option<(Cid, u64)>], i: usize, n: &[u8]) -> Option<(Cid, u64)> {
    let M::Dir(d) = &all[i].1.kids[all[i].1.get(n)?].1 else { return None };
    let j = all.iter().position(|x| std::ptr::eq(x.1, d))?;
    out[j]
}
fn expected(all: &[(Vec<u8>, &D)], out: &[Option<(Cid, u64)>], i: usize) -> (Vec<u8>, u64) {
    render(all[i].1, &|n| { let (c, t) = below(all, out, i, n).unwrap(); (c.to_bytes(), t) })
}
fn too_large(e: &TreeConstructionFailed, all: &[(Vec<u8>, &D)], out: &[Option<(Cid, u64)>], limit: Option<u64>) {
    crate::show::error(e);
    let TreeConstructionFailed::TooLargeBlock(size) = e else { rt::check(false, 21); return };
    let Some(l) = limit else { rt::check(false, 22); return };
    rt::check(*size > l, 23);
    rt::check((0..all.len()).any(|i| out[i].is_none() && ready(all, out, i) && expected(all, out, i).0.len() as u64 == *size), 24);
    rt::obs(*size);
}

fn files<'a>(path: Vec<u8>, d: &'a D, out: &mut Vec<(Vec<u8>, &'a M)>) {
    for (n, m) in &d.kids { let p = join(&path, n); if let M::Dir(d) = m { files(p.clone(), d, out); } out.push((p, m)); }
}
/// What was put is found by resolving its path over the emitted blocks, and seen by walking them.
pub fn h_tree_back() {
    let Built { model, wrap, builder, .. } = ops();
    let mut store: Vec<(Cid, Vec<u8>)> = vec![];
    for n in builder.build() { match n { Ok(n) => store.push((n.cid, n.block.into_vec())), Err(_) => { rt::check(false, 1); return } } }
    let mut all = vec![];
    files(vec![], &model, &mut all);
    let Some((root, _)) = store.last() else {
        rt::check(!wrap && all.iter().all(|x| matches!(x.1, M::Leaf(..))) && all.len() <= 1, 2);
        rt::cover(1);
        return;
    };
    let root = *root;
    // the single root directory stands for the first segment
    let skip = if wrap { 0 } else { 1 };
    for (p, m) in &all {
        let mut at = root;
        for s in p.split(|b| *b == b'/').skip(skip) {
            let Some(b) = k::find(&store, &at) else { rt::check(false, 3); return };
            match resolve(b, std::str::from_utf8(s).unwrap(), &mut None) { Ok(MaybeResolved::Found(c)) => at = c, _ => { rt::check(false, 4); return } }
        }
        match m { M::Leaf(c, ..) => rt::check(at == *c, 5), M::Dir(_) => rt::check(k::find(&store, &at).is_some(), 6) }
    }
    // a segment which is not there is not found
    let b = k::find(&store, &root).unwrap();
    rt::check(matches!(resolve(b, "a/b", &mut None), Ok(MaybeResolved::NotFound)), 7);
    rt::cover(2);
    if rt::param("walk") == 0 { return; }
    // names which are no single path segment are for the other checks
    for (p, _) in &all { for s in p.split(|b| *b == b'/') { if s.is_empty() || s == b"." || s == b".." || s.contains(&0) { rt::reject() } } }
    let name = if wrap { String::new() } else { String::from_utf8(model.kids[0].0.clone()).unwrap() };
    let mut w = Walker::new(root, name.clone());
    let leaf = k::Fs::new(k::FILE).data(b"x").filesize(1).block(&[]);
    let mut seen = vec![false; all.len()];
    let mut n = 0;
    while w.should_continue() {
        let next = *w.pending_links().0;
        let b = k::find(&store, &next).unwrap_or(&leaf);
        let Ok(c) = w.next(b, &mut None) else { rt::check(false, 8); return };
        let (dir, p, cid, m) = match &c {
            ContinuedWalk::RootDirectory(c, p, m) => (true, *p, **c, *m),
            ContinuedWalk::Directory(c, p, m) => (true, *p, **c, *m),
            ContinuedWalk::File(_, c, p, m, _) => (false, *p, **c, *m),
            _ => { rt::check(false, 9); return }
        };
        let p = p.as_os_str().as_encoded_bytes();
        n += 1;
        if wrap && n == 1 {
            rt::check(p.is_empty() && dir && cid == root && m.mode() == model.mode && m.mtime() == model.mtime, 10);
            continue;
        }
        let Some(i) = all.iter().position(|x| x.0 == p) else { rt::check(false, 11); return };
        rt::check(!seen[i], 12);
        seen[i] = true;
        match all[i].1 { M::Leaf(c, ..) => rt::check(!dir && cid == *c, 13), M::Dir(d) => { rt::check(dir, 14); rt::check(m.mode() == d.mode && m.mtime() == d.mtime, 15) } }
    }
    rt::check(seen.iter().all(|s| *s), 16);
    rt::obs(n); rt::cover(3);
}

/// The default limit, by directories whose blocks are just within it and just above.
pub fn h_tree_default_limit() {
    let above = rt::choose(3);
    // one directory with entries whose names make up the size
    let wrap = rt::choose(2) == 1;
    let mut o = TreeOptions::default();
    if wrap { o.wrap_with_directory(); }
    if rt::choose(2) == 1 { o.block_size_limit(Some(512 * 1024)); }
    let mut b = BufferingTreeBuilder::new(o);
    let n = rt::param("entries");
    let mut left = 512 * 1024 - 1 + above - 4;
    for i in 0..n {
        // a link with a name of 16384 bytes or more: hash, name, size
        let fixed = 1 + 3 + 38 + (1 + 3) + 2;
        let name = if i + 1 == n { left - fixed } else { left / (n - i) - fixed };
        left -= fixed + name;
        let mut p = String::with_capacity(name as usize + 2);
        if !wrap { p.push_str("d/"); }
        p.push((b'a' + i as u8) as char);
        for _ in 1..name { p.push('x'); }
        rt::check(b.put_link(&p, k::cid(i as u8 + 1), i + 1).is_ok(), 1);
    }
    let mut it = b.build();
    match it.next() {
        Some(Ok(x)) => { rt::check(above < 2, 2); rt::check(x.block.len() as u64 == 512 * 1024 - 1 + above, 3); rt::cover(1) }
        Some(Err(TreeConstructionFailed::TooLargeBlock(s))) => { rt::check(above == 2, 4); rt::check(s == 512 * 1024 - 1 + above, 5); rt::cover(2) }
        _ => rt::check(false, 6),
    }
    rt::check(it.next().is_none(), 7);
}
