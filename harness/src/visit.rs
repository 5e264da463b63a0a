//! Visiting files made of arbitrary, possibly hostile blocks.
use crate::{k, rt};
use unixfs_v1::file::{visit::{FileVisit, IdleFileVisit}, FileError, FileReadFailed};

/// One block of a file as served to the visit.
#[derive(Default)]
struct N { ty: u64, data: Option<Vec<u8>>, filesize: Option<u64>, blocks: Vec<u64>, hashes: Vec<Vec<u8>>, hash_type: Option<u64>, fanout: Option<u64>, mode: Option<u32>, mtime: Option<(i64, Option<u32>)>, /** no block of a file at all */ raw: Option<(Vec<u8>, E)> }
struct Gen { next: u8, faults: u64, links: u64, bits: u64 }
impl Gen {
    fn new() -> Gen { Gen { next: 1, faults: rt::param("faults"), links: rt::param("links"), bits: rt::param("bits") } }
    /// A size or offset.
    fn size(&self) -> u64 { match self.bits { 8 => rt::u8() as u64, 16 => rt::u16() as u64, 32 => rt::u32() as u64, _ => rt::u64() } }
    /// A block with up to `links` links; at most the remaining number of faults deviate from a plain file.
    fn node(&mut self, links: u64) -> N {
        let n = rt::choose(links + 1);
        let mut x = N { ty: if rt::choose(2) == 0 { 2 } else { 0 }, filesize: Some(self.size()), ..N::default() };
        for _ in 0..n { x.blocks.push(self.size()); if self.next > 190 { rt::reject() } x.hashes.push(k::cid_raw(self.next).to_vec()); self.next += 1; }
        if n == 0 { let d = 1 + rt::choose(2) as usize; x.data = Some(rt::vec(d)); }
        while self.faults > 0 {
            let f = if rt::big() && rt::choose(5) > 0 { 0 } else { rt::choose(14) };
            if f == 0 { break; }
            self.faults -= 1;
            match f {
                1 => x.ty = 1 + 2 * rt::choose(3),
                2 => x.blocks.push(self.size()),
                3 => { if x.blocks.pop().is_none() { rt::reject() } }
                4 => x.filesize = None,
                5 => x.hash_type = Some(rt::u64()),
                6 => x.fanout = Some(rt::u64()),
                7 => x.mode = Some(rt::u32()),
                8 => x.mtime = Some((rt::u64() as i64, if rt::choose(2) == 0 { None } else { Some(rt::u32()) })),
                9 => x.data = None,
                10 => x.data = Some(vec![]),
                11 => { let Some(h) = x.hashes.first_mut() else { rt::reject() }; *h = match rt::choose(3) { 0 => vec![], 1 => vec![0x12, 0x20], _ => vec![1, 0x70, 0x12, 0x40, 7] }; }
                12 => { if n == 0 { rt::reject() } x.data = Some(rt::vec(1)) }
                _ => { let (b, e): (&[u8], E) = match rt::choose(6) { 0 => (&[], E::NoData), 1 => (&[0x12], E::Read), 2 => (&[0x0a, 3, 8, 2, 0x12], E::Read), 3 => (&[0x12, 3, 0x0a, 1, 7], E::NoData), 4 => (&[0x0a, 2, 8, 0x82], E::Read), _ => (&[0x0a, 4, 8, 2], E::Read) }; x.raw = Some((b.to_vec(), e)); }
            }
        }
        x
    }
}
impl N {
    fn block(&self) -> Vec<u8> {
        if let Some((b, _)) = &self.raw { return b.clone(); }
        let mut f = k::Fs::new(self.ty as u8);
        if let Some(d) = &self.data { f = f.data(d); }
        if let Some(s) = self.filesize { f = f.pnum(0x18, s); }
        for b in &self.blocks { f = f.pnum(0x20, *b); }
        if let Some(s) = self.hash_type { f = f.pnum(0x28, s); }
        if let Some(s) = self.fanout { f = f.pnum(0x30, s); }
        if let Some(m) = self.mode { f = f.mode(m); }
        if let Some((s, n)) = self.mtime { f = f.mtime(Some(s), n); }
        let mut l = vec![];
        for h in &self.hashes { k::link(&mut l, if h.is_empty() { None } else { Some(h) }, Some(b""), Some(3)); }
        f.block(&l)
    }
    fn size(&self) -> u64 { self.filesize.unwrap_or(self.data.as_ref().map_or(0, |d| d.len() as u64)) }
    fn bytes(&self) -> &[u8] { self.data.as_deref().unwrap_or(&[]) }
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum E { Type, Mismatch, NoContent, Metadata, NoSize, Expands, Overlaps, Earlier, Jumps, Props, Cid, Read, NoData }
fn class(e: &FileReadFailed) -> Option<E> {
    use FileError::*;
    Some(match e {
        FileReadFailed::UnexpectedType(_) => E::Type,
        FileReadFailed::InvalidCid(_) => E::Cid,
        FileReadFailed::Read(Some(_)) => E::Read,
        FileReadFailed::Read(None) => E::NoData,
        FileReadFailed::File(f) => match f {
            LinksAndBlocksizesMismatch => E::Mismatch, NoLinksNoContent => E::NoContent, NonRootDefinesMetadata(_) => E::Metadata, IntermediateNodeWithoutFileSize => E::NoSize,
            TreeExpandsOnLinks => E::Expands, TreeOverlapsBetweenLinks => E::Overlaps, EarlierLink => E::Earlier, TreeJumpsBetweenLinks => E::Jumps, UnexpectedRawOrFileProperties { .. } => E::Props,
        },
    })
}
/// What is wrong with the block on its own.
fn local(x: &N, root: bool) -> Vec<E> {
    if let Some((_, e)) = &x.raw { return vec![*e]; }
    let mut e = vec![];
    if x.ty != 0 && x.ty != 2 { e.push(E::Type); }
    if x.blocks.len() != x.hashes.len() { e.push(E::Mismatch); }
    if x.hashes.is_empty() && x.bytes().is_empty() && x.filesize.unwrap_or(0) > 0 { e.push(E::NoContent); }
    if !root && (x.mode.is_some() || x.mtime.is_some()) { e.push(E::Metadata); }
    if !x.hashes.is_empty() && x.filesize.is_none() { e.push(E::NoSize); }
    if x.hash_type.is_some() || x.fanout.is_some() { e.push(E::Props); }
    if x.hashes.iter().any(|h| h.len() != 36) { e.push(E::Cid); }
    e
}
fn values(e: &FileReadFailed, x: &N) {
    match e {
        FileReadFailed::File(FileError::UnexpectedRawOrFileProperties { hash_type, fanout }) => rt::check(*hash_type == x.hash_type && *fanout == x.fanout, 20),
        FileReadFailed::File(FileError::NonRootDefinesMetadata(m)) => rt::check(m.mode() == x.mode && m.mtime() == x.mtime.map(|(s, n)| (s, n.unwrap_or(0))), 21),
        FileReadFailed::InvalidCid(i) => rt::check(x.hashes.get(i.nth).map_or(false, |h| h.len() != 36 && h[..] == i.hash[..]), 22),
        FileReadFailed::UnexpectedType(t) => { rt::check(t.is_directory() == (x.ty == 1 || x.ty == 5), 23); rt::check(!t.is_file(), 24); }
        _ => {}
    }
}

/// A cache as some earlier visit or walk left it.
pub const USED: u64 = 5;
pub fn used_cache(how: u64) -> Option<unixfs_v1::file::visit::Cache> {
    use unixfs_v1::walk::Walker;
    let mut cache = None;
    let file = |ids: &[u8], bad: bool| {
        let mut l = vec![];
        let mut f = k::Fs::new(k::FILE).filesize(ids.len() as u64 * 2);
        for (i, id) in ids.iter().enumerate() { let c = k::cid_raw(*id); k::link(&mut l, Some(if bad && i + 1 == ids.len() { &c[..5] } else { &c }), None, None); f = f.blocksize(2); }
        f.block(&l)
    };
    let leaf = k::Fs::new(k::RAW).data(b"zz").filesize(2).block(&[]);
    // few or many links
    let ids: Vec<u8> = (0..if rt::choose(2) == 0 { 3 } else { 25 }).map(|i| 0xc8 + i).collect();
    match how {
        // a link block whose last link is unusable, below the root
        0 => {
            let mut l = vec![];
            for c in [0xc1, 0xc2] { k::link(&mut l, Some(&k::cid_raw(c)), None, None); }
            let root = k::Fs::new(k::FILE).filesize(ids.len() as u64 * 2 + 2).blocksize(ids.len() as u64 * 2).blocksize(2).block(&l);
            let Ok((_, _, _, Some(v))) = IdleFileVisit::default().start(&root) else { rt::check(false, 950); return None };
            rt::check(v.continue_walk(&file(&ids, true), &mut cache).is_err(), 951);
        }
        // the same as the root of a walk
        1 => { rt::check(Walker::new(k::cid(0xe0), String::new()).next(&file(&ids, true), &mut cache).is_err(), 952); }
        // a visit or walk which ended
        2 => {
            let root = file(&ids, false);
            let Ok((_, _, _, mut v)) = IdleFileVisit::default().start(&root) else { rt::check(false, 953); return None };
            while let Some(x) = v.take() { match x.continue_walk(&leaf, &mut cache) { Ok((_, y)) => v = y, Err(_) => { rt::check(false, 954); return None } } }
        }
        3 => {
            let root = file(&ids, false);
            let mut w = Walker::new(k::cid(0xe0), String::new());
            rt::check(w.next(&root, &mut cache).is_ok(), 955);
            while w.should_continue() { rt::check(w.next(&leaf, &mut cache).is_ok(), 956); }
        }
        // one which was left, or failed at a leaf
        _ => {
            let root = file(&ids, false);
            let mut w = Walker::new(k::cid(0xe0), String::new());
            rt::check(w.next(&root, &mut cache).is_ok(), 957);
            rt::check(w.next(&leaf, &mut cache).is_ok(), 958);
            rt::check(w.next(&[0x12], &mut cache).is_err(), 959);
        }
    }
    cache
}

/// A visit accepts exactly the trees whose blocks fit together, and says what is wrong with the others.
pub fn h_visit_validation() {
    let mut g = Gen::new();
    let (links, blocks) = (g.links, rt::param("blocks").max(2));
    let root = g.node(links);
    let errs = local(&root, true);
    let b = root.block();
    // with a target range, links away from it may be left out
    let target = if rt::param("range") == 1 { Some((g.size(), g.size())) } else { None };
    let idle = match target { Some((lo, hi)) => IdleFileVisit::default().with_target_range(lo..hi), None => IdleFileVisit::default() };
    let skippable = |from: u64, to: u64| target.map_or(false, |(lo, hi)| lo >= hi || from >= hi || lo >= to);
    let (mut visit, size) = match idle.start(&b) {
        Err(e) => {
            let Some(c) = class(&e) else { rt::check(false, 1); return };
            rt::check(errs.contains(&c), 2);
            values(&e, &root);
            rt::obs(c as u64); rt::cover(10 + c as u32);
            return;
        }
        Ok((bytes, size, meta, visit)) => {
            rt::check(errs.is_empty(), 3);
            rt::check(size == root.size(), 4);
            rt::check(meta.mode() == root.mode && meta.mtime() == root.mtime.map(|(s, n)| (s, n.unwrap_or(0))), 5);
            if target.is_none() {
                rt::check(bytes == if root.hashes.is_empty() { root.bytes() } else { &[] }, 6);
                rt::check(visit.is_some() == !root.hashes.is_empty(), 7);
            }
            (visit, size)
        }
    };
    let push = |todo: &mut Vec<(u8, u64, u64)>, x: &N, at: u64| {
        let mut o = at;
        let mut l = vec![];
        for (h, b) in x.hashes.iter().zip(&x.blocks) { let Some(e) = o.checked_add(*b) else { rt::reject() }; l.push((h[35], o, e)); o = e; }
        l.reverse();
        todo.extend(l);
    };
    let mut todo: Vec<(u8, u64, u64)> = vec![];
    push(&mut todo, &root, 0);
    // where the block before started and ended, and whether it was a leaf
    let (mut start, mut end, mut leaf) = (0u64, root.size(), root.hashes.is_empty());
    let mut n = 1;
    while let Some(v) = visit.take() {
        let (c, rest) = { let (c, rest) = v.pending_links(); (*c, rest.count()) };
        let (from, to) = loop {
            let Some((id, from, to)) = todo.pop() else { rt::check(false, 8); return };
            if c == k::cid(id) { break (from, to); }
            rt::check(skippable(from, to), 9);
        };
        rt::check(if target.is_some() { rest <= todo.len() } else { rest == todo.len() }, 10);
        rt::check(v.file_size() == size, 11);
        { let m = v.as_ref(); rt::check(m.mode() == root.mode && m.mtime() == root.mtime.map(|(s, n)| (s, n.unwrap_or(0))), 18); }
        let x = g.node(if n < blocks { links } else { 0 });
        n += 1;
        let mut errs = local(&x, false);
        if leaf {
            if from != end { errs.push(E::Jumps); }
        } else if from <= start && to > end { errs.push(E::Expands) }
        else if from < end && to > end { errs.push(E::Overlaps) }
        else if from < start { errs.push(E::Earlier) }
        else if from > end { rt::reject() } // the block before covers less than its links: not specified
        let Some(e) = from.checked_add(x.size()) else { rt::reject() };
        let b = x.block();
        match v.continue_walk(&b, &mut None) {
            Err(e) => {
                let Some(c) = class(&e) else { rt::check(false, 12); return };
                rt::check(errs.contains(&c), 13);
                values(&e, &x);
                rt::obs(c as u64); rt::cover(30 + c as u32);
                return;
            }
            Ok((bytes, next)) => {
                rt::check(errs.is_empty(), 14);
                if target.is_none() { rt::check(bytes == if x.hashes.is_empty() { x.bytes() } else { &[] }, 15); rt::obs_bytes(bytes); }
                push(&mut todo, &x, from);
                start = from; end = e; leaf = x.hashes.is_empty();
                if target.is_none() { rt::check(next.is_some() == !todo.is_empty(), 16); }
                visit = next;
            }
        }
    }
    for (_, from, to) in todo { rt::check(skippable(from, to), 17); }
    rt::obs(size);
    rt::cover(if n == 1 { 1 } else { 2 });
}

/// Whatever blocks a visit is given, with whatever target range, every call returns and the visit ends.
pub fn h_visit_hostile() {
    let mut g = Gen::new();
    let links = g.links;
    let mut idle = IdleFileVisit::default();
    let target = rt::choose(2) == 1;
    let (lo, hi) = if target { (g.size(), g.size()) } else { (0, u64::MAX) };
    if target { idle = idle.with_target_range(lo..hi); }
    let b = g.node(links).block();
    let (bytes, mut visit) = match idle.start(&b) { Ok((bytes, _, m, visit)) => { crate::show::value(&m); (bytes, visit) } Err(e) => { crate::show::error(&e); rt::cover(1); return } };
    rt::obs(bytes.len() as u64);
    let mut n = 1u64;
    while let Some(v) = visit.take() {
        { let (_, rest) = v.pending_links(); rt::obs(rest.count() as u64); }
        rt::obs(v.file_size());
        let b = g.node(if n < rt::param("blocks") { links } else { 0 }).block();
        n += 1;
        crate::show::value(&v);
        let (bytes, next) = match v.continue_walk(&b, &mut None) { Ok(x) => x, Err(e) => { crate::show::error(&e); rt::cover(2); return } };
        rt::obs(bytes.len() as u64);
        if target { rt::check(bytes.is_empty() || (lo < hi && bytes.len() as u64 <= hi - lo), 1); }
        visit = next;
    }
    rt::cover(3);
}

/// The same when a later block is any sequence of bytes.
pub fn h_visit_raw() {
    let mut l = vec![];
    for i in 1..3 { k::link(&mut l, Some(&k::cid_raw(i)), Some(b""), Some(9)); }
    let root = k::Fs::new(k::FILE).filesize(8).blocksize(4).blocksize(4).block(&l);
    let target = rt::choose(2) == 1;
    let idle = if target { IdleFileVisit::default().with_target_range(rt::u64()..rt::u64()) } else { IdleFileVisit::default() };
    let Ok((_, _, _, visit)) = idle.start(&root) else { rt::check(false, 1); return };
    let Some(v) = visit else { rt::cover(1); return };
    let b = raw_block();
    match v.continue_walk(&b, &mut None) {
        Ok((bytes, v)) => { rt::obs_bytes(bytes); if let Some(v) = v { drain(v); rt::cover(2) } else { rt::cover(3) } }
        Err(e) => { crate::show::error(&e); rt::obs(class(&e).map_or(99, |c| c as u64)); rt::cover(4); }
    }
}
fn drain(v: FileVisit) { rt::obs(v.pending_links().1.count() as u64); }
/// Bytes nobody vetted: bare, or as the UnixFS message, or as a link next to a valid message.
pub fn raw_block() -> Vec<u8> {
    let d = rt::vec(rt::choose(rt::param("n") + 1) as usize);
    let mut b = vec![];
    match rt::param("wrap") {
        0 => b = d,
        1 => k::bytes(&mut b, 0x0a, &d),
        2 => { k::bytes(&mut b, 0x12, &d); k::bytes(&mut b, 0x0a, &k::Fs::new(rt::param("ty") as u8).b); }
        // extra fields after a complete message of the given type
        _ => { let mut f = if rt::param("ty") == 5 { k::hamt() } else { k::Fs::new(rt::param("ty") as u8) }; f.b.extend_from_slice(&d); k::bytes(&mut b, 0x0a, &f.b); }
    }
    b
}

fn walk_class(e: &unixfs_v1::walk::Error) -> Option<E> {
    use unixfs_v1::walk::Error::*;
    use FileError::*;
    Some(match e {
        UnexpectedType(_) => E::Type,
        InvalidCid(_) => E::Cid,
        File(f) => match f {
            LinksAndBlocksizesMismatch => E::Mismatch, NoLinksNoContent => E::NoContent, NonRootDefinesMetadata(_) => E::Metadata, IntermediateNodeWithoutFileSize => E::NoSize,
            TreeExpandsOnLinks => E::Expands, TreeOverlapsBetweenLinks => E::Overlaps, EarlierLink => E::Earlier, TreeJumpsBetweenLinks => E::Jumps, UnexpectedRawOrFileProperties { .. } => E::Props,
        },
        DagPbParsingFailed(_) | UnixFsParsingFailed(_) => E::Read,
        EmptyDagPbNode => E::NoData,
        _ => return None,
    })
}
/// A walk over any file, valid or not, reads and rejects exactly what a visit of the file does.
pub fn h_walk_as_visit() {
    use unixfs_v1::walk::{ContinuedWalk, Walker};
    let mut g = Gen::new();
    let (links, blocks) = (g.links, rt::param("blocks").max(2));
    let root = g.node(links);
    if root.ty != 0 && root.ty != 2 { rt::reject() }
    let b = root.block();
    let mut w = Walker::new(k::cid(200), "f".to_string());
    // alone, or with another file to follow in the same directory
    let more = rt::choose(2) == 1;
    if more {
        let mut l = vec![];
        for (c, n) in [(200, "f"), (201, "g")] { k::link(&mut l, Some(&k::cid_raw(c)), Some(n.as_bytes()), None); }
        w = Walker::new(k::cid(199), String::new());
        if !w.next(&k::Fs::new(k::DIR).block(&l), &mut None).is_ok() { rt::check(false, 60); return }
    }
    let rest = more as usize;
    let (mut visit, size, meta) = match (IdleFileVisit::default().start(&b), w.next(&b, &mut None)) {
        (Err(e), Err(f)) => { rt::check(class(&e) == walk_class(&f), 61); rt::check(!w.should_continue(), 62); rt::cover(1); return }
        (Ok((bytes, size, meta, visit)), Ok(ContinuedWalk::File(s, c, p, m, z))) => {
            rt::check(s.as_bytes() == bytes && s.is_first() && s.is_last() == visit.is_none(), 63);
            rt::check(*c == k::cid(200) && p.as_os_str() == "f" && *m == meta && z == size, 64);
            rt::obs_bytes(bytes);
            (visit, size, meta)
        }
        _ => { rt::check(false, 65); return }
    };
    let mut n = 1;
    while let Some(v) = visit.take() {
        rt::check(w.should_continue(), 66);
        {
            let ((a, x), (b, y)) = (v.pending_links(), w.pending_links());
            rt::check(a == b, 67);
            let (x, y): (Vec<_>, Vec<_>) = (x.collect(), y.collect());
            rt::check(y.len() == x.len() + rest && x[..] == y[..x.len()], 68);
            if more { rt::check(**y.last().unwrap() == k::cid(201), 69); }
        }
        let b = g.node(if n < blocks { links } else { 0 }).block();
        n += 1;
        visit = match (v.continue_walk(&b, &mut None), w.next(&b, &mut None)) {
            (Err(e), Err(f)) => { rt::check(class(&e) == walk_class(&f), 70); rt::check(!w.should_continue(), 71); rt::cover(2); return }
            (Ok((bytes, visit)), Ok(ContinuedWalk::File(s, c, p, m, z))) => {
                rt::check(s.as_bytes() == bytes && !s.is_first() && s.is_last() == visit.is_none(), 72);
                rt::check(*c == k::cid(200) && p.as_os_str() == "f" && *m == meta && z == size, 73);
                rt::obs_bytes(bytes);
                visit
            }
            _ => { rt::check(false, 74); return }
        };
    }
    rt::check(w.should_continue() == more, 75);
    if more { rt::check(*w.pending_links().0 == k::cid(201) && w.pending_links().1.count() == 0, 76); }
    rt::cover(if n == 1 { 3 } else { 4 });
}
