//! Importing files and reading them back.
use crate::{k, rt};
use libipld::Cid;
use unixfs_v1::file::{adder::*, visit::{Cache, IdleFileVisit}};

type Blocks = Vec<(Cid, Vec<u8>)>;

fn adder(chunk: usize, bf: usize) -> FileAdder {
    // no tree gets anywhere with one link to a node: that can only be refused
    rt::may_panic(bf < 2);
    let collector = BalancedCollector::with_branching_factor(bf);
    rt::may_panic(false);
    FileAdder::builder().with_chunker(Chunker::Size(chunk)).with_collector(collector).build()
}
/// Pushes `data`; every call is offered what `offer` says (at least one byte) of what remains.
fn import(mut a: FileAdder, data: &[u8], mut offer: impl FnMut(usize) -> usize) -> Blocks {
    let mut out = Vec::new();
    let mut at = 0;
    // empty chunks hold nothing: pushing to them can only be refused
    rt::may_panic(a.size_hint() == 0);
    while at < data.len() {
        let n = offer(data.len() - at);
        let (b, used) = a.push(&data[at..at + n]);
        out.extend(b);
        rt::check(used <= n && used > 0, 900);
        crate::show::value(&a);
        at += used;
    }
    rt::may_panic(false);
    out.extend(a.finish());
    out
}
struct Cfg { chunk: usize, bf: usize, data: Vec<u8> }
/// A configuration: chunk size, branching factor and length from the parameter ranges; every content byte symbolic.
fn cfg() -> Cfg {
    // sizes no file gets to, which are a way to ask for a single chunk or a single level of links
    const HUGE: [usize; 4] = [usize::MAX, isize::MAX as usize, usize::MAX / 64, 1 << 40];
    let huge = rt::param("huge");
    let chunk = if huge & 1 == 1 { HUGE[rt::choose(4) as usize] } else { rt::pick(rt::param("chunk_lo"), rt::param("chunk_hi")) as usize };
    let bf = if huge & 2 == 2 { HUGE[rt::choose(4) as usize] } else { rt::pick(rt::param("bf_lo"), rt::param("bf_hi")) as usize };
    let len = rt::pick(rt::param("len_lo"), rt::param("len_hi")) as usize;
    let mut data = rt::vec(len);
    // chunks which are the same, all of them or some
    if rt::param("dup") == 1 {
        match rt::choose(if rt::big() { 3 } else { 2 }) {
            0 => for i in chunk.min(len)..len { data[i] = data[i - chunk]; },
            1 => for i in chunk.saturating_mul(2).min(len)..len { data[i] = data[i - 2 * chunk]; },
            _ => for c in 1..len / chunk { if rt::choose(2) == 1 { let from = rt::choose(c as u64) as usize; for i in 0..chunk { data[c * chunk + i] = data[from * chunk + i]; } } },
        }
    }
    Cfg { chunk, bf, data }
}
/// Reads the whole file back through the visitor; the links pending after a block are those seen before without it, preceded by links of the block.
fn read(root: &[u8], s: &Blocks, range: Option<core::ops::Range<u64>>, cache: &mut Option<Cache>, mut seen: impl FnMut(&Cid)) -> (Vec<u8>, u64) {
    let mut v = IdleFileVisit::default();
    if let Some(r) = range { v = v.with_target_range(r); }
    let Ok((c, size, meta, mut step)) = v.start(root) else { rt::check(false, 901); unreachable!() };
    rt::check(meta == unixfs_v1::Metadata::default(), 902);
    let mut out = c.to_vec();
    let mut rest: Vec<Cid> = vec![];
    while let Some(v) = step {
        rt::check(v.file_size() == size && *v.as_ref() == meta, 903);
        let (next, others) = v.pending_links();
        let next = *next;
        let others: Vec<Cid> = others.copied().collect();
        // what was pending stays pending, at the end and in the same order
        rt::check(others.len() + 1 >= rest.len(), 906);
        let new = others.len() + 1 - rest.len();
        for i in 0..rest.len() { let j = new + i; rt::check(rest[i] == if j == 0 { next } else { others[j - 1] }, 907); }
        seen(&next);
        let Some(b) = k::find(s, &next) else { rt::check(false, 904); unreachable!() };
        let Ok((c, s)) = v.continue_walk(b, cache) else { rt::check(false, 905); unreachable!() };
        out.extend_from_slice(c);
        rest = others;
        step = s;
    }
    rt::check(rest.is_empty(), 908);
    (out, size)
}

/// Import then read back gives the same bytes.
pub fn h_file_roundtrip() {
    let c = cfg();
    let step = rt::pick(1, rt::param("steps")) as usize;
    let s = import(adder(c.chunk, c.bf), &c.data, |left| if step == 1 { left } else { left.min(step - 1) });
    let root = &s[s.len() - 1].1;
    let mut cache = match rt::choose(if rt::param("cache") == 1 { 2 + crate::visit::USED } else { 2 }) { 0 => None, 1 => Some(Cache::default()), c => crate::visit::used_cache(c - 2) };
    let (got, size) = read(root, &s, None, &mut cache, |_| ());
    rt::check(size == c.data.len() as u64, 1);
    rt::check(got == c.data, 2);
    rt::obs(s.len() as u64); rt::obs_bytes(&got);
    rt::cover(if s.len() == 1 { 1 } else if s.len() > c.data.len().div_ceil(c.chunk) + 1 { 3 } else { 2 });
}

/// The sequence of blocks does not depend on how the content was cut into pushes.
pub fn h_file_segmentation() {
    let c = cfg();
    let s = import(adder(c.chunk, c.bf), &c.data, |left| left);
    let mut a = adder(c.chunk, c.bf);
    rt::check(a.size_hint() == c.chunk, 1);
    let max = rt::param("piece");
    let (mut at, mut t, mut buffered) = (0, Vec::new(), 0);
    let mut empties = 0;
    while at < c.data.len() {
        let left = c.data.len() - at;
        let lo = if empties == 0 { 0 } else { 1 };
        let n = match if rt::big() { rt::choose(3) } else { 0 } {
            0 => rt::pick(lo, max.min(left as u64)) as usize,
            // up to the end of the chunk, almost or a little more
            1 => (c.chunk - buffered).saturating_sub(rt::choose(4) as usize).clamp(lo as usize, left),
            _ => (c.chunk - buffered + rt::choose(3) as usize).min(left),
        };
        if n == 0 { empties += 1; }
        let (b, used) = a.push(&c.data[at..at + n]);
        let b: Blocks = b.collect();
        // consumes as much as still fits the current chunk, and hands out blocks exactly when it fills
        rt::check(used == n.min(c.chunk - buffered), 2);
        buffered += used;
        rt::check(b.is_empty() == (buffered < c.chunk), 3);
        rt::check(b.len() <= 2, 4);
        if buffered == c.chunk { buffered = 0; rt::cover(1); }
        if b.len() == 2 { rt::cover(2); }
        t.extend(b);
        at += used;
    }
    t.extend(a.finish());
    rt::check(s == t, 5);
    rt::obs(s.len() as u64); for x in &s { rt::obs(x.1.len() as u64); }
}

/// Every block is named by its hash, comes after everything it links to, and the last one reaches all of them.
pub fn h_file_blocks() {
    let c = cfg();
    let s = import(adder(c.chunk, c.bf), &c.data, |left| left);
    rt::check(!s.is_empty(), 1);
    let mut total: Vec<u64> = Vec::new(); // cumulative size per emitted block
    let mut size: Vec<u64> = Vec::new(); // file bytes below
    let mut linked = vec![false; s.len()];
    for (i, (cid, b)) in s.iter().enumerate() {
        rt::check(*cid == k::sha_cid(b), 2);
        let Some(n) = k::decode(b) else { rt::check(false, 3); return };
        rt::check(n.ty == k::FILE as u64 || n.ty == k::RAW as u64, 4);
        rt::check(n.links.len() == n.blocksizes.len(), 5);
        let (mut t, mut f) = (b.len() as u64, n.data.map_or(0, |d| d.len() as u64));
        for (l, bs) in n.links.iter().zip(&n.blocksizes) {
            let Some(j) = (0..i).find(|j| s[*j].0.to_bytes() == l.0) else { rt::check(false, 6); return };
            rt::check(l.2 == total[j], 7);
            rt::check(*bs == size[j], 8);
            rt::check(l.1.is_empty(), 9);
            // every earlier emission of the same block counts as linked
            for x in 0..i { if s[x].0 == s[j].0 { linked[x] = true; } }
            t += total[j]; f += size[j];
        }
        rt::check(n.filesize == Some(f), 10);
        total.push(t); size.push(f);
    }
    rt::check(size[s.len() - 1] == c.data.len() as u64, 11);
    for x in 0..s.len() - 1 { rt::check(linked[x] || s[x].0 == s[s.len() - 1].0, 12); }
    rt::obs(s.len() as u64); rt::obs(total[s.len() - 1]);
    rt::cover(if s.len() == 1 { 1 } else { 2 });
}

/// The canonical balanced tree (cid, file size, cumulative size) over `data`, level by level.
fn reference(chunk: usize, bf: usize, data: &[u8]) -> (Vec<Vec<u8>>, Cid) {
    let mut blocks = vec![];
    let mut level = vec![];
    let chunks: Vec<&[u8]> = if data.is_empty() { vec![data] } else { data.chunks(chunk).collect() };
    for d in chunks {
        let mut f = k::Fs::new(k::FILE);
        if !d.is_empty() { f = f.data(d); }
        let b = f.filesize(d.len() as u64).block(&[]);
        level.push((k::sha_cid(&b), d.len() as u64, b.len() as u64));
        blocks.push(b);
    }
    while level.len() > 1 {
        let mut up = vec![];
        for g in level.chunks(bf) {
            let mut links = vec![];
            for (c, _, t) in g { k::link(&mut links, Some(&c.to_bytes()), Some(b""), Some(*t)); }
            let size: u64 = g.iter().map(|x| x.1).sum();
            let mut f = k::Fs::new(k::FILE).filesize(size);
            for x in g { f = f.blocksize(x.1); }
            let b = f.block(&links);
            up.push((k::sha_cid(&b), size, b.len() as u64 + g.iter().map(|x| x.2).sum::<u64>()));
            blocks.push(b);
        }
        level = up;
    }
    (blocks, level[0].0)
}
/// The emitted blocks are exactly those of the canonical balanced layout.
pub fn h_file_layout() {
    let c = cfg();
    let bf = c.bf;
    let s = import(adder(c.chunk, bf), &c.data, |left| left);
    let (blocks, root) = reference(c.chunk, bf, &c.data);
    rt::check(s.len() == blocks.len(), 1);
    rt::check(s[s.len() - 1].0 == root, 2);
    let mut used = vec![false; s.len()];
    for b in &blocks {
        let Some(i) = (0..s.len()).find(|i| !used[*i] && s[*i].1 == *b) else { rt::check(false, 3); return };
        used[i] = true;
    }
    rt::obs(s.len() as u64); for x in &s { rt::obs(x.1.len() as u64); }
    rt::cover(if s.len() == 1 { 1 } else { 2 });
}
/// The same with the default chunker (256 KiB) and collector (174 links).
pub fn h_file_defaults() {
    let len = rt::param("len") as usize;
    let mut data = vec![0u8; len];
    // the bytes around every chunk boundary are symbolic
    let mut i = 0;
    while i < len { if i % 262144 < 4 || i % 262144 >= 262140 || i + 4 >= len { data[i] = rt::u8(); } i += if i % 262144 == 8 && i + 262000 < len { 262000 } else { 1 }; }
    let mut a = match rt::choose(4) { 0 => FileAdder::default(), 1 => FileAdder::builder().build(), 2 => FileAdder::builder().with_chunker(Chunker::Size(262144)).build(), _ => FileAdder::builder().with_collector(BalancedCollector::default()).build() };
    rt::check(a.size_hint() == 262144, 1);
    let (mut s, mut at): (Blocks, usize) = (vec![], 0);
    let piece = [len.max(1), 262144, 100_000, 262143][rt::choose(4) as usize];
    while at < len { let (b, n) = a.push(&data[at..len.min(at + piece)]); s.extend(b); rt::check(n > 0, 2); at += n; }
    s.extend(a.finish());
    let (blocks, root) = reference(262144, 174, &data);
    rt::check(s.len() == blocks.len(), 3);
    rt::check(s[s.len() - 1].0 == root, 4);
    for b in &blocks { rt::check(s.iter().any(|x| x.1 == *b), 5); }
    let (got, size) = read(&s[s.len() - 1].1, &s, None, &mut None, |_| ());
    rt::check(size == len as u64 && got == data, 6);
    rt::obs(s.len() as u64); rt::cover(1);
}

/// One end of a range: any number, or one close to some place in the file.
fn end(len: u64) -> u64 { if rt::param("near") == 0 { rt::uint(rt::param("bits")) } else { let v = rt::u8(); rt::assume(v < rt::param("near") as u8); rt::choose(len + 1) + v as u64 } }
/// A visit limited to `start..end` returns exactly the file bytes with those offsets.
pub fn h_file_range() {
    let c = cfg();
    let len = c.data.len() as u64;
    let s = import(adder(c.chunk, c.bf), &c.data, |left| left);
    let (a, b) = (end(len), end(len));
    let (got, size) = read(&s[s.len() - 1].1, &s, Some(a..b), &mut None, |_| ());
    rt::check(size == len, 1);
    let (x, y) = if a >= b { (0, 0) } else { (a.min(len), b.min(len)) };
    rt::check(got.len() as u64 == y - x, 2);
    for i in 0..got.len() { rt::check(got[i] == c.data[x as usize + i], 3); }
    rt::obs(a); rt::obs(b); rt::obs_bytes(&got);
    rt::cover(if got.is_empty() { 1 } else if got.len() as u64 == len { 2 } else { 3 });
}

fn spread(s: &Blocks, c: &Cid, at: u64, out: &mut Vec<(Cid, u64, u64)>) {
    let Some(n) = k::find(s, c).and_then(k::decode) else { rt::check(false, 1); return };
    out.push((*c, at, at + n.filesize.unwrap_or(0)));
    let mut o = at;
    for (l, bs) in n.links.iter().zip(&n.blocksizes) { spread(s, &Cid::try_from(&l.0[..]).unwrap(), o, out); o += bs; }
}
/// A visit limited to `start..end` asks for every block overlapping it and none lying wholly outside, in file order, and never twice.
pub fn h_file_range_fetch() {
    let mut c = cfg();
    let same = rt::param("dup") == 1;
    let period = if same { 1 + rt::choose(3) as usize } else { usize::MAX };
    for (i, b) in c.data.iter_mut().enumerate() { let n = i / c.chunk % period; *b = if i % c.chunk > 0 { (n / 256) as u8 } else { n as u8 }; } // distinct leaves, or a few
    let s = import(adder(c.chunk, c.bf), &c.data, |left| left);
    // the span of every node, in depth-first order
    let mut spans: Vec<(Cid, u64, u64)> = vec![];
    spread(&s, &s[s.len() - 1].0, 0, &mut spans);
    let (a, b) = (end(c.data.len() as u64), end(c.data.len() as u64));
    rt::assume(a <= b);
    if same {
        // a block is asked for as often as it is where the range is
        let mut asked: Vec<Cid> = vec![];
        let (_, _) = read(&s[s.len() - 1].1, &s, Some(a..b), &mut None, |cid| asked.push(*cid));
        for x in s.iter() {
            let n = asked.iter().filter(|c| **c == x.0).count() as u64;
            let (mut least, mut most) = (0, 0);
            for y in spans.iter().skip(1).filter(|y| y.0 == x.0) { least += (y.1 < b && a < y.2 && a < b) as u64; most += (y.1 <= b && a <= y.2) as u64; }
            rt::check(least <= n, 6);
            rt::check(n <= most, 7);
        }
        rt::obs(a); rt::obs(b); rt::obs(asked.len() as u64);
        rt::cover(4);
        return;
    }
    let mut asked: Vec<usize> = vec![];
    let (_, _) = read(&s[s.len() - 1].1, &s, Some(a..b), &mut None, |cid| {
        let Some(i) = spans.iter().position(|x| x.0 == *cid) else { rt::check(false, 2); return };
        let x = &spans[i];
        rt::check(x.1 <= b && a <= x.2, 3);
        rt::check(asked.last().map_or(true, |p| *p < i), 4);
        asked.push(i);
    });
    // nothing which overlaps is left out
    for (i, x) in spans.iter().enumerate().skip(1) { if x.1 < b && a < x.2 && a < b { rt::check(asked.contains(&i), 5); } }
    rt::obs(a); rt::obs(b); rt::obs(asked.len() as u64);
    rt::cover(if asked.is_empty() { 1 } else if asked.len() < s.len() - 1 { 2 } else { 3 });
}
