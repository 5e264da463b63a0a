//! Resolving one path segment over plain and sharded directories, against a direct reading of the links.
use crate::{k, rt};
use libipld::Cid;
use unixfs_v1::dir::{Cache, MultipleMatchingLinks, ShardError, ShardedLookup};
use unixfs_v1::walk::Walker;
use unixfs_v1::{resolve, InvalidCidInLink, LookupError, MaybeResolved, ResolveError};

/// A link as the block has it.
struct L { hash: Option<Vec<u8>>, name: Option<Vec<u8>> }
impl L {
    fn name(&self) -> &[u8] { self.name.as_deref().unwrap_or(b"") }
    fn hash(&self) -> &[u8] { self.hash.as_deref().unwrap_or(b"") }
    /// Only whole CIDs of the two versions used here, or one without a hash or with a stray byte.
    fn cid(&self) -> Option<Cid> { if self.hash().len() > 30 { Some(Cid::try_from(self.hash()).unwrap()) } else { None } }
}
fn encode(l: &[L]) -> Vec<u8> { let mut o = Vec::with_capacity(512); for x in l { k::link(&mut o, x.hash.as_deref(), x.name.as_deref(), None); } o }
fn hash(id: u8) -> Option<Vec<u8>> { match if rt::param("badcid") == 1 && (!rt::big() || rt::choose(60) == 0) { rt::choose(4) } else { 0 } { 0 => Some(k::cid_raw(id).to_vec()), 1 => Some(k::cid0_raw(id).to_vec()), 2 => Some(vec![id]), _ => None } }
/// The outcomes a lookup can have.
#[derive(PartialEq, Debug)]
enum R { Found(Cid), More(Vec<Cid>), NotFound, Two(usize, Cid, usize, Cid), OneValid(usize, Cid, Bad), Bad(Bad), Type(u8), Read, NoData, Dir, Unsupported(Option<u64>, Option<u64>), Unexpected(Option<u64>, Vec<u64>) }
#[derive(PartialEq, Debug)]
struct Bad { nth: usize, hash: Vec<u8>, name: Vec<u8> }
fn bad(e: &InvalidCidInLink) -> Bad { Bad { nth: e.nth, hash: e.hash.to_vec(), name: e.name.as_bytes().to_vec() } }
fn bad_link(nth: usize, l: &L) -> Bad { Bad { nth, hash: l.hash().to_vec(), name: l.name().to_vec() } }
fn lookup_error(e: &LookupError) -> R {
    match e {
        LookupError::Multiple(MultipleMatchingLinks::Two { first, second }) => R::Two(first.0, first.1, second.0, second.1),
        LookupError::Multiple(MultipleMatchingLinks::OneValid { first, second }) => R::OneValid(first.0, first.1, bad(second)),
        LookupError::InvalidCid(e) => R::Bad(bad(e)),
        LookupError::UnexpectedBucketType(t) => { rt::check(!t.is_file() || true, 90); R::Type(kind(t.is_directory(), t.is_file())) }
        LookupError::Shard(ShardError::UnsupportedProperties { hash_type, fanout }) => R::Unsupported(*hash_type, *fanout),
        LookupError::Shard(ShardError::UnexpectedProperties { filesize, blocksizes }) => R::Unexpected(*filesize, blocksizes.clone()),
        LookupError::Read(Some(_)) => R::Read,
        LookupError::Read(None) => R::NoData,
    }
}
fn kind(dir: bool, file: bool) -> u8 { if dir { 1 } else if file { 2 } else { 0 } }
fn kind_of(ty: u8) -> u8 { kind(ty == k::DIR || ty == k::HAMT, ty == k::FILE) }
fn outcome(r: &Result<MaybeResolved<'_>, ResolveError>) -> R {
    match r {
        Ok(MaybeResolved::Found(c)) => R::Found(*c),
        Ok(MaybeResolved::NotFound) => R::NotFound,
        Ok(MaybeResolved::NeedToLoadMore(s)) => R::More(pending(s)),
        Err(ResolveError::UnexpectedType(t)) => R::Type(kind(t.is_directory(), t.is_file())),
        Err(ResolveError::UnexpectedDirProperties(_)) => R::Dir,
        Err(ResolveError::Read(_)) => R::Read,
        Err(ResolveError::Lookup(e)) => lookup_error(e),
    }
}
fn pending(s: &ShardedLookup<'_>) -> Vec<Cid> { let (a, b) = s.pending_links(); std::iter::once(*a).chain(b.copied()).collect() }
fn code(r: &R) -> u32 { match r { R::Found(_) => 1, R::More(_) => 2, R::NotFound => 3, R::Two(..) => 4, R::OneValid(..) => 5, R::Bad(_) => 6, R::Type(_) => 7, R::Read => 8, R::NoData => 9, R::Dir => 10, R::Unsupported(..) => 11, R::Unexpected(..) => 12 } }

/// What the links of a single block say about `needle`.
fn plain(l: &[L], needle: &[u8]) -> R {
    if l.iter().any(|x| std::str::from_utf8(x.name()).is_err()) { return R::Read; }
    let mut m = l.iter().enumerate().filter(|x| x.1.name() == needle);
    let Some((i, a)) = m.next() else { return R::NotFound };
    let Some(c) = a.cid() else { return R::Bad(bad_link(i, a)) };
    match m.next() { None => R::Found(c), Some((j, b)) => match b.cid() { Some(d) => R::Two(i, c, j, d), None => R::OneValid(i, c, bad_link(j, b)) } }
}
fn needle() -> Vec<u8> { if rt::big() { return large(); } let n = rt::vec(rt::choose(rt::param("needle") + 1) as usize); if std::str::from_utf8(&n).is_err() { rt::reject() } n }
/// Names and needles among many links.
fn large() -> Vec<u8> {
    match rt::choose(14) {
        12 => { let n = rt::vec(1 + rt::choose(6) as usize); for b in &n { rt::assume(*b < 0x80); } n }
        13 => format!("N{}", rt::choose(40)).into_bytes(),
        0 => vec![[b'x', b'F', b'0'][rt::choose(3) as usize]; [1, 2, 3, 100, 126, 127, 128, 255, 256, 257, 300][rt::choose(11) as usize]],
        1 => vec![],
        2 => ["F", "00", "F0", "\u{fc}", "a\u{1f600}"][rt::choose(5) as usize].as_bytes().to_vec(),
        _ => format!("n{}", rt::choose(40)).into_bytes(),
    }
}
fn name() -> Option<Vec<u8>> { if rt::big() { return if rt::choose(30) == 0 { None } else { Some(large()) } } let n = rt::choose(rt::param("name") + 2) as usize; if n == 0 { None } else { Some(rt::vec(n - 1)) } }

/// A single block of any kind gives the one link of that name, says there is none, or what is wrong.
pub fn h_resolve_dir() {
    let n = rt::choose(rt::param("links") + 1);
    if n > 200 { rt::reject() }
    let l: Vec<L> = (0..n).map(|i| L { hash: hash(i as u8 + 1), name: name() }).collect();
    let links = encode(&l);
    let needle = needle();
    let mut want = plain(&l, &needle);
    let block = match rt::choose(if rt::param("types") == 1 { 9 } else { 4 }) {
        0 => k::Fs::new(k::DIR).mode(rt::u32()).block(&links),
        1 => links,
        2 => { let mut b = links; b.extend_from_slice(&[0x0a, 0]); b }
        // a message of an unknown type is read as one of type raw; one which is no message does not hide the links
        3 => { let mut b = links; b.extend_from_slice(&[0x0a, 2, 0x08, 0xff]); b }
        4 => { let mut b = links; b.push(0x12); want = R::Read; b }
        t => { let ty = [k::RAW, k::FILE, k::META, k::SYMLINK][t as usize - 5]; if want != R::Read { want = R::Type(kind_of(ty)); } k::Fs::new(ty).block(&links) }
    };
    let mut cache = None;
    let r = resolve(&block, std::str::from_utf8(&needle).unwrap(), &mut cache);
    let got = outcome(&r);
    rt::check(got == want, 1);
    if let Err(ResolveError::Lookup(LookupError::Multiple(m))) = r { let c = match &want { R::Two(_, c, ..) | R::OneValid(_, c, _) => *c, _ => rt::reject() }; rt::check(m.into_inner() == c, 2); }
    rt::obs(code(&got) as u64); rt::cover(code(&got));
}

/// One block of a sharded directory.
fn shard(next: &mut u8, links: u64, full: bool) -> Vec<L> {
    let n = rt::choose(links + 1);
    (0..n).map(|i| {
        if *next > 200 { rt::reject() }
        *next += 1;
        let name = if rt::big() {
            match rt::choose(5) { 0 => name(), 1 | 2 => Some(format!("{:02X}", rt::choose(256)).into_bytes()), _ => { let mut p = format!("{:02X}", rt::choose(256)).into_bytes(); p.extend_from_slice(&large()); Some(p) } }
        } else if full { name() } else {
            // a bucket, an entry, or something which is neither
            match rt::choose(3) { 0 => Some(b"F0".to_vec()), 1 => { let mut p = vec![b'A', b'0' + i as u8]; p.extend_from_slice(&rt::vec(1 + rt::choose(rt::param("name")) as usize)); Some(p) } _ => name().filter(|n| n.len() < 2) }
        };
        // links may have the same block behind them
        let id = if rt::param("dup") == 1 && (if rt::big() { rt::choose(4) == 0 } else { i > 0 && rt::choose(2) == 1 }) { if rt::big() { 1 + rt::choose(*next as u64) as u8 } else { *next - 1 } } else { *next };
        L { hash: hash(id), name }
    }).collect()
}
/// Reads the links of one bucket in order: `Ok(found)` after appending the buckets, or the first problem.
fn bucket(l: &[L], needle: &[u8], work: &mut Vec<Cid>) -> Result<Option<Cid>, R> {
    if l.iter().any(|x| std::str::from_utf8(x.name()).is_err()) { return Err(R::Read); }
    let mut found: Option<(usize, Cid)> = None;
    for (i, x) in l.iter().enumerate() {
        let n = x.name();
        // an entry's name follows a two byte prefix, which is text by itself
        if n.len() > 2 && std::str::from_utf8(&n[..2]).is_ok() && n[2..] == *needle {
            match (found, x.cid()) {
                (None, Some(c)) => found = Some((i, c)),
                (None, None) => return Err(R::Bad(bad_link(i, x))),
                (Some((j, a)), Some(c)) => return Err(R::Two(j, a, i, c)),
                (Some((j, a)), None) => return Err(R::OneValid(j, a, bad_link(i, x))),
            }
        } else if n.len() == 2 {
            match x.cid() { Some(c) => work.push(c), None => return Err(R::Bad(bad_link(i, x))) }
        }
    }
    Ok(found.map(|x| x.1))
}
fn step(l: &[L], needle: &[u8], work: &mut Vec<Cid>) -> R {
    match bucket(l, needle, work) { Err(e) => e, Ok(Some(c)) => R::Found(c), Ok(None) if work.is_empty() => R::NotFound, Ok(None) => R::More(work.clone()) }
}
/// A cache as some earlier lookup left it, with its work undone.
fn used_cache() -> Option<Cache> {
    let mut l = vec![];
    for i in 0..if rt::choose(2) == 0 { 2 } else { 25 } { k::link(&mut l, Some(&k::cid_raw(0xd0 + i)), Some(&[b'0' + i / 10, b'0' + i % 10]), None); }
    k::link(&mut l, Some(&k::cid_raw(0xcf)), Some(b"02x"), None);
    let mut c = None;
    match rt::choose(2) {
        0 => { rt::check(matches!(resolve(&k::hamt().block(&l), "x", &mut c), Ok(MaybeResolved::Found(_))), 91); }
        _ => {
            let Ok(MaybeResolved::NeedToLoadMore(s)) = resolve(&k::hamt().block(&l), "y", &mut c) else { rt::check(false, 92); return None };
            rt::check(s.continue_walk(&[0x12], &mut c).is_err(), 93);
        }
    }
    c
}

/// A lookup over several buckets visits them in the order found, and ends at the first block which has the entry.
pub fn h_resolve_hamt() {
    let needle = needle();
    let text = std::str::from_utf8(&needle).unwrap();
    let (links, blocks, full, other) = (rt::param("links"), rt::param("blocks"), rt::param("full") == 1, rt::param("other") == 1);
    let mut cache = if rt::param("cache") == 1 { used_cache() } else { None };
    let mut next = 0;
    let mut work = vec![];
    let l = shard(&mut next, links, full);
    let mut want = step(&l, &needle, &mut work);
    let b = k::hamt().block(&encode(&l));
    let mut r = resolve(&b, text, &mut cache);
    let mut n = 1;
    loop {
        let got = outcome(&r);
        if let Err(e) = &r { crate::show::error(e); }
        rt::check(got == want, 1);
        rt::obs(code(&got) as u64);
        let Ok(MaybeResolved::NeedToLoadMore(s)) = r else { rt::cover(code(&got)); if n > 1 { rt::cover(20 + code(&got)); } break };
        if n == blocks { rt::cover(2); return }
        // a caller may take the lookup elsewhere at any point
        let s = if rt::choose(2) == 1 { s.with_owned_needle() } else { s };
        work.remove(0);
        let (b, w) = match if other && (!rt::big() || rt::choose(10) == 0) { rt::choose(6) } else { 0 } {
            0 => { let l = shard(&mut next, if n + 1 < blocks { if rt::big() { links / 3 } else { links } } else { rt::param("last") }, full); let w = step(&l, &needle, &mut work); (k::hamt().block(&encode(&l)), w) }
            1 => (vec![], R::NoData),
            2 => (vec![0x0a, 2, 0x12, 9], R::Read),
            3 => (vec![0x12], R::Read),
            t => { let ty = [k::DIR, k::FILE, k::RAW, k::SYMLINK, k::META][if t == 4 { 0 } else { 1 + rt::choose(4) as usize }]; (k::Fs::new(ty).block(&[]), R::Type(kind_of(ty))) }
        };
        want = w;
        n += 1;
        r = s.continue_walk(&b, &mut cache).map_err(|e| { let x = lookup_error(&e); let e = e.into_resolve_error(); rt::check(matches!(&e, ResolveError::Lookup(e) if lookup_error(e) == x), 2); e });
    }
    // and whatever is left for the next lookup does not change it
    if rt::param("cache") == 1 {
        let mut l = vec![]; k::link(&mut l, Some(&k::cid_raw(0xaa)), Some(b"00"), None);
        let b = k::hamt().block(&l);
        rt::check(outcome(&resolve(&b, "q", &mut cache)) == R::More(vec![k::cid(0xaa)]), 3);
        rt::check(outcome(&resolve(&k::hamt().block(&[]), "q", &mut cache)) == R::NotFound, 4);
    }
}

/// Properties which a directory or shard must not have are reported with their values, by both ways of reading it.
pub fn h_dir_properties() {
    let hamt = rt::choose(2) == 1;
    let some = |v: u64| rt::choose(2) == 1 && v != 0;
    let (filesize, fanout, hash_type) = (some(1), rt::choose(if hamt { 3 } else { 2 }), rt::choose(if hamt { 3 } else { 2 }));
    let blocks = rt::choose(3);
    let data = rt::choose(3) as usize;
    let (fs, x, y) = (rt::u64(), rt::u64(), rt::u64());
    let sizes: Vec<u64> = (0..blocks).map(|_| rt::u64()).collect();
    let mut f = k::Fs::new(if hamt { k::HAMT } else { k::DIR });
    if data > 0 { f = f.data(&[0xab; 2][..data - 1]); }
    if filesize { f = f.pnum(0x18, fs); }
    for s in &sizes { f = f.pnum(0x20, *s); }
    let value = |c: u64, v: u64, right: u64| match c { 0 => None, 1 => Some(v), _ => Some(right) };
    let (ht, fo) = (value(hash_type, x, 34), value(fanout, y, 256));
    if let Some(v) = ht { f = f.pnum(0x28, v); }
    if let Some(v) = fo { f = f.pnum(0x30, v); }
    let mut l = vec![]; k::link(&mut l, Some(&k::cid_raw(1)), Some(b"00a"), None);
    let b = f.block(&l);
    let fsv = if filesize { Some(fs) } else { None };
    let want = if hamt {
        if ht != Some(34) || fo != Some(256) { R::Unsupported(ht, fo) } else if filesize || blocks > 0 { R::Unexpected(fsv, sizes.clone()) } else { R::Found(k::cid(1)) }
    } else if filesize || blocks > 0 || ht.is_some() || fo.is_some() || data > 1 { R::Dir } else { R::Found(k::cid(1)) };
    let mut cache = None;
    let r = resolve(&b, if hamt { "a" } else { "00a" }, &mut cache);
    let got = outcome(&r);
    rt::check(got == want, 1);
    // a bucket further down is held to the same
    if hamt {
        let mut l = vec![]; k::link(&mut l, Some(&k::cid_raw(9)), Some(b"00"), None);
        let Ok(MaybeResolved::NeedToLoadMore(s)) = resolve(&k::hamt().block(&l), "a", &mut None) else { rt::check(false, 2); return };
        match s.continue_walk(&b, &mut None) { Ok(m) => rt::check(matches!(m, MaybeResolved::Found(c) if want == R::Found(c)), 3), Err(e) => rt::check(lookup_error(&e) == want, 4) }
    }
    // and so is the walker, as root and below
    let below = rt::choose(4);
    let mut w = Walker::new(k::cid(5), String::new());
    if below > 0 {
        let mut l = vec![]; k::link(&mut l, Some(&k::cid_raw(6)), Some([&b"d"[..], b"00", b"00d"][below as usize - 1]), None);
        rt::check(w.next(&(if below == 1 { k::Fs::new(k::DIR) } else { k::hamt() }).block(&l), &mut None).is_ok(), 5);
    }
    let wr = w.next(&b, &mut None);
    use unixfs_v1::walk::Error as E;
    match (&wr, &want) {
        // only another shard can be a bucket
        (Err(E::UnexpectedType(t)), _) if below == 2 && !hamt => rt::check(t.is_directory(), 9),
        _ if below == 2 && !hamt => rt::check(false, 10),
        (Ok(_), R::Found(_)) => {}
        (Err(E::UnsupportedDirectory(_)), R::Dir) => {}
        (Err(E::UnsupportedHAMTShard(ShardError::UnsupportedProperties { hash_type, fanout })), R::Unsupported(h, f)) => { rt::check(hash_type == h && fanout == f, 6) }
        (Err(E::UnsupportedHAMTShard(ShardError::UnexpectedProperties { filesize, blocksizes })), R::Unexpected(f, s)) => { rt::check(filesize == f && blocksizes == s, 7) }
        _ => rt::check(false, 8),
    }
    rt::obs(code(&got) as u64); rt::cover(code(&got));
}
/// The message about an unsupported directory has every value.
pub fn h_dir_properties_text() {
    let here = |i: u64| i;
    let (filesize, blocks, hash_type, fanout, data) = (rt::choose(5), rt::choose(4), rt::choose(4), rt::choose(4), rt::choose(5) as usize);
    let mut f = k::Fs::new(k::DIR);
    let bytes: Vec<u8> = (0..[0, 1, 2, 40, 300][data]).map(|i| (0x0b + i * 0xf3) as u8).collect();
    if data > 0 { f = f.data(&bytes); }
    let sizes = [("None", 0), ("Some(3)", 3), ("Some(4294967296)", 1 << 32), ("Some(9223372036854775808)", 1 << 63), ("Some(18446744073709551615)", u64::MAX)];
    let hash_types = [("None", 0), ("Some(34)", 34), ("Some(0)", 0), ("Some(18446744073709551615)", u64::MAX)];
    let fanouts = [("None", 0), ("Some(256)", 256), ("Some(65536)", 1 << 16), ("Some(18446744073709551615)", u64::MAX)];
    if filesize > 0 { f = f.filesize(sizes[filesize as usize].1); }
    for s in 0..[0, 1, 2, 300][blocks as usize] { f = f.blocksize(s); }
    if hash_type > 0 { f = f.hash_type(hash_types[hash_type as usize].1); }
    if fanout > 0 { f = f.fanout(fanouts[fanout as usize].1); }
    let Err(ResolveError::UnexpectedDirProperties(e)) = resolve(&f.block(&[]), "a", &mut None) else { rt::check(filesize + blocks + hash_type + fanout + data as u64 == here(0), 1); rt::cover(2); return };
    let text = e.to_string();
    let mut want = String::from("filesize=");
    want.push_str(sizes[filesize as usize].0);
    want.push_str([", 0 blocksizes, hash_type=", ", 1 blocksizes, hash_type=", ", 2 blocksizes, hash_type=", ", 300 blocksizes, hash_type="][blocks as usize]);
    want.push_str(hash_types[hash_type as usize].0);
    want.push_str(", fanout=");
    want.push_str(fanouts[fanout as usize].0);
    want.push_str(", data=[");
    for b in bytes { for d in [b >> 4, b & 15] { want.push(b"0123456789abcdef"[d as usize] as char); } }
    want.push(']');
    rt::check(text == want, 2);
    rt::obs_bytes(text.as_bytes()); rt::cover(1);
}
