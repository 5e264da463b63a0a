//! Arbitrary bytes and malformed trees at every entry point: all that is claimed is a result, never a panic.
use crate::{k, rt, show, visit::raw_block};
use std::path::{Component, Path};
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{resolve, FlatUnixFs, MaybeResolved, PBNode};

/// Every function taking a single block, on any bytes.
pub fn h_raw_entry() {
    let which = rt::choose(6);
    let b = raw_block();
    match which {
        0 => match FlatUnixFs::try_parse(&b) { Ok(f) => { show::value(&f); rt::obs(f.links.len() as u64); rt::cover(1) } Err(e) => { show::error(&e); rt::cover(2) } },
        1 => { rt::obs(PBNode::try_from(&b[..]).map_or(99, |n| n.Links.len() as u64)); match node_data(&b) { Ok(Some(d)) => { rt::obs_bytes(d); rt::cover(3) } Ok(None) => rt::cover(4), Err(_) => rt::cover(5) } }
        2 => match wrap_node_data(&b) { Ok(w) => { show::value(&w); rt::obs_bytes(w.node_data()); rt::cover(6) } Err(e) => { show::error(&e); rt::cover(7) } },
        3 => match resolve(&b, ["a", "", "\u{fc}"][rt::choose(3) as usize], &mut None) {
            Ok(MaybeResolved::Found(_)) => rt::cover(8), Ok(MaybeResolved::NotFound) => rt::cover(9),
            Ok(MaybeResolved::NeedToLoadMore(l)) => { show::value(&l); rt::obs(l.pending_links().1.count() as u64); rt::cover(10) }
            Err(e) => { show::error(&e); rt::cover(11) }
        },
        4 => {
            let v = if rt::choose(2) == 1 { IdleFileVisit::default().with_target_range(rt::u64()..rt::u64()) } else { IdleFileVisit::default() };
            match v.start(&b) { Ok((d, size, _, v)) => { show::value(&v); rt::obs(d.len() as u64); rt::obs(size); if let Some(v) = v { rt::obs(v.pending_links().1.count() as u64); } rt::cover(12) } Err(e) => { show::error(&e); rt::cover(13) } }
        }
        _ => {
            let mut w = Walker::new(k::cid(1), ["", "r"][rt::choose(2) as usize].to_string());
            match w.next(&b, &mut None) { Ok(c) => { show::value(&c); rt::cover(14) } Err(e) => { show::error(&e); rt::cover(15) } }
            show::value(&w);
            if w.should_continue() { rt::obs(w.pending_links().1.count() as u64); }
        }
    }
}

fn inside(p: &Path, root: &str, depth: usize) {
    let Ok(below) = p.strip_prefix(root) else { rt::check(false, 2); return };
    rt::check(below.components().all(|c| matches!(c, Component::Normal(_))), 1);
    rt::check(below.components().count() <= depth, 3);
}
fn seen(c: &ContinuedWalk<'_>, root: &str, depth: usize) -> u64 {
    match c {
        ContinuedWalk::Bucket(_, p) => { inside(p, root, depth); 1 }
        ContinuedWalk::Directory(_, p, _) => { inside(p, root, depth); 2 }
        ContinuedWalk::RootDirectory(_, p, _) => { inside(p, root, depth); 3 }
        ContinuedWalk::Symlink(_, _, p, _) => { inside(p, root, depth); 4 }
        ContinuedWalk::File(_, _, p, _, _) => { inside(p, root, depth); 5 }
    }
}
/// Any bytes as the second block of a walk, whatever the first was.
pub fn h_walk_raw() {
    let root = &crate::walker::root_name()[..];
    let mut w = Walker::new(k::cid(1), root.to_string());
    let first = rt::choose(4);
    let mut l = vec![];
    let names: [&[u8]; 2] = match first { 0 => [b"a", b"b"], 1 => [b"00a", b"01"], 2 => [b"02", b"03c"], _ => [b"", b""] };
    for (i, n) in names.iter().enumerate() { k::link(&mut l, Some(&k::cid_raw(i as u8 + 2)), Some(n), Some(1)); }
    let f = match first { 0 => k::Fs::new(k::DIR), 3 => k::Fs::new(k::FILE).filesize(4).blocksize(2).blocksize(2), _ => k::hamt() };
    let block = f.block(&l);
    rt::check(w.next(&block, &mut None).is_ok(), 4);
    let b = raw_block();
    match w.next(&b, &mut None) {
        Ok(c) => { show::value(&c); let s = seen(&c, root, 1); rt::obs(s); rt::cover(s as u32) }
        Err(e) => { show::error(&e); rt::cover(10); return }
    }
    rt::check(w.should_continue(), 5);
    rt::obs(w.pending_links().1.count() as u64);
}
/// A name of up to `max` arbitrary bytes, or none at all.
fn name(max: u64) -> Option<Vec<u8>> {
    if rt::big() {
        return match rt::choose(16) {
            0 => None,
            1 => Some(rt::vec(1 + rt::choose(4) as usize)),
            // odd only behind what may be looked at
            2 => { let mut v = vec![b'a'; [30, 100, 125, 253, 254, 255, 256, 300, 1000][rt::choose(9) as usize]]; v.extend_from_slice(&rt::vec(1 + rt::choose(2) as usize)); Some(v) }
            3 => Some(["..", ".", "a/b", "/a", "...", "a/", "\u{1f600}", "\\", ""][rt::choose(9) as usize].as_bytes().to_vec()),
            n => Some(vec![b'a' + n as u8; n as usize]),
        };
    }
    let n = rt::choose(max + 2); if n == 0 { None } else { let mut v = vec![b'a'; if rt::param("long") == 1 { [252, 253, 254, 255, 256, 1023][rt::choose(6) as usize] } else { 0 }]; v.extend_from_slice(&rt::vec(n as usize - 1)); Some(v) }
}
fn hash(id: u8) -> Vec<u8> { if rt::param("badcid") == 1 && (!rt::big() || rt::choose(12) == 0) { match rt::choose(3) { 0 => k::cid_raw(id).to_vec(), 1 => k::cid0_raw(id).to_vec(), _ => vec![id] } } else { k::cid_raw(id).to_vec() } }

/// Trees whose links have arbitrary names and lead to blocks of any type.
pub fn h_walk_hostile() {
    let root = &crate::walker::root_name()[..];
    let mut w = Walker::new(k::cid(1), root.to_string());
    let (blocks, links, len) = (rt::param("blocks"), rt::param("links"), rt::param("name"));
    let mut id = 1;
    let mut n = 0;
    while w.should_continue() {
        show::value(&w);
        let _ = w.pending_links().1.count();
        let mut l = vec![];
        if rt::big() && id > 200 { rt::reject() }
        let ty = if rt::big() { if n == 0 { [1, 5][rt::choose(2) as usize] } else { [1, 1, 5, 5, 5, 5, 0, 2, 2, 4, 4, 3][rt::choose(12) as usize] } } else { rt::choose(7) };
        // containers get links while the budget lasts
        let k_links = if n < blocks && (ty == 1 || ty == 5) { 1 + rt::choose(links) } else { 0 };
        for _ in 0..k_links {
            id += 1;
            let nm = if rt::big() && ty == 5 && rt::choose(2) == 0 { Some(format!("{:02X}", id).into_bytes()) } else if ty == 5 && (rt::big() || rt::choose(2) == 1) { let mut p = b"0A".to_vec(); match name(len) { None => None, Some(x) => { p.extend_from_slice(&x); Some(p) } } } else { name(len) };
            k::link(&mut l, Some(&hash(id)), nm.as_deref(), None);
        }
        let f = match ty {
            5 => k::hamt(),
            2 => if n < blocks && rt::choose(2) == 1 { id += 1; k::link(&mut l, Some(&k::cid_raw(id)), None, None); k::Fs::new(k::FILE).filesize(1).blocksize(1) } else { k::Fs::new(k::FILE).data(b"x").filesize(1) },
            0 => k::Fs::new(k::RAW).data(b"x").filesize(1),
            t => k::Fs::new(t as u8),
        };
        n += 1;
        let b = f.block(&l);
        match w.next(&b, &mut None) {
            Ok(c) => { let s = seen(&c, root, n as usize - 1); show::value(&c); rt::obs(s); rt::cover(s as u32) }
            Err(e) => { show::error(&e); rt::cover(10); return }
        }
    }
    rt::cover(11);
}

/// Looking a name up over HAMT blocks with arbitrary link names and arbitrary further blocks.
pub fn h_lookup_hostile() {
    let needle = rt::vec(rt::choose(rt::param("needle") + 1) as usize);
    let Ok(needle) = std::str::from_utf8(&needle) else { rt::reject() };
    let (links, len) = (rt::param("links"), rt::param("name"));
    let mut next = 0;
    let mut shard = || {
        let mut l = vec![];
        for _ in 0..rt::choose(links + 1) { if next > 200 { rt::reject() } next += 1; k::link(&mut l, Some(&hash(next)), name(len).as_deref(), None); }
        match if rt::big() { rt::choose(20).saturating_sub(17) } else { rt::choose(3) } { 0 => k::hamt(), 1 => k::Fs::new(k::DIR), _ => k::Fs::new(k::HAMT) }.block(&l)
    };
    let mut r = resolve(&shard(), needle, &mut None);
    let mut n = 0;
    loop {
        match r {
            Ok(MaybeResolved::Found(c)) => { rt::obs_bytes(&c.to_bytes()); rt::cover(1); return }
            Ok(MaybeResolved::NotFound) => { rt::cover(2); return }
            Err(e) => { show::error(&e); rt::cover(3); return }
            Ok(MaybeResolved::NeedToLoadMore(l)) => {
                show::value(&l);
                let _ = l.pending_links().1.count();
                n += 1;
                if n > rt::param("blocks") { rt::cover(4); return }
                let b = shard();
                match l.continue_walk(&b, &mut None) { Ok(x) => r = Ok(x), Err(e) => { show::error(&e); r = Err(e.into_resolve_error()) } }
            }
        }
    }
}
/// The second block of a lookup is any sequence of bytes.
pub fn h_lookup_raw() {
    let mut l = vec![];
    k::link(&mut l, Some(&k::cid_raw(1)), Some(b"00"), None);
    k::link(&mut l, Some(&k::cid_raw(2)), Some(b"01"), None);
    let b = k::hamt().block(&l);
    let Ok(MaybeResolved::NeedToLoadMore(s)) = resolve(&b, ["", "a", "\u{fc}"][rt::choose(3) as usize], &mut None) else { rt::check(false, 1); return };
    match s.continue_walk(&raw_block(), &mut None) {
        Ok(MaybeResolved::Found(c)) => { rt::obs_bytes(&c.to_bytes()); rt::cover(1) }
        Ok(MaybeResolved::NotFound) => rt::cover(2),
        Ok(MaybeResolved::NeedToLoadMore(s)) => { rt::obs(s.pending_links().1.count() as u64); rt::cover(3) }
        Err(e) => { show::error(&e); rt::cover(4) }
    }
}
