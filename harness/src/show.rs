//! What errors and values say about themselves.
use crate::{k, rt};
use std::error::Error;
use std::fmt::Debug;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeConstructionFailed, TreeOptions};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::Walker;
use unixfs_v1::{resolve, MaybeResolved};

/// With `show`, the runs of other properties look at the texts as well.
pub fn value<T: Debug + ?Sized>(x: &T) { if rt::param("show") == 1 { rt::check(!format!("{:?}", x).is_empty(), 990); } }
/// An error has a text, and a chain of causes which ends.
pub fn error<E: Error>(e: &E) {
    if rt::param("show") == 0 { return; }
    rt::check(!format!("{}", e).is_empty(), 991);
    rt::check(!format!("{:?}", e).is_empty(), 992);
    let mut s = e.source();
    let mut n = 0;
    while let Some(x) = s { n += 1; rt::check(n < 10 && !format!("{}", x).is_empty(), 993); s = x.source(); }
}

fn has(s: &str, x: &str) -> bool { s.as_bytes().windows(x.len()).any(|w| w == x.as_bytes()) }
fn dec(x: u64) -> String {
    let (mut v, mut x) = (vec![], x);
    loop { v.insert(0, b'0' + (x % 10) as u8); x /= 10; if x == 0 { break; } }
    String::from_utf8(v).unwrap()
}
/// Any name of up to `name` bytes, or a long one or one which has to be escaped.
fn text() -> String {
    match rt::choose(4) {
        0 => ["", "a\"b", "a\\b", "a\nb", "\u{fc}", "\u{1f600}\u{200b}", "\u{0}", "a'b"][rt::choose(8) as usize].to_string(),
        1 => { let n = [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000][rt::choose(13) as usize]; let mut s = "a".repeat(n); s.push_str(["", "\u{fc}", "\u{20ac}x", "\u{1f600}"][rt::choose(4) as usize]); s }
        _ => { let v = rt::vec(rt::choose(rt::param("name") + 1) as usize); for b in &v { rt::assume(*b < 0x7f && *b >= 0x20 && *b != b'"' && *b != b'\\' && *b != b'/'); } match String::from_utf8(v) { Ok(s) => s, Err(_) => rt::reject() } }
    }
}
fn quoted(s: &str) -> String { let mut q = String::from("\""); for c in s.chars() { match c { '"' => q.push_str("\\\""), '\\' => q.push_str("\\\\"), '\n' => q.push_str("\\n"), '\0' => q.push_str("\\0"), '\u{200b}' => q.push_str("\\u{200b}"), c => q.push(c) } } q.push('"'); q }

/// The text of an error has what the error is about: which link, which path, which type, which size.
pub fn h_error_texts() {
    let nth = if rt::choose(2) == 0 { rt::choose(3) } else { [9, 10, 99, 100, 300][rt::choose(5) as usize] };
    let what = rt::choose(9);
    let mut l = vec![];
    match what {
        // a link which cannot be followed, or whose name cannot be: in a directory, a shard or a file
        0 | 1 | 2 => {
            let (ty, pre): (u8, &[u8]) = [(k::DIR, &b""[..]), (k::HAMT, b"0A"), (k::FILE, b"")][what as usize];
            let name = text();
            let bad_name = ty != k::FILE && rt::choose(2) == 1;
            let name = if bad_name { format!("{}/", name) } else { name };
            if !bad_name && ty != k::FILE && (name.is_empty() || name == "." || name == "..") { rt::reject() }
            for _ in 0..nth { k::link(&mut l, Some(&k::cid_raw(7)), Some(if ty == k::HAMT { b"00good one" } else { b"good one" }), None); }
            let mut n = pre.to_vec();
            n.extend_from_slice(name.as_bytes());
            let good = k::cid_raw(8);
            k::link(&mut l, Some(if bad_name { &good } else { &[1, 2, 3] }), Some(&n), None);
            let mut f = match ty { k::HAMT => k::hamt(), k::DIR => k::Fs::new(k::DIR), _ => k::Fs::new(k::FILE).filesize(nth + 1) };
            if ty == k::FILE { for _ in 0..=nth { f = f.blocksize(1); } }
            let b = f.block(&l);
            let full = String::from_utf8(n).unwrap();
            let said = match Walker::new(k::cid(1), String::new()).next(&b, &mut None) { Err(e) => format!("{}", e), Ok(_) => { rt::check(false, 1); return } };
            rt::check(has(&said, &quoted(&full)), 2);
            rt::check(has(&said, &format!("#{} ", dec(nth))), 3);
            rt::obs_bytes(said.as_bytes());
            // the same by the other ways to it
            if !bad_name {
                let again = if ty == k::FILE { IdleFileVisit::default().start(&b).err().map(|e| format!("{}", e)) } else { resolve(&b, &name, &mut None).err().map(|e| format!("{}", e)) };
                let Some(again) = again else { rt::check(false, 4); return };
                rt::check(has(&again, &quoted(&full)), 5);
                rt::check(has(&again, &dec(nth)), 6);
            }
            rt::cover(1 + what as u32);
        }
        // a type which should not be there
        3 => {
            let ty = [k::DIR, k::SYMLINK, k::META, k::HAMT, k::FILE, k::RAW][rt::choose(6) as usize];
            let b = if ty == k::HAMT { k::hamt() } else { k::Fs::new(ty) }.block(&[]);
            let said = match rt::choose(2) {
                0 => match IdleFileVisit::default().start(&b) { Err(e) => format!("{}", e), Ok(_) => { rt::check(ty == k::FILE || ty == k::RAW, 7); return } },
                _ => match resolve(&b, "a", &mut None) { Err(e) => format!("{}", e), Ok(_) => { rt::check(ty == k::DIR || ty == k::HAMT, 8); return } },
            };
            rt::check(has(&said, &dec(ty as u64)), 9);
            let name = match ty { k::DIR => "Directory", k::SYMLINK => "Symlink", k::META => "Metadata", k::HAMT => "HAMTShard", k::FILE => "File", _ => "Raw" };
            rt::check(has(&said, name), 10);
            rt::cover(4);
        }
        // what a shard should not have, and must
        4 => {
            let (h, f) = (rt::u16() as u64, rt::u16() as u64);
            rt::assume(h != 34 || f != 256);
            let b = k::Fs::new(k::HAMT).pnum(0x28, h).pnum(0x30, f).block(&[]);
            let Err(e) = resolve(&b, "a", &mut None) else { rt::check(false, 11); return };
            let said = format!("{}", e);
            rt::check(has(&said, &dec(h)), 12);
            rt::check(has(&said, &dec(f)), 13);
            rt::cover(5);
        }
        // a path the builder refuses
        5 => {
            let mut b = BufferingTreeBuilder::new(TreeOptions::default());
            let t = text();
            let p = match rt::choose(5) { 0 => format!("/{}", t), 1 => format!("a//{}", t), 2 => format!("a{}/", t), 3 => "dup".to_string(), _ => format!("dup/{}b", t) };
            let c = k::cid(1);
            rt::check(b.put_link("dup", c, 1).is_ok(), 14);
            let Err(e) = b.put_link(&p, c, 1) else { rt::check(false, 15); return };
            let said = format!("{}", e);
            rt::check(has(&said, &quoted(&p)), 16);
            rt::cover(6);
        }
        // metadata where there should not be any
        6 => {
            if nth > 0 { rt::reject() }
            let mode = [None, Some(0), Some(0o755), Some(u32::MAX)][rt::choose(4) as usize];
            let secs = [i64::MIN, -62135596801, -1, 0, 1, 253402300800, i64::MAX][rt::choose(7) as usize];
            let nanos = [None, Some(0), Some(999_999_999), Some(1_000_000_000), Some(u32::MAX)][rt::choose(5) as usize];
            let timed = rt::choose(2) == 1;
            if mode.is_none() && !timed { rt::reject() }
            let with = |mut f: k::Fs| { if let Some(m) = mode { f = f.mode(m); } if timed { f = f.mtime(Some(secs), nanos); } f };
            k::link(&mut l, Some(&k::cid_raw(7)), Some(b""), Some(1));
            let root = with(k::Fs::new(k::FILE).filesize(1).blocksize(1)).block(&l);
            let leaf = with(k::Fs::new(k::RAW).data(b"a").filesize(1)).block(&[]);
            let Ok((_, _, m, Some(v))) = IdleFileVisit::default().start(&root) else { rt::check(false, 21); return };
            value(&m);
            value(&v);
            match v.continue_walk(&leaf, &mut None) { Err(e) => { error(&e); if let Some(m) = mode { rt::check(has(&format!("{}", e), &dec(m as u64)), 22); } } Ok(_) => rt::check(false, 23) }
            let dir = with(k::Fs::new(k::DIR)).block(&[]);
            let mut w = Walker::new(k::cid(1), "d".into());
            match w.next(&dir, &mut None) { Ok(x) => value(&x), Err(_) => rt::check(false, 24) }
            value(&w);
            rt::cover(8);
        }
        // what is looked for
        7 => {
            if nth > 0 { rt::reject() }
            k::link(&mut l, Some(&k::cid_raw(7)), Some(b"0A"), Some(1));
            let t = text();
            let Ok(MaybeResolved::NeedToLoadMore(s)) = resolve(&k::hamt().block(&l), &t, &mut None) else { rt::check(t.is_empty(), 25); return };
            value(&s);
            value(&s.with_owned_needle());
            rt::cover(9);
        }
        // a directory which is too large
        _ => {
            if nth > 0 { rt::reject() }
            let mut o = TreeOptions::default();
            o.block_size_limit(Some(20));
            o.wrap_with_directory();
            let mut b = BufferingTreeBuilder::new(o);
            let n = [1, 2, 10, 30, 200, 2000, 20000][rt::choose(7) as usize];
            rt::check(b.put_link(&"n".repeat(n), k::cid(1), rt::u8() as u64).is_ok(), 17);
            let Some(Err(e)) = b.build().next_borrowed().map(|r| r.map(|_| ())) else { rt::check(false, 18); return };
            let TreeConstructionFailed::TooLargeBlock(size) = e else { rt::check(false, 19); return };
            let said = format!("{}", e);
            rt::check(has(&said, &dec(size)), 20);
            rt::cover(7);
        }
    }
}
