//! Reading and writing blocks, against the protobuf, dag-pb and UnixFS formats as written down independently in `k`.
use crate::{k, rt};
use quick_protobuf::{MessageWrite, Writer};
use std::borrow::Cow;
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::symlink::serialize_symlink_block;
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{FlatUnixFs, PBLink, PBNode, UnixFs, UnixFsType};

fn write(m: &impl MessageWrite) -> Vec<u8> {
    let mut b = Vec::with_capacity(256);
    let r = m.write_message(&mut Writer::new(&mut b));
    rt::check(r.is_ok(), 100);
    rt::check(b.len() == m.get_size(), 101);
    b
}
const TYPES: [UnixFsType; 6] = [UnixFsType::Raw, UnixFsType::Directory, UnixFsType::File, UnixFsType::Metadata, UnixFsType::Symlink, UnixFsType::HAMTShard];
/// Any value of the field which `wide` selects, a one byte value of every other.
fn value(wide: bool) -> u64 { if wide { rt::u64() } else { let v = rt::u8(); rt::assume(v < 0x80); v as u64 } }

/// Writing any message gives its canonical form, of the announced size, and reading that gives the message back.
pub fn h_codec_unixfs() {
    let wide = rt::choose(8);
    let mut x = UnixFs::default();
    let mut e: Vec<u8> = Vec::with_capacity(256);
    let t = rt::choose(6) as usize;
    x.Type = TYPES[t];
    k::num(&mut e, 8, t as u64);
    // the selected field is there, others may be
    let here = |i: u64| wide == i || rt::choose(2) == 1;
    let data = if here(0) { let n = [0, 1, 3, 126, 127, 128, 129, 16379, 16383, 16384, 16390][rt::choose(if rt::big() { 11 } else if wide == 0 { 7 } else { 2 }) as usize]; Some(rt::vec(n)) } else { None };
    if let Some(d) = &data { x.Data = Some(Cow::Borrowed(d)); k::bytes(&mut e, 0x12, d); }
    if here(1) { let v = value(wide == 1); x.filesize = Some(v); k::num(&mut e, 0x18, v); }
    if here(2) { let n = if rt::big() { 1 + rt::choose(400) } else { 1 + rt::choose(2) }; for i in 0..n { let v = value(wide == 2 && i == 0); x.blocksizes.push(v); k::num(&mut e, 0x20, v); } }
    if here(3) { let v = value(wide == 3); x.hashType = Some(v); k::num(&mut e, 0x28, v); }
    if here(4) { let v = value(wide == 4); x.fanout = Some(v); k::num(&mut e, 0x30, v); }
    if here(5) { let v = value(wide == 5) as u32; x.mode = Some(v); k::num(&mut e, 0x38, v as u64); }
    if here(6) {
        let (s, n) = (value(wide == 6), if rt::choose(2) == 1 { Some(rt::u32()) } else { None });
        x.mtime = Some(Default::default());
        let m = x.mtime.as_mut().unwrap();
        m.Seconds = s as i64; m.FractionalNanoseconds = n;
        let mut t = Vec::with_capacity(20);
        k::num(&mut t, 8, s);
        if let Some(n) = n { t.push(21); t.extend_from_slice(&n.to_le_bytes()); }
        k::bytes(&mut e, 0x42, &t);
    }
    let b = write(&x);
    rt::check(b == e, 1);
    let y = UnixFs::try_from(Some(&b[..]));
    rt::check(y.map_or(false, |y| y == x), 2);
    // and as the payload of a node
    let f = FlatUnixFs { links: vec![], data: x };
    let n = write(&f);
    let mut en = vec![]; k::bytes(&mut en, 0x0a, &e);
    rt::check(n == en, 3);
    match FlatUnixFs::try_parse(&n) { Ok(g) => { rt::check(g.links.is_empty() && g.data == f.data, 4); } Err(_) => rt::check(false, 5) }
    let p = PBNode { Links: vec![], Data: Some(Cow::Borrowed(&b)) };
    rt::check(UnixFs::try_from(&p).map_or(false, |y| y == f.data), 6);
    rt::obs_bytes(&b); rt::cover(1 + wide as u32);
}

/// The same for nodes with links.
pub fn h_codec_node() {
    let n = if rt::big() { rt::choose(300) } else { rt::choose(3) };
    let wide = rt::choose(3);
    let mut names: Vec<(Option<Vec<u8>>, Option<Vec<u8>>, Option<u64>)> = vec![];
    for i in 0..n {
        let hash = if rt::choose(2) == 1 { let n = if rt::big() { [36, 0, 34, 68, 126, 127, 128, 300][rt::choose(8) as usize] } else if wide == 0 && i == 0 { [0, 34, 36, 68, 128][rt::choose(5) as usize] } else { 2 }; Some(rt::vec(n)) } else { None };
        let name = if rt::choose(2) == 1 { let n = if rt::big() { [0, 100, 126, 127, 128, 300, 16383, 16384][rt::choose(if i == 0 { 8 } else { 6 }) as usize] } else if wide == 1 && i == 0 { [0, 1, 2, 3, 127, 128][rt::choose(6) as usize] } else { 1 }; Some(if n < 100 { rt::vec(n) } else { vec![b'n'; n] }) } else { None };
        if let Some(n) = &name { if std::str::from_utf8(n).is_err() { rt::reject() } }
        let size = if rt::choose(2) == 1 { Some(value(wide == 2 && i == 0)) } else { None };
        names.push((hash, name, size));
    }
    let links: Vec<PBLink> = names.iter().map(|(h, n, s)| PBLink { Hash: h.as_deref().map(Cow::Borrowed), Name: n.as_deref().map(|n| Cow::Borrowed(std::str::from_utf8(n).unwrap())), Tsize: *s }).collect();
    let mut e = Vec::with_capacity(512);
    for (h, n, s) in &names { k::link(&mut e, h.as_deref(), n.as_deref(), *s); }
    let payload = if rt::big() { [0, 1, 2, 126, 127, 128, 16384][rt::choose(7) as usize] } else { rt::choose(3) as usize };
    let data = rt::vec(payload);
    // a node of its own
    let node = PBNode { Links: links.clone(), Data: if payload > 0 || rt::choose(2) == 1 { Some(Cow::Borrowed(&data[..])) } else { None } };
    let mut en = e.clone();
    if node.Data.is_some() { k::bytes(&mut en, 0x0a, &data); }
    let b = write(&node);
    rt::check(b == en, 1);
    rt::check(PBNode::try_from(&b[..]).map_or(false, |y| y == node), 2);
    for l in &links { let b = write(l); rt::check(!b.is_empty() || (l.Hash.is_none() && l.Name.is_none() && l.Tsize.is_none()), 3); }
    // with a UnixFS message
    let f = FlatUnixFs { links, data: UnixFs { Type: UnixFsType::File, Data: Some(Cow::Borrowed(&data)), ..Default::default() } };
    let b = write(&f);
    let mut ef = e; let mut m = vec![8, 2]; k::bytes(&mut m, 0x12, &data); k::bytes(&mut ef, 0x0a, &m);
    rt::check(b == ef, 4);
    match FlatUnixFs::try_parse(&b) { Ok(g) => rt::check(g.links == f.links && g.data == f.data, 5), Err(_) => rt::check(false, 6) }
    rt::obs_bytes(&b); rt::cover(1 + n as u32); if n > 0 { rt::cover(10 + wide as u32); }
}

/// A field nobody knows, to be skipped: a varint, eight bytes, some bytes, four bytes. A known number with another wire type is one, too.
fn unknown(o: &mut Vec<u8>, kind: u64, known: u8) {
    // fields 9 to 15, or the number of a known field whose wire type differs
    let number = match rt::choose(3) { 0 => 9, 1 => 15, _ => known };
    match kind {
        0 => { o.push(if number == known { known << 3 } else { number << 3 }); k::pvarint(o, rt::u64()); }
        1 => { o.push(number << 3 | 1); o.extend_from_slice(&rt::bytes::<8>()); }
        2 => { let n = rt::choose(3) as usize; o.push(number << 3 | 2); k::varint(o, n as u64); o.extend_from_slice(&rt::vec(n)); }
        3 => { o.push(number << 3 | 5); o.extend_from_slice(&rt::bytes::<4>()); }
        _ => { k::varint(o, 300 << 3); k::pvarint(o, rt::u64()); }
    }
}
/// The length of some bytes.
fn length() -> usize { if rt::big() { [0, 1, 2, 126, 127, 128, 300][rt::choose(7) as usize] } else { rt::choose(3) as usize } }
/// Reading a UnixFS message in any encoding: fields in any order, repeated, unknown, with padded varints.
pub fn h_decode_unixfs() {
    let n = rt::param("fields");
    let mut m: Vec<u8> = Vec::with_capacity(512);
    let (mut ty, mut data, mut size, mut blocks, mut hash, mut fanout, mut mode, mut mtime) = (0u32, None, None, vec![], None, None, None, None);
    for _ in 0..rt::choose(n + 1) {
        match rt::choose(9) {
            0 => { ty = rt::u32(); m.push(8); k::pvarint(&mut m, ty as u64); }
            1 => { let d = rt::vec(length()); k::bytes(&mut m, 0x12, &d); data = Some(d); }
            2 => { let v = rt::u64(); k::pnum(&mut m, 0x18, v); size = Some(v); }
            3 => { let v = rt::u64(); k::pnum(&mut m, 0x20, v); blocks.push(v); }
            4 => { let v = rt::u64(); k::pnum(&mut m, 0x28, v); hash = Some(v); }
            5 => { let v = rt::u64(); k::pnum(&mut m, 0x30, v); fanout = Some(v); }
            6 => { let v = rt::u32(); k::pnum(&mut m, 0x38, v as u64); mode = Some(v); }
            7 => {
                let mut t = Vec::with_capacity(512); let (mut s, mut ns) = (0, None);
                for _ in 0..rt::choose(if rt::big() { 8 } else { 3 }) {
                    match rt::choose(3) { 0 => { s = rt::u64(); k::pnum(&mut t, 8, s); } 1 => { let v = rt::u32(); t.push(21); t.extend_from_slice(&v.to_le_bytes()); ns = Some(v); } _ => { let kd = [0, 2][rt::choose(2) as usize]; unknown(&mut t, kd, if kd == 0 { 2 } else { 1 }) } }
                }
                k::bytes(&mut m, 0x42, &t); mtime = Some((s as i64, ns));
            }
            _ => { let kd = rt::choose(5); unknown(&mut m, kd, if kd == 0 { 2 } else if kd == 2 { 3 } else { 1 }) }
        }
    }
    let b = { let mut b = vec![]; k::bytes(&mut b, 0x0a, &m); b };
    let check = |u: &UnixFs<'_>, id: u32| {
        let want = if ty < 6 { TYPES[rt::conc(ty as u64) as usize] } else { UnixFsType::Raw };
        rt::check(u.Type == want, id);
        rt::check(u.Data.as_deref() == data.as_deref(), id + 1);
        rt::check(u.filesize == size && u.hashType == hash && u.fanout == fanout && u.mode == mode, id + 2);
        rt::check(u.blocksizes == blocks, id + 3);
        rt::check(u.mtime.as_ref().map(|t| (t.Seconds, t.FractionalNanoseconds)) == mtime, id + 4);
        let meta = unixfs_v1::Metadata::from(u);
        rt::check(meta.mode() == mode && meta.mtime() == mtime.map(|(s, n)| (s, n.unwrap_or(0))), id + 5);
        rt::check(meta.mtime_as_filetime().map(|t| (t.unix_seconds(), t.nanoseconds())) == meta.mtime(), id + 6);
    };
    match UnixFs::try_from(Some(&m[..])) { Ok(u) => check(&u, 10), Err(_) => rt::check(false, 1) }
    match FlatUnixFs::try_parse(&b) {
        Ok(f) => { rt::check(!m.is_empty() && f.links.is_empty(), 2); check(&f.data, 20); rt::cover(1) }
        Err(_) => { rt::check(m.is_empty(), 3); rt::cover(2) }
    }
    rt::obs(m.len() as u64);
}
/// Reading a dag-pb node in any encoding.
pub fn h_decode_node() {
    let n = rt::param("fields");
    let mut b: Vec<u8> = Vec::with_capacity(512);
    let mut links: Vec<(Option<Vec<u8>>, Option<Vec<u8>>, Option<u64>)> = vec![];
    let mut data: Option<Vec<u8>> = None;
    let mut at = 0;
    let mut utf8 = true;
    // behind a lot of links
    for _ in 0..rt::param("pad") { let d = vec![b'n'; [300, 65000, 70000][rt::choose(3) as usize]]; let mut l = vec![]; k::bytes(&mut l, 0x12, &d); k::bytes(&mut b, 0x12, &l); links.push((None, Some(d), None)); }
    for _ in 0..rt::choose(n + 1) {
        match rt::choose(3) {
            0 => { let mut d = rt::vec(length()); if rt::big() && !d.is_empty() { d[0] = 0x7f; } k::bytes(&mut b, 0x0a, &d); at = b.len() - d.len(); data = Some(d); }
            1 => {
                let mut l = Vec::with_capacity(64); let mut x = (None, None, None);
                for _ in 0..rt::choose(rt::param("sub") + 1) {
                    match rt::choose(4) {
                        0 => { let d = rt::vec(length()); k::bytes(&mut l, 0x0a, &d); x.0 = Some(d); }
                        1 => { let d = if rt::big() { vec![b'n'; length()] } else { rt::vec(length()) }; utf8 &= std::str::from_utf8(&d).is_ok(); k::bytes(&mut l, 0x12, &d); x.1 = Some(d); }
                        2 => { let v = rt::u64(); k::pnum(&mut l, 0x18, v); x.2 = Some(v); }
                        _ => { let kd = [0, 2][rt::choose(2) as usize]; unknown(&mut l, kd, if kd == 0 { 2 } else { 3 }) }
                    }
                }
                k::bytes(&mut b, 0x12, &l); links.push(x);
            }
            _ => { let kd = rt::choose(5); unknown(&mut b, kd, if kd == 2 { 3 } else { 1 }) }
        }
    }
    let same = |got: &[PBLink<'_>], id: u32| {
        rt::check(got.len() == links.len(), id);
        for (g, (h, n, s)) in got.iter().zip(&links) {
            rt::check(g.Hash.as_deref() == h.as_deref(), id + 1);
            rt::check(g.Name.as_deref().map(|n| n.as_bytes()) == n.as_deref(), id + 2);
            rt::check(g.Tsize == *s, id + 3);
        }
    };
    match PBNode::try_from(&b[..]) {
        Ok(p) => { rt::check(utf8, 1); same(&p.Links, 10); rt::check(p.Data.as_deref() == data.as_deref(), 2); rt::cover(1) }
        Err(_) => { rt::check(!utf8, 3); rt::cover(2) }
    }
    // the payload where it lies
    match node_data(&b) {
        Ok(d) => {
            rt::check(utf8, 4); rt::check(d == data.as_deref(), 5);
            if let Some(d) = d { let r = b.as_ptr_range(); rt::check(d.is_empty() || d.as_ptr() as usize - r.start as usize == at, 6); }
        }
        Err(_) => rt::check(!utf8, 7),
    }
    match wrap_node_data(&b[..]) {
        Ok(w) => {
            rt::check(utf8, 8);
            let want = data.as_deref().unwrap_or(&[]);
            rt::check(w.node_data() == want && w == want, 9);
            rt::check(want.is_empty() || w.node_data().as_ptr() as usize - b.as_ptr() as usize == at, 27);
            let mut other = want.to_vec(); other.push(0); rt::check(!(w == other), 20);
            rt::check(w.get_ref().as_ptr() == b.as_ptr() && w.get_ref().len() == b.len(), 21);
            let i = w.into_inner();
            rt::check(i.as_ptr() == b.as_ptr() && i.len() == b.len(), 22);
        }
        Err(_) => rt::check(!utf8, 23),
    }
    match wrap_node_data(b.clone()) { Ok(w) => { rt::check(w.node_data() == data.as_deref().unwrap_or(&[]), 24); rt::check(w.into_inner() == b, 25) } Err(_) => rt::check(!utf8, 26) }
    // what the combined form makes of it: an empty payload is none
    let f = FlatUnixFs::try_parse(&b);
    if let Ok(f) = &f { same(&f.links, 30); rt::check(utf8 && data.as_deref().map_or(false, |d| !d.is_empty()), 34); rt::cover(3) }
    rt::obs(b.len() as u64);
}
/// A symlink block is the canonical one for the target and reading it gives the target back.
pub fn h_symlink() {
    let n = [0, 1, 2, 3, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 4095, 4096, 4097, 5000, 16380, 65536, 70000][rt::choose(rt::param("lens")) as usize];
    let target = if n < 10 { rt::vec(n) } else { vec![b't'; n] };
    let Ok(s) = std::str::from_utf8(&target) else { rt::reject() };
    let before = rt::vec([0, 1, 2, 5000][rt::choose(if n < 10 { 3 } else { 4 }) as usize]);
    let mut b = before.clone();
    serialize_symlink_block(s, &mut b);
    rt::check(b.len() >= before.len() && b[..before.len()] == before[..], 1);
    let block = &b[before.len()..];
    rt::check(block == &k::Fs::new(k::SYMLINK).data(&target).block(&[])[..], 2);
    match FlatUnixFs::try_parse(block) { Ok(f) => rt::check(f.links.is_empty() && f.data.Type == UnixFsType::Symlink && f.data.Data.as_deref() == Some(&target[..]), 3), Err(_) => rt::check(false, 4) }
    let mut w = Walker::new(k::cid(1), "l".to_string());
    match w.next(block, &mut None) {
        Ok(ContinuedWalk::Symlink(t, c, p, m)) => { rt::check(t == &target[..] && *c == k::cid(1), 5); rt::check(p.as_os_str() == "l" && m.mode().is_none() && m.mtime().is_none(), 6) }
        _ => rt::check(false, 7),
    }
    rt::check(!w.should_continue(), 8);
    rt::obs_bytes(block); rt::cover(1 + (n > 3) as u32);
}
