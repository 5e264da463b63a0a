//! Replays inputs against the real code: `native ENTRY [k=v]...`, lines of "HEX [OBSHASH DONE]" on stdin.
use harness::rt;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
/// Allocations no block of some kilobytes can justify fail, as they do under the executor.
struct Limited;
const BIG: usize = 256 << 20;
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > BIG { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() > BIG { std::ptr::null_mut() } else { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > BIG { std::ptr::null_mut() } else { System.realloc(p, l, n) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Limited = Limited;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = harness::ENTRIES.iter().find(|e| e.0 == a[1]).expect("entry").1;
    let params: std::collections::BTreeMap<String, u64> = a[2..].iter().map(|p| { let (k, v) = p.split_once('=').unwrap(); (k.to_string(), v.parse().unwrap()) }).collect();
    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default(); *LAST.lock().unwrap() = format!("{} at {}", m, l); }));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut w = line.split(' ');
        let hx = w.next().unwrap_or("");
        let input: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
        rt::S.with(|s| *s.borrow_mut() = rt::State { input, pos: 0, hash: 0xcbf29ce484222325, may_panic: false, params: params.clone() });
        rt::reset();
        let r = catch_unwind(AssertUnwindSafe(f));
        let (h, may) = rt::S.with(|s| { let s = s.borrow(); (s.hash, s.may_panic) });
        match r {
            Ok(()) => println!("done {:016x}", h),
            Err(e) => if let Some(c) = e.downcast_ref::<rt::Failed>() { println!("check {}", c.0) } else if e.is::<rt::Rejected>() { println!("rejected {:016x}", h) } else if may { println!("done {:016x}", h) } else { println!("panic {}", LAST.lock().unwrap().replace('\n', " ")) },
        }
        use std::io::Write; std::io::stdout().flush().unwrap();
    }
}
