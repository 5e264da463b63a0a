mod bounds; mod exec; mod expr; mod ir; mod sha; mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut irf, mut entry, mut out, mut threads, mut time, mut steps, mut maxv, mut samples, mut src, mut qt, mut nodes) = (String::new(), String::new(), String::new(), 8usize, 600u64, 200_000_000u64, 12usize, 1500usize, String::from("/repo/src"), 60_000u32, 6_000_000usize);
    let mut params = BTreeMap::new(); let mut known = vec![]; let mut dump = None; let mut grace = 15u64; let (mut tf, mut recheck) = (false, false);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--ir" => irf = v(), "--entry" => entry = v(), "--out" => out = v(), "--threads" => threads = v().parse().unwrap(), "--time" => time = v().parse().unwrap(), "--steps" => steps = v().parse().unwrap(),
            "--param" => { let p = v(); let (n, x) = p.split_once('=').unwrap(); params.insert(n.to_string(), x.parse().unwrap()); }
            "--known" => known.push(v()), "--max-viol" => maxv = v().parse().unwrap(), "--samples" => samples = v().parse().unwrap(), "--src" => src = v(), "--grace" => grace = v().parse().unwrap(),
            "--dump" => { let d = v(); let e = v().parse().unwrap(); dump = Some((d, e)); } "--qtimeout" => qt = v().parse().unwrap(), "--max-nodes" => nodes = v().parse().unwrap(), "--trace-forks" => tf = true, "--recheck" => recheck = true,
            x => panic!("argument {}", x),
        }
    }
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&irf)));
    let load_s = t0.elapsed().as_secs_f64();
    let e = *m.fmap.get(entry.as_str()).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(2) });
    let kinds = m.funcs.iter().map(classify).collect::<Vec<_>>();
    let has_sha = kinds.iter().any(|k| *k == FK::Sha);
    let cfg = Cfg { entry: e, params, threads, max_steps: steps, deadline: Instant::now() + Duration::from_secs(time), max_viol: maxv, known, samples, grace: Duration::from_secs(grace), qtimeout: qt, dump, max_nodes: nodes, trace_forks: tf, recheck };
    let sh = Arc::new(Shared { m, cfg, q: Mutex::new(Queue::default()), cv: Condvar::new(), hungry: Default::default(), agg: Mutex::new(Agg::default()), stop: Default::default(), kinds, paths: Default::default(), firstv: Mutex::new(None), forksites: Default::default() });
    run(sh.clone());
    let wall = t0.elapsed().as_secs_f64();
    let g = sh.agg.lock().unwrap();
    if tf { let mut v: Vec<_> = sh.forksites.lock().unwrap().clone().into_iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1)); for (k, n) in v.iter().take(25) { eprintln!("{:8} {}", n, k); } }
    // which repository code was executed
    let mut fns: BTreeMap<(String, String), BTreeSet<u32>> = BTreeMap::new();
    let mut nf = 0; let mut nfa = 0;
    for f in &m.funcs {
        if let Some(Ok(b)) = f.body.get() {
            nfa += 1; let mut any = false;
            for bl in &b.blocks { if bl.seen.load(std::sync::atomic::Ordering::Relaxed) { any = true; for (_, d) in &bl.insts {
                let mut id = *d; let mut n = 0;
                while id != 0 && n < 40 { if let Some((file, line, func)) = m.loc(id) { if file.starts_with(&src) { fns.entry((file[src.len()..].trim_start_matches('/').to_string(), func)).or_default().insert(line); } } id = m.inlined_at(id).unwrap_or(0); n += 1; }
            } } }
            if any { nf += 1; }
        }
    }
    let _ = nfa;
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"paths_done\":{},\"paths_rejected\":{},\"forks\":{},\"decisions\":{},\"steps\":{},\"max_path_steps\":{},\"max_symbolic_bytes\":{},\"max_objects\":{},\"expr_nodes\":{},\"functions_executed\":{},\"sha_blocks_concrete\":{},\"sha_blocks_symbolic\":{},\"sha_stub_present\":{},", esc(&entry), wall, load_s, g.done, g.rejected, g.forks, g.decisions, g.steps, g.max_path_steps, g.max_vars, g.max_heap, g.nodes, nf, g.sha_conc, g.sha_sym, has_sha);
    let s = &g.solver;
    o += &format!("\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"intervals\":{},\"time_s\":{:.3},\"max_query_s\":{:.3}}},", esc(&solver::version()), s.queries, s.sat, s.unsat, s.unknown, s.cached, s.intervals, s.micros as f64 / 1e6, s.max_micros as f64 / 1e6);
    o += &format!("\"incomplete\":{},", g.incomplete.as_ref().map(|x| esc(x)).unwrap_or("null".into()));
    o += &format!("\"errors\":{{{}}},", g.errors.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    o += &format!("\"covers\":{{{}}},", g.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    o += &format!("\"checks\":{{{}}},", g.checks.iter().map(|(k, v)| format!("\"{}\":{{\"concrete_on_path\":{},\"solver\":{}}}", k, v.0, v.1)).collect::<Vec<_>>().join(","));
    o += &format!("\"violations\":[{}],", g.viols.values().map(|v| format!("{{\"key\":{},\"kind\":{},\"msg\":{},\"input\":\"{}\",\"count\":{},\"trace\":[{}]}}", esc(&v.key), esc(&v.kind), esc(&v.msg), hex(&v.input), v.count, v.trace.iter().take(14).map(|t| esc(t)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o += &format!("\"functions\":[{}],", fns.iter().map(|((f, n), l)| format!("{{\"file\":{},\"function\":{},\"lines\":[{}]}}", esc(f), esc(n), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    o += &format!("\"samples\":[{}]}}\n", g.samples.iter().map(|(i, h, d)| format!("[\"{}\",\"{:016x}\",{}]", hex(i), h, d)).collect::<Vec<_>>().join(","));
    if out.is_empty() { print!("{}", o); } else { std::fs::write(&out, &o).unwrap(); }
}
