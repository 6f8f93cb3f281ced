mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::*;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 || (c as u32) > 126 => o += &format!("\\u{:04x}", (c as u32).min(0xffff)), c => o.push(c) } }
    o + "\""
}
fn arr(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string()) };
    let num = |k: &str, d: u64| -> u64 { get(k, "").parse().unwrap_or(d) };
    let t0 = Instant::now();
    let mut text = std::fs::read_to_string(get("--ll", "")).expect("read ll");
    // __sym_args(argc, argv, env) is the function of the standard library that takes the arguments at startup
    if let Some(i) = text.find("ARGV_INIT_ARRAY12init_wrapper").and_then(|_| text.lines().find(|l| l.starts_with("define ") && l.contains("ARGV_INIT_ARRAY12init_wrapper")).map(|l| l.to_string())) {
        let a = i.find('@').unwrap(); let b = a + i[a..].find('(').unwrap();
        if text.contains("@__sym_args(") { text = text.lines().filter(|l| !(l.starts_with("declare ") && l.contains("@__sym_args("))).collect::<Vec<_>>().join("\n").replace("@__sym_args(", &i[a..=b]); text.push('\n') }
    }
    let m = ir::Module::load(text).unwrap_or_else(|e| { eprintln!("module: {}", e); std::process::exit(3) });
    let parse_s = t0.elapsed().as_secs_f64();
    let entries = get("--entry", "");
    let mut outs = vec![];
    let total = num("--time", 300);
    let jobs = num("--jobs", 8) as usize;
    let es: Vec<&str> = entries.split(',').collect();
    let tstart = Instant::now();
    for (ei, e) in es.iter().enumerate() {
        let Some(&entry) = m.fnidx.get(*e) else { eprintln!("no entry {}", e); std::process::exit(3) };
        for f in &m.fns { if let Some(f) = f.func.get() { for s in &f.seen { s.store(false, Relaxed) } } }
        // remaining time shared by the remaining entries, but never less than a fair share
        let left = (total as f64 - tstart.elapsed().as_secs_f64()).max(1.0);
        let _ = ei;
        let t1 = Instant::now();
        let mut hash_skip = false;
        let (sh, stats) = loop {
        let left = (left - t1.elapsed().as_secs_f64()).max(1.0);
        let sh = Shared {
            hash_skip, hash_sym: Default::default(),
            m: &m, entry, queue: Mutex::new(vec![Job { trace: vec![], tv: vec![], model: vec![] }]), cv: Condvar::new(), idle: Default::default(), nworkers: jobs, stop: Default::default(),
            incomplete: Default::default(), deadline: Instant::now() + Duration::from_secs_f64(left), max_insts: num("--max-insts", 200_000_000), findings: Default::default(), samples: Default::default(),
            max_find: num("--max-find", 6) as usize, sample_cap: num("--samples", 120) as usize, total_paths: Default::default(), trace_smt: Default::default(), smt_cap: num("--smt", 0) as usize, z3_timeout: num("--z3-timeout", 30000) as u32,
            verbose: a.iter().any(|x| x == "-v"),
        };
        let stats: Vec<Stats> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..jobs).map(|_| { let sh = &sh; std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(sc, move || { let mut w = Worker::new(sh); w.run(); w.st }).unwrap() }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if sh.hash_sym.load(SeqCst) && !hash_skip { hash_skip = true; continue }
        break (sh, stats)
        };
        let mut s = Stats::default();
        let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
        for x in &stats {
            s.paths += x.paths; s.forks += x.forks; s.insts += x.insts; s.queries += x.queries; s.hits += x.hits; s.sat += x.sat; s.unsat += x.unsat; s.unknown += x.unknown; s.solver += x.solver; s.asserts += x.asserts; s.assert_const += x.assert_const; s.pruned += x.pruned; s.max_inputs = s.max_inputs.max(x.max_inputs);
            for (k, v) in &x.kinds { *kinds.entry(k.clone()).or_default() += v } for (k, v) in &x.reach { *s.reach.entry(*k).or_default() += v }
        }
        // executed functions (including inlined ones) of the code under test
        let mut fns: BTreeSet<String> = BTreeSet::new(); let mut allf = 0; let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
        for f in &m.fns { if let Some(f) = f.func.get() { let mut hit = false; for (b, sn) in f.seen.iter().enumerate() { if sn.load(Relaxed) { hit = true; for d in &f.dbg[b] { if let Some((n, file, line)) = m.loc(*d) { if file.contains("repo/src") { fns.insert(format!("{} ({})", demangle(&n), file.rsplit("repo/").next().unwrap_or(""))); lines.insert((file, line)); } } } } } if hit { allf += 1 } } }
        let inc = sh.incomplete.lock().unwrap().clone();
        let fj = |f: &Finding| format!("{{\"kind\":{},\"what\":{},\"inputs\":{},\"obs\":{}}}", js(&f.kind), js(&f.what), arr(&f.inputs), arr(&f.obs));
        let findings = sh.findings.lock().unwrap(); let samples = sh.samples.lock().unwrap();
        let wall = t1.elapsed().as_secs_f64();
        outs.push(format!("{{\"entry\":{},\"exhaustive\":{},\"incomplete\":[{}],\"paths\":{},\"kinds\":{{{}}},\"forks\":{},\"insts\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"asserts\":{},\"asserts_by_simplification\":{},\"pruned\":{},\"max_inputs\":{},\"wall_s\":{:.3},\"ir_functions\":{},\"lines\":{},\"reach\":{{{}}},\"functions\":[{}],\"findings\":[{}],\"samples\":[{}]}}",
            js(e), inc.is_empty(), inc.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), s.paths, kinds.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), s.forks, s.insts, s.queries, s.hits, s.sat, s.unsat, s.unknown, s.solver, s.asserts, s.assert_const, s.pruned, s.max_inputs, wall, allf, lines.len(),
            s.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), findings.iter().map(fj).collect::<Vec<_>>().join(","), samples.iter().map(fj).collect::<Vec<_>>().join(",")));
        eprintln!("{}{}: paths {} {:?} forks {} insts {:.1}M queries {} (hits {}, unknown {}) solver {:.1}s asserts {} wall {:.1}s {}{}", e, if hash_skip { " (hash_skip)" } else { "" }, s.paths, kinds, s.forks, s.insts as f64 / 1e6, s.queries, s.hits, s.unknown, s.solver, s.asserts, wall, if inc.is_empty() { "exhaustive" } else { "INCOMPLETE " }, inc.iter().cloned().collect::<Vec<_>>().join("; "));
        for f in findings.iter().take(6) { eprintln!("   {} {} inputs {:?}", f.kind, f.what, f.inputs) }
        let d = get("--lines", ""); if !d.is_empty() { use std::io::Write; let mut w = std::fs::OpenOptions::new().create(true).append(true).open(d).unwrap(); for (p, l) in &lines { let _ = writeln!(w, "{}:{}", p, l); } }
        let d = get("--smt-dir", ""); if !d.is_empty() { for (i, t) in sh.trace_smt.lock().unwrap().iter().enumerate() { let _ = std::fs::write(format!("{}/{}_{}.smt2", d, e, i), format!("{}\n(check-sat)\n", t)); } }
    }
    let o = get("--out", "");
    let body = format!("{{\"z3\":{},\"parse_s\":{:.2},\"entries\":[{}]}}", js(&expr::z3_version()), parse_s, outs.join(",\n"));
    if o.is_empty() { println!("{}", body) } else { std::fs::write(o, body).unwrap() }
}
