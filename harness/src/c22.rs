//! C22: bulk analyses and performance experiments, as whole programs
use crate::{model::*, sym::*, vfs};
use fbas_analyzer::*;
#[allow(warnings)] mod bulk { include!("/repo/src/bin/bulk_fbas_analyzer.rs"); pub fn run() -> bool { main().is_ok() } }
#[allow(warnings)] mod perf { include!("/repo/src/bin/bulk_performance_experiment.rs"); pub fn run() -> bool { main().is_ok() } }
const BULK: &str = "bulk_fbas_analyzer"; const PERF: &str = "bulk_performance_experiment";
pub fn tool(which: &str) -> bool { if which == BULK { bulk::run() } else { perf::run() } }
fn run(which: &str, args: &[&str]) -> (bool, String) { vfs::run(which, args, "", || tool(which)) }
fn dec(x: usize) -> String { let mut s = String::new(); num(&mut s, x); s }
/// a table with its columns in the order of the first line
struct Table { head: Vec<String>, rows: Vec<Vec<String>> }
impl Table {
    fn parse(s: &str) -> Table {
        let mut v: Vec<Vec<String>> = vec![]; let mut row = vec![]; let mut cell = String::new(); let mut quoted = false; let mut c = s.chars().peekable();
        while let Some(x) = c.next() {
            if quoted { if x == '"' { if c.peek() == Some(&'"') { c.next(); cell.push('"') } else { quoted = false } } else { cell.push(x) } }
            else { match x { '"' => quoted = true, ',' => row.push(std::mem::take(&mut cell)), '\n' => { row.push(std::mem::take(&mut cell)); v.push(std::mem::take(&mut row)) } '\r' => {} _ => cell.push(x) } }
        }
        check(!quoted && cell.is_empty() && row.is_empty(), 1);
        if v.is_empty() { return Table { head: vec![], rows: vec![] } }
        let head = v.remove(0); for r in &v { check(r.len() == head.len(), 2) }
        Table { head, rows: v }
    }
    fn write(&self) -> String {
        let mut s = String::new();
        for r in std::iter::once(&self.head).chain(&self.rows) { for (i, x) in r.iter().enumerate() { if i > 0 { s.push(',') } if x.bytes().any(|b| b == b',' || b == b'"' || b == b'\n') || (r.len() == 1 && x.is_empty()) { s.push('"'); for c in x.chars() { if c == '"' { s.push('"') } s.push(c) } s.push('"') } else { s.push_str(x) } } s.push('\n') }
        s
    }
    fn col(&self, name: &str) -> usize { self.head.iter().position(|x| x == name).unwrap_or_else(|| fail(3)) }
    fn get(&self, r: usize, name: &str) -> &str { &self.rows[r][self.col(name)] }
    fn count(&self, r: usize, name: &str) -> Option<usize> { let x = self.get(r, name); if x.is_empty() { None } else { Some(x.parse().unwrap_or_else(|_| fail(4))) } }
    fn mean(&self, r: usize, name: &str) -> Option<f64> { let x = self.get(r, name); if x.is_empty() { None } else { Some(x.parse().unwrap_or_else(|_| fail(5))) } }
    fn set(&mut self, r: usize, name: &str, x: &str) { let c = self.col(name); self.rows[r][c] = x.into() }
    fn from_file(name: &str) -> Table { Table::parse(&String::from_utf8(vfs::get(name).unwrap_or_else(|| fail(6))).unwrap()) }
}
/// the same cells, whatever notation is used for numbers
fn same(a: &[String], b: &[String]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b || match (a.parse::<f64>(), b.parse::<f64>()) { (Ok(x), Ok(y)) => x == y && a.len() > 0, _ => false }) }
const ONE: &str = "[{\"publicKey\":\"a\",\"quorumSet\":{\"threshold\":1,\"validators\":[\"a\"]}}]";
const TWO: &str = "[{\"publicKey\":\"a\",\"quorumSet\":{\"threshold\":2,\"validators\":[\"a\",\"b\"]}},{\"publicKey\":\"b\",\"quorumSet\":{\"threshold\":2,\"validators\":[\"a\",\"b\"]}}]";
const PARTS: &[&str] = &["Nodes", "Organizations", "nodes", "organizations", "x", "", "json"];
/// the label of a data point is the file's name without its ending and without the parts that say what it is
fn label(parts: usize) { vfs::with(|| {
    let n = pick(parts as u64 + 1) as usize; let mut name = String::new(); let mut want: Vec<&str> = vec![];
    let p: Vec<usize> = (0..n).map(|_| pick(PARTS.len() as u64) as usize).collect();
    let ignore = pick(3) as usize; let ign = ["x", "stellarbeat", "a"][ignore];
    assume(n == 0 || p[n - 1] != 5); // a name that ends in an underscore
    for (i, &k) in p.iter().enumerate() { if i > 0 { name.push('_') } name.push_str(PARTS[k]); if k != 2 && k != 3 && PARTS[k] != ign { want.push(PARTS[k]) } }
    name.push_str(".json");
    let mut path = String::from(["", "nodes_y/"][pick(2) as usize]); path.push_str(&name);
    vfs::put(&path, ONE.as_bytes());
    let (ok, out) = if ignore == 1 { run(BULK, &[&path]) } else { run(BULK, &[&path, if flip() { "-i" } else { "--ignore-for-label" }, ign]) };
    check(ok, 7); let t = Table::parse(&out); reach(1);
    // what names organisations is no data point
    if p.contains(&3) { check(t.rows.is_empty(), 8); return }
    check(t.rows.len() == 1 && t.get(0, "label") == want.join("_"), 9); obs(t.get(0, "label").len() as u64);
}) }
const NAMES: &[(&str, u8, &str)] = &[("1_nodes_y.json", 0, "1_y"), ("1_organizations_y.json", 1, "1_y"), ("1_y.json", 0, "1_y"), ("organizations_1.json", 1, "1"), ("d/stellarbeat_1.json", 0, "1"), ("1.txt", 2, ""), ("organizations_1", 2, "")];
/// every nodes file becomes one data point, with the organisations of the same label
fn inputs(n: usize) { vfs::with(|| {
    let k: Vec<usize> = (0..n).map(|_| pick(NAMES.len() as u64) as usize).collect();
    for i in 0..n { for j in 0..i { assume(k[i] != k[j] || NAMES[k[i]].1 != 1) } }
    for &i in &k { vfs::put(NAMES[i].0, if NAMES[i].1 == 0 { TWO } else if i == 1 { "[{\"name\":\"o\",\"validators\":[\"a\",\"b\"]}]" } else { "[{\"name\":\"o\",\"validators\":[\"a\"]},{\"name\":\"p\",\"validators\":[\"b\"]}]" }.as_bytes()) }
    let mut args: Vec<&str> = k.iter().map(|&i| NAMES[i].0).collect(); if flip() { args.push("-j"); args.push("2") }
    let (ok, out) = run(BULK, &args);
    if k.iter().any(|&i| NAMES[i].1 == 2) { check(!ok && out.is_empty(), 10); reach(2); return }
    check(ok, 11); let t = Table::parse(&out); reach(1);
    let mut want: Vec<(&str, Option<usize>)> = k.iter().filter(|&&i| NAMES[i].1 == 0).map(|&i| (NAMES[i].2, k.iter().find(|&&j| NAMES[j].1 == 1 && NAMES[j].2 == NAMES[i].2).map(|&j| if j == 1 { 1 } else { 2 }))).collect();
    want.sort();
    check((0..t.rows.len()).map(|r| (t.get(r, "label"), t.count(r, "orgs_top_tier_size"))).collect::<Vec<_>>() == want, 12); obs(want.len() as u64);
    for r in 0..t.rows.len() { check(t.count(r, "top_tier_size") == Some(2) && t.count(r, "mq_max") == Some(2), 13) }
}) }
const LABELS: &[(&str, &str)] = &[("a", "a.json"), ("b", "b_nodes.json"), ("", "nodes.json"), ("a_2345678901234567890123456789012345678901234567890123456789012345678901234567890", "a_2345678901234567890123456789012345678901234567890123456789012345678901234567890.json")];
/// what is known is reused, what is not is analysed, everything once and in the order of the labels
fn tasks() { vfs::with(|| {
    let k = pick(4) as usize; let ins: Vec<usize> = (0..k).map(|_| pick(4) as usize).collect();
    let outs: Vec<usize> = (0..4).filter(|_| flip()).collect();
    for &i in &ins { vfs::put(LABELS[i].1, ONE.as_bytes()) }
    // the output of another run, with results of its own
    vfs::put("x.json", TWO.as_bytes()); let (ok, out) = run(BULK, &["x.json"]); check(ok, 14); let mut t = Table::parse(&out);
    let row = t.rows.remove(0); for (n, &i) in outs.iter().rev().enumerate() { t.rows.push(row.clone()); t.set(n, "label", LABELS[i].0); t.set(n, "top_tier_size", &dec(40 + i)); t.set(n, "mq_max", "18446744073709551615"); t.set(n, "mbs_mean", "0.1"); t.set(n, "orgs_mq_mean", if i == 1 { "2.5" } else { "" }) }
    vfs::put("out.csv", t.write().as_bytes());
    let mut args: Vec<&str> = ins.iter().map(|&i| LABELS[i].1).collect(); args.extend(["-o", "out.csv", if flip() { "-u" } else { "--update" }]); if k < 3 && flip() { args.extend(["--jobs", "3"]) }
    check(run(BULK, &args).0, 15); let got = Table::from_file("out.csv"); reach(1);
    let mut want: Vec<(&str, bool)> = outs.iter().map(|&i| (LABELS[i].0, true)).chain(ins.iter().filter(|i| !outs.contains(i)).map(|&i| (LABELS[i].0, false))).collect(); want.sort();
    check(got.rows.len() == want.len() && (want.is_empty() || got.head == t.head), 16);
    for (r, &(l, known)) in want.iter().enumerate() {
        check(got.get(r, "label") == l, 17);
        if known { check(same(&got.rows[r], t.rows.iter().find(|x| x[t.col("label")] == l).unwrap()), 18) } else { check(got.count(r, "top_tier_size") == Some(1) && got.count(r, "mq_max") == Some(1) && got.count(r, "orgs_top_tier_size") == None, 19) }
        obs(got.count(r, "top_tier_size").unwrap() as u64);
    }
}) }
/// data points that were written are read back unchanged, unusual labels and numbers included
fn csv(labels: usize) { vfs::with(|| {
    let s: Vec<String> = (0..labels).map(|_| { let n = pick(3); let mut s = String::new(); for _ in 0..n { s.push([',', '"', 'a', '\n', ' ', 'é'][pick(6) as usize]) } s }).collect();
    // as file names
    let names: Vec<String> = s.iter().map(|s| { let mut s = s.clone(); s.push_str(".json"); s }).collect();
    for x in &names { vfs::put(x, ONE.as_bytes()) }
    let mut args: Vec<&str> = names.iter().map(|x| x.as_str()).collect(); args.extend(["-o", "out.csv"]);
    check(run(BULK, &args).0, 20);
    let mut t = Table::from_file("out.csv"); let mut l = s.clone(); l.sort();
    check((0..t.rows.len()).map(|r| t.get(r, "label").to_string()).collect::<Vec<_>>() == l, 21); reach(1);
    if labels == 1 { let k = pick(5); for (i, c) in ["mbs_mean", "ctries_mss_mean", "analysis_duration_mq"].iter().enumerate() { t.set(0, c, ["0.0", "1.5", "2.3333333333333335", "1e-7", "12345.0"][(k as usize + i) % 5]) } let k = pick(3); for (i, c) in ["mq_max", "isps_mbs_min"].iter().enumerate() { t.set(0, c, ["0", "9", "18446744073709551615"][(k as usize + i) % 3]) } t.set(0, "has_quorum_intersection", if flip() { "true" } else { "false" }); vfs::put("out.csv", t.write().as_bytes()) }
    l.dedup();
    check(run(BULK, &["-u", "-o", "out.csv"]).0, 22); let u = Table::from_file("out.csv");
    check(u.rows.len() == l.len() && u.head == t.head, 23);
    for r in 0..l.len() { check(t.rows.iter().any(|x| x[t.col("label")] == l[r] && same(&u.rows[r], x)), 24); obs(u.rows[r].len() as u64) }
}) }
fn node(s: &mut String, f: &F, i: usize, isp: Option<usize>, country: Option<usize>) {
    let q = &f.q[i]; s.push_str("{\"publicKey\":\""); s.push_str(&key(i)); s.push_str("\",\"quorumSet\":{\"threshold\":"); num(s, q.t as usize); s.push_str(",\"validators\":["); for (k, &j) in q.v.iter().enumerate() { if k > 0 { s.push(',') } s.push('"'); s.push_str(&key(j)); s.push('"') } s.push_str("]}");
    if let Some(x) = isp { s.push_str(",\"isp\":\"p"); num(s, x); s.push('"') } if let Some(x) = country { s.push_str(",\"geoData\":{\"countryName\":\"c"); num(s, x); s.push_str("\"}") } s.push('}')
}
type Shape = (usize, usize, f64);
/// a whole data point: every number in its own column, for nodes and for nodes merged in three ways
fn point(fb: F) { vfs::with(|| {
    let n = fb.n; let o = fb.oracle();
    let g: Vec<u64> = (0..n).map(|_| pick(3)).collect(); // one of two groups, or none
    let with_orgs = toss(); let with_isps = toss();
    let isp = |i: usize| if with_isps && g[(i + 1) % n] < 2 { Some(g[(i + 1) % n] as usize) } else { None }; let country = |i: usize| if g[i] == 1 { None } else { Some(0) };
    let file = |order: &mut dyn Iterator<Item = usize>| { let mut s = String::from("["); for (k, i) in order.enumerate() { if k > 0 { s.push(',') } node(&mut s, &fb, i, isp(i), country(i)) } s.push(']'); s };
    let nodes = file(&mut (0..n)); vfs::put("nodes.json", nodes.as_bytes()); vfs::put("z.json", file(&mut (0..n).rev()).as_bytes());
    if with_orgs {
        let mut t = String::from("[");
        for o in 0..2 { if o > 0 { t.push(',') } t.push_str("{\"name\":\"o"); num(&mut t, o); t.push_str("\",\"validators\":["); let mut first = true; for i in 0..n { if g[i] == o as u64 { if !first { t.push(',') } first = false; t.push('"'); t.push_str(&key(i)); t.push('"') } } t.push_str("]}") }
        t.push(']'); vfs::put("organizations.json", t.as_bytes());
    }
    let args: &[&str] = if with_orgs { &["z.json", "organizations.json", "nodes.json"] } else { &["z.json", "nodes.json"] };
    let (ok, out) = run(BULK, args); check(ok, 25); let t = Table::parse(&out); check(t.rows.len() == 2 && t.get(0, "label") == "" && t.get(1, "label") == "z", 26);
    let all = |x: &[u64]| (0..1u32 << n).filter(|&s| conc(x[s as usize]) == 1).collect::<Vec<u32>>();
    let mq = all(&o.min); let mbs = all(&o.mbs()); let hqi = conc(o.hqi()) == 1; let mss = if hqi { all(&o.mss()) } else { vec![0] }; let mut top = 0; for m in &mq { top |= m }
    let any = mq.len() > 0;
    let check_all = |r: usize, prefix: &str, group: &dyn Fn(usize) -> Option<usize>| {
        let rep: Vec<usize> = (0..n).map(|i| match group(i) { None => i, Some(x) => (0..n).find(|&j| group(j) == Some(x)).unwrap() }).collect();
        let merge = |m: u32| { let mut r = 0u32; for i in 0..n { if m >> i & 1 == 1 { r |= 1 << rep[i] } } r };
        let shape = |v: &[u32]| -> Shape { let mut v: Vec<u32> = v.iter().map(|&m| merge(m)).collect(); v.sort(); v.dedup(); let k: Vec<u32> = v.iter().copied().filter(|&a| !v.iter().any(|&b| b != a && b & a == b)).collect(); let l: Vec<usize> = k.iter().map(|x| x.count_ones() as usize).collect(); if l.is_empty() { (0, 0, 0.) } else { (*l.iter().min().unwrap(), *l.iter().max().unwrap(), l.iter().sum::<usize>() as f64 / l.len() as f64) } };
        let name = |x: &str| { let mut s = String::from(prefix); s.push_str(x); s };
        check(t.count(r, &name("top_tier_size")) == Some(merge(top).count_ones() as usize), 27); obs(t.count(r, &name("top_tier_size")).unwrap() as u64);
        for (what, v) in [("mq", &mq), ("mbs", &mbs), ("mss", &mss)] {
            if what == "mbs" && !any { continue } // nothing needs blocking
            let s = shape(v); let mut a = name(what); a.push('_'); let at = |x: &str| { let mut s = a.clone(); s.push_str(x); s };
            check(t.count(r, &at("min")) == Some(s.0) && t.count(r, &at("max")) == Some(s.1) && t.mean(r, &at("mean")) == Some(s.2), 28);
        }
    };
    let nothing = |r: usize, prefix: &str| for (i, c) in t.head.iter().enumerate() { if c.starts_with(prefix) { check(t.rows[r][i].is_empty(), 29) } };
    for r in 0..2 {
        check(t.get(r, "has_quorum_intersection") == if hqi { "true" } else { "false" }, 30);
        check_all(r, "", &|_| None);
        // organisations are told apart by label
        if with_orgs && r == 0 { check_all(r, "orgs_", &|i| if g[i] < 2 { Some(g[i] as usize) } else { None }) } else { nothing(r, "orgs_") }
        if (0..n).any(|i| isp(i).is_some()) { check_all(r, "isps_", &isp) } else { nothing(r, "isps_") }
        if (0..n).any(|i| country(i).is_some()) { check_all(r, "ctries_", &country) } else { nothing(r, "ctries_") }
        for c in ["analysis_duration_mq", "analysis_duration_mbs", "analysis_duration_mss", "analysis_duration_total"] { check(t.mean(r, c).map_or(false, |x| x >= 0.), 31) }
    }
    // the fingerprint is that of the standard form, so the order of the nodes in the file is of no consequence
    use sha3::Digest; let h = hex::encode(sha3::Sha3_256::digest(&Fbas::from_json_str(&nodes).to_standard_form().to_json_string().into_bytes()));
    check(t.get(0, "standard_form_hash") == h, 32);
    let sorted = fb.q.iter().all(|q| q.v.windows(2).all(|w| w[0] < w[1])); if n < 2 || !sorted { check(t.get(1, "standard_form_hash") == h, 33) }
    reach(1);
}) }
/// whole runs over several files, with an output that is kept, refused and updated
fn files() { vfs::with(|| {
    let n = 1 + pick(2) as usize; let names = ["1_nodes.json", "0.json"]; let labels = ["1", "0"];
    let nodes_file = |name: &str, shape: usize| vfs::put(name, match shape { 0 => TWO, 1 => "[{\"publicKey\":\"a\",\"isp\":\"x\",\"quorumSet\":{\"threshold\":1,\"validators\":[\"a\",\"b\"]}},{\"publicKey\":\"b\",\"quorumSet\":{\"threshold\":1,\"validators\":[\"a\",\"b\"]}}]", _ => "[{\"publicKey\":\"a\",\"geoData\":{\"countryName\":\"c\"},\"quorumSet\":{\"threshold\":1,\"validators\":[\"a\"]}}]" }.as_bytes());
    let expected = |t: &Table, r: usize, shape: usize, orgs: bool| {
        let (hqi, top, q, b, s) = match shape { 0 => ("true", 2, (2, 2), (1, 1), (0, 0)), 1 => ("false", 2, (1, 1), (2, 2), (0, 0)), _ => ("true", 1, (1, 1), (1, 1), (0, 0)) };
        check(t.get(r, "has_quorum_intersection") == hqi && t.count(r, "top_tier_size") == Some(top), 34);
        for (what, x) in [("mq", q), ("mbs", b), ("mss", s)] { let at = |k: &str| { let mut s = String::from(what); s.push_str(k); s }; check(t.count(r, &at("_min")) == Some(x.0) && t.count(r, &at("_max")) == Some(x.1) && t.mean(r, &at("_mean")) == Some(x.0 as f64), 35) }
        check(t.count(r, "orgs_top_tier_size") == if orgs { Some(1) } else { None } && t.count(r, "orgs_mq_min") == if orgs { Some(1) } else { None }, 36);
        check(t.count(r, "isps_top_tier_size") == if shape == 1 { Some(2) } else { None } && t.count(r, "ctries_top_tier_size") == if shape == 2 { Some(1) } else { None }, 37);
        check(t.get(r, "standard_form_hash").len() == 64, 38); obs(t.count(r, "mq_max").unwrap() as u64);
    };
    let shapes: Vec<usize> = (0..n).map(|i| { let s = pick(3) as usize; nodes_file(names[i], s); s }).collect();
    let mut paths: Vec<&str> = names[..n].to_vec();
    let orgs = flip(); if orgs { vfs::put("organizations_1.json", b"[{\"name\":\"o\",\"validators\":[\"a\",\"b\"]}]"); let at = pick(n as u64 + 1) as usize; paths.insert(at, "organizations_1.json") }
    let jobs = ["1", "2"][pick(2) as usize];
    let go = |paths: &[&str], update: bool| { let mut args = paths.to_vec(); args.extend(["-j", jobs, "--out", "out.csv"]); if update { args.push("--update") } run(BULK, &args) };
    check(go(&paths, false) == (true, String::new()), 39);
    let first = vfs::get("out.csv").unwrap(); let v = Table::from_file("out.csv");
    check(v.rows.len() == n, 40);
    let mut order: Vec<usize> = (0..n).collect(); order.sort_by_key(|&i| labels[i]);
    for (r, &i) in order.iter().enumerate() { check(v.get(r, "label") == labels[i], 41); expected(&v, r, shapes[i], orgs && i == 0) }
    // the output is not overwritten unless it is to be updated
    check(!go(&paths, false).0 && vfs::get("out.csv").as_ref() == Some(&first), 42);
    // an update keeps what is there, even if the input changed, and adds what is new
    let s2 = pick(3) as usize; nodes_file("2.json", s2); nodes_file(names[0], (shapes[0] + 1) % 3);
    let mut more = vec!["2.json"]; if flip() { more.push(names[0]) }
    check(go(&more, true).0, 43);
    let w = Table::from_file("out.csv"); check(w.rows.len() == n + 1, 44);
    for r in 0..n { check(same(&v.rows[r], &w.rows[r]), 45) }
    check(w.get(n, "label") == "2", 46); expected(&w, n, s2, false);
    let mut want = vec!["out.csv", "2.json"]; want.extend(&names[..n]); if orgs { want.push("organizations_1.json") } want.sort();
    check(vfs::list() == want, 47); reach(1);
}) }
// ---- the performance experiment
fn safe(n: usize) -> usize { n - n.saturating_sub(1) / 3 }
fn choose(n: usize, k: usize) -> usize { if k > n { return 0 } let mut r = 1; for i in 0..k { r = r * (n - i) / (i + 1) } r }
/// number and size of the minimal quorums, blocking sets and splitting sets of an ideal FBAS of m nodes
fn ideal(m: usize, stellar: bool) -> [(usize, usize); 3] {
    let k = if stellar { m / 3 } else { m }; let t = safe(k); let (three, two) = if stellar { (3usize, 2) } else { (1, 1) };
    // two thresholds of organisations overlap in at least 2t - k of them
    let split = 2 * t - k;
    [(choose(k, t) * three.pow(t as u32), t * two), (choose(k, k - t + 1) * three.pow((k - t + 1) as u32), (k - t + 1) * two), (choose(k, split) * three.pow(split as u32), split)]
}
fn ran(t: &Table, r: usize, stellar: bool) {
    let m = t.count(r, "top_tier_size").unwrap(); let want = ideal(m, stellar);
    // a single node has no two quorums that differ, nor have two that need each other
    for (i, w) in ["mq", "mbs", "mss"].iter().enumerate() { let at = |k: &str| { let mut s = String::from(*w); s.push_str(k); s }; let (n, s) = if i == 2 && want[0].0 == 1 { (0, 0) } else { want[i] }; obs(t.count(r, &at("_number")).unwrap() as u64); check(t.count(r, &at("_number")) == Some(n) && t.mean(r, &at("_mean")) == Some(s as f64), 48) }
    for c in ["mq", "mbs", "mss", "hqi_after_mq", "hqi_alt_check", "total"] { let mut s = String::from("analysis_duration_"); s.push_str(c); check(t.mean(r, &s).map_or(false, |x| x >= 0.), 49) }
}
/// all sizes and runs that were asked for
fn sizes(max: usize, stellar: bool) { vfs::with(|| {
    let m = pick(max as u64 + 1) as usize; let runs = pick(3) as usize; let file = flip(); let (ms, rs) = (dec(m), dec(runs));
    let mut args = vec!["-m", &ms, "--runs", &rs]; if stellar { args.push("--stellar-like") } if file { args.extend(["-o", "p.csv"]) } if m < 4 && flip() { args.extend(["-j", "2"]) }
    let (ok, out) = run(PERF, &args); check(ok && (!file || out.is_empty()), 50);
    let mut want = vec![]; for s in 1..=m { if !stellar || s % 3 == 0 { for r in 0..runs { want.push((s, r)) } } }
    let t = if file { Table::from_file("p.csv") } else { Table::parse(&out) };
    let got: Vec<(usize, usize)> = (0..t.rows.len()).map(|r| (t.count(r, "top_tier_size").unwrap(), t.count(r, "run").unwrap())).collect();
    check(got.windows(2).all(|w| w[0].0 <= w[1].0), 51); let mut g = got.clone(); g.sort(); check(g == want, 52);
    for r in 0..t.rows.len() { ran(&t, r, stellar) }
    if file { let f = vfs::get("p.csv"); check(!run(PERF, &args).0 && vfs::get("p.csv") == f, 53) }
    reach(1);
}) }
/// what is known is reused, what is not is analysed, everything once and in order of size
fn resume() { vfs::with(|| {
    let stellar = flip(); let m = if stellar { 3 } else { 2 };
    let total: Vec<(usize, usize)> = if stellar { vec![(3, 0), (3, 1)] } else { vec![(1, 0), (1, 1), (2, 0), (2, 1)] };
    let outs: Vec<(usize, usize)> = [(1, 0), (1, 1), (2, 1), (3, 0), (3, 1), (4, 0)].iter().copied().filter(|_| flip()).collect();
    let (ok, out) = run(PERF, &["-m", "1", "-r", "1"]); check(ok, 54); let mut t = Table::parse(&out);
    let row = t.rows.remove(0); for (n, &(m, r)) in outs.iter().rev().enumerate() { t.rows.push(row.clone()); t.set(n, "top_tier_size", &dec(m)); t.set(n, "run", &dec(r)); t.set(n, "mq_number", &dec(70 + 10 * m + r)); t.set(n, "mss_number", "18446744073709551615"); t.set(n, "mbs_mean", "0.1"); t.set(n, "analysis_duration_total", "1e-7") }
    vfs::put("p.csv", t.write().as_bytes()); let ms = dec(m);
    let mut args = vec!["-m", &ms, "-r", "2", "-u", "-o", "p.csv"]; if stellar { args.push("--stellar-like") } if stellar && flip() { args.extend(["-j", "2"]) }
    check(run(PERF, &args).0, 55); let got = Table::from_file("p.csv"); reach(1);
    let at = |t: &Table, r: usize| (t.count(r, "top_tier_size").unwrap(), t.count(r, "run").unwrap());
    let mut g: Vec<(usize, usize)> = (0..got.rows.len()).map(|r| at(&got, r)).collect(); check(g.windows(2).all(|w| w[0].0 <= w[1].0), 56); g.sort();
    let mut want = outs.clone(); want.extend(total.iter().filter(|x| !outs.contains(x))); want.sort(); check(g == want, 57);
    for r in 0..got.rows.len() { match (0..t.rows.len()).find(|&i| at(&t, i) == at(&got, r)) { Some(i) => check(same(&got.rows[r], &t.rows[i]), 58), None => ran(&got, r, stellar) } obs(got.count(r, "mq_number").unwrap() as u64) }
}) }
entries! {
    c22_label => label(2);
    c22_label3 => label(3);
    c22_inputs1 => inputs(1);
    c22_inputs2 => inputs(2);
    c22_inputs3 => inputs(3);
    c22_tasks => tasks();
    c22_csv => csv(1);
    c22_csv_labels => csv(2);
    c22_point2 => point(flat_each(2));
    c22_point3 => point(F::new(vec![{ let v = members(3); qsat(v, vec![]) }; 3]));
    c22_point3_each => point(flat_each(3));
    c22_files => files();
    c22_perf_sizes => sizes(6, false);
    c22_perf_stellar => sizes(6, true);
    c22_perf_resume => resume();
}
nomenu!();
