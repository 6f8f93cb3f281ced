//! C27: the command-line tools
use crate::{model::*, sym::*, vfs};
#[allow(warnings)] mod a { include!("/repo/src/bin/fbas_analyzer.rs"); pub fn run() -> bool { main().is_ok() } }
#[allow(warnings)] mod s { include!("/repo/src/bin/qsc_simulator.rs"); pub fn run() -> bool { main().is_ok() } }
#[allow(warnings)] mod g { include!("/repo/src/bin/graph_generator.rs"); pub fn run() -> bool { main().is_ok() } }
pub fn tool(which: &str) -> bool { match which { "fbas_analyzer" => a::run(), "qsc_simulator" => s::run(), _ => g::run() } }
/// runs a tool with these arguments and this standard input; what it printed
fn run(which: &str, args: &[&str], stdin: &str) -> String { let (ok, out) = vfs::run(which, args, stdin, || tool(which)); check(ok, 1); out }
/// the results in lines of the form "name: value" with a name in lower case, but not the times; a value
/// may go on over several lines; and how many other lines there are
fn lines(s: &str) -> (Vec<(String, String)>, usize) {
    let mut r: Vec<(String, String)> = vec![]; let mut other = 0; let mut open = 0i32;
    for l in s.lines() {
        let depth = |x: &str| x.bytes().map(|b| match b { b'[' | b'{' => 1, b']' | b'}' => -1, _ => 0 }).sum::<i32>();
        if open > 0 { open += depth(l); r.last_mut().unwrap().1.push_str(l.trim_start()); continue }
        match l.find(": ") { Some(k) if k > 0 && l[..k].bytes().all(|b| b.is_ascii_lowercase() || b == b'_') => if !l[..k].ends_with("_duration") { open = depth(&l[k + 2..]); r.push((l[..k].to_string(), l[k + 2..].to_string())) }, _ => other += 1 }
    }
    (r, other)
}
fn quoted(x: &str) -> String { let mut s = String::from("\""); s.push_str(x); s.push('"'); s }
fn dec(x: usize) -> String { let mut s = String::new(); num(&mut s, x); s }
/// parses "[[0,1],[2]]" into families of names, so that order does not matter
fn family(s: &str) -> Vec<Vec<String>> {
    let s = s.strip_prefix('[').and_then(|s| s.strip_suffix(']')).unwrap_or_else(|| fail(2)); let mut r = vec![]; let mut rest = s;
    while let Some(i) = rest.find('[') { let j = match rest.find(']') { Some(j) => j, None => fail(3) }; let mut v: Vec<String> = rest[i + 1..j].split(',').filter(|x| x.len() > 0).map(|x| x.to_string()).collect(); v.sort(); r.push(v); rest = &rest[j + 1..]; }
    r.sort(); r
}
fn one(s: &str) -> Vec<String> { let mut t = String::from("["); t.push_str(s); t.push(']'); family(&t).pop().unwrap_or_else(|| fail(4)) }
fn json(f: &F, isp: &[usize]) -> String {
    fn q(x: &Q, s: &mut String) { s.push_str("{\"threshold\":"); num(s, x.t as usize); s.push_str(",\"validators\":["); for (k, &i) in x.v.iter().enumerate() { if k > 0 { s.push(',') } s.push_str(&quoted(&key(i))) } s.push_str("],\"innerQuorumSets\":["); for (k, i) in x.inner.iter().enumerate() { if k > 0 { s.push(',') } q(i, s) } s.push_str("]}") }
    let mut s = String::from("["); for i in 0..f.n { if i > 0 { s.push(',') } s.push_str("{\"publicKey\":"); s.push_str(&quoted(&key(i))); s.push_str(",\"isp\":\"p"); num(&mut s, isp[i]); s.push_str("\",\"geoData\":{\"countryName\":\"c"); num(&mut s, 1 - isp[i]); s.push_str("\"},\"quorumSet\":"); q(&f.q[i], &mut s); s.push('}') } s.push(']'); s
}
/// the objects of a list, in any order
fn parts(s: &str) -> Vec<String> { let mut r: Vec<String> = vec![]; let mut depth = 0; for c in s.chars() { if c == '{' { if depth == 0 { r.push(String::new()) } depth += 1 } if depth > 0 { r.last_mut().unwrap().push(c) } if c == '}' { depth -= 1 } } r.sort(); r }
/// any options, on an FBAS from a file or from standard input
fn analyzer(f: F, merge: bool) { vfs::with(|| {
    let n = f.n; let isp: Vec<usize> = if merge { (0..n).map(|_| pick(2) as usize).collect() } else { vec![0; n] };
    let t = json(&f, &isp); let (q, b, s, pretty) = (flip(), flip(), flip(), flip());
    let (alt, none, only, describe, stdin) = if merge { let k = pick(3); (false, true, true, k == 1, k == 2) } else { (flip(), flip(), flip(), flip(), flip()) };
    let mut args: Vec<&str> = vec![]; if !stdin { args.push("nodes.json"); vfs::put("nodes.json", t.as_bytes()) }
    // everything at once, with or without saying so piece by piece as well
    let a = q && b && s && flip(); let also = if a { pick(4) } else { 7 };
    if a { args.push(if pretty { "--all" } else { "-a" }) } if q && (also == 7 || also == 1) { args.push("-q") } if b && (also == 7 || also == 2) { args.push("--minimal-blocking-sets") } if s && (also == 7 || also == 3) { args.push("-s") }
    if pretty { args.push("-p") } if alt { args.push("--alternative-quorum-intersection-check") } if none { args.push("--dont-check-quorum-intersection") } if describe { args.push("-d") } if only { args.push("--results-only") }
    // by organisation, ISP or country; the later ones win
    let (org, by_isp, by_country) = if merge { (flip(), flip(), flip()) } else { (false, false, false) };
    if org { args.push("--merge-by-org"); args.push("orgs.json"); vfs::put("orgs.json", b"[{\"name\":\"o\",\"validators\":[\"n0\",\"n1\"]}]") }
    if by_isp { args.push("--merge-by-isp") } if by_country { args.push("--merge-by-country") }
    let spaced = if stdin { t.replace("},", "},\n\n ") } else { String::new() }; // over several lines, some of them empty
    let out = run("fbas_analyzer", &args, if stdin { &spaced } else { "" });
    // ISPs and countries are only known from a file
    let org = org && !by_isp && !by_country; let (by_isp, by_country) = (by_isp && !stdin, by_country && !stdin);
    let (l, other) = lines(&out);
    // groups: to whom each node is merged, and the names of the groups
    let group: Vec<Option<usize>> = (0..n).map(|i| if by_country || by_isp { Some(isp[i]) } else if org && i < 2 { Some(0) } else { None }).collect();
    let rep: Vec<usize> = (0..n).map(|i| match group[i] { Some(g) => (0..n).find(|&j| group[j] == Some(g)).unwrap(), None => i }).collect();
    let gname = |i: usize| -> String { match group[i] { None => key(i), Some(g) => if by_country { let mut s = String::from("c"); num(&mut s, 1 - g); s } else if by_isp { let mut s = String::from("p"); num(&mut s, g); s } else { "o".to_string() } } };
    let name = |i: usize| -> String { if pretty { quoted(&gname(i)) } else { dec(i) } };
    let merge1 = |m: u32| { let mut r = 0u32; for i in 0..n { if m >> i & 1 == 1 { r |= 1 << rep[i] } } r };
    let merged = |v: Vec<u32>| { let mut v: Vec<u32> = v.into_iter().map(merge1).collect(); v.sort(); v.dedup(); v.iter().copied().filter(|&a| !v.iter().any(|&b| b != a && b & a == b)).collect::<Vec<u32>>() };
    let o = f.oracle(); let all = |x: &[u64]| (0..1u32 << n).filter(|&s| conc(x[s as usize]) == 1).collect::<Vec<u32>>();
    let want = |v: Vec<u32>| { let mut r: Vec<Vec<String>> = merged(v).into_iter().map(|m| { let mut x: Vec<String> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| name(i)).collect(); x.sort(); x }).collect(); r.sort(); r };
    let mq = all(&o.min); let mbs = all(&o.mbs()); let any = mq.len() > 0;
    let hqi = conc(o.hqi()) == 1; let split = conc(o.split()) == 1; let mss = if hqi { all(&o.mss()) } else { vec![0] };
    let mut top = 0; for m in &mq { top |= m }
    let about = |v: Vec<u32>| { let v = merged(v); let k: Vec<u64> = v.iter().map(|m| m.count_ones() as u64).collect(); let mut all = 0; for m in &v { all |= m }
        let (lo, hi) = (k.iter().copied().min().unwrap_or(0), k.iter().copied().max().unwrap_or(0)); let mean = if k.len() == 0 { 0. } else { k.iter().sum::<u64>() as f64 / k.len() as f64 };
        let mut s = String::from("["); num(&mut s, v.len()); s.push(','); num(&mut s, all.count_ones() as usize); s.push_str(",["); num(&mut s, lo as usize); s.push(','); num(&mut s, hi as usize); s.push(','); s.push_str(&serde_json::to_string(&mean).unwrap()); s.push_str("],[");
        for x in 0..=hi { if x > 0 { s.push(',') } num(&mut s, k.iter().filter(|&&y| y == x).count()) } s.push_str("]]"); s };
    let is = |got: &str, v: Vec<u32>| if describe { got == about(v) } else { family(got) == want(v) };
    // which lines there are, in which order
    let mut names = vec!["nodes_total"]; if org || by_isp || by_country { names.push("nodes_total_merged") }
    names.push("symmetric_clusters"); if q { names.push("minimal_quorums") }
    if !none { names.push("has_quorum_intersection"); if alt && split { names.push("nonintersecting_quorums") } }
    if b { names.push("minimal_blocking_sets") } if s { names.push("minimal_splitting_sets") } if q || b || s { names.push("top_tier") }
    check(l.iter().map(|x| x.0.as_str()).collect::<Vec<_>>() == names, 5);
    for (k, v) in &l { obs(v.len() as u64); match k.as_str() {
        "nodes_total" => check(*v == dec(n), 6),
        "nodes_total_merged" => { let k = merge1((1 << n) - 1).count_ones() as usize; check(*v == dec(k), 7) }
        "has_quorum_intersection" => check(v == if hqi { "true" } else { "false" }, 8),
        "minimal_quorums" => check(is(v, mq.clone()), 9),
        "minimal_blocking_sets" => check(!any || is(v, mbs.clone()), 10),
        "minimal_splitting_sets" => check(is(v, mss.clone()), 11),
        "top_tier" => { let mut x: Vec<String> = (0..n).filter(|i| merge1(top) >> i & 1 == 1).map(|i| name(i)).collect(); x.sort(); check(one(v) == x, 12) }
        "symmetric_clusters" if !merge => { let x = fbas_analyzer::Analysis::new(&f.fbas()).symmetric_clusters(); use fbas_analyzer::AnalysisResult; let t = if pretty { x.into_pretty_string(&f.fbas(), None) } else { x.into_id_string() }; check(parts(v) == parts(&t.lines().map(|x| x.trim_start()).collect::<String>()), 27) }
        // disjoint quorums
        "nonintersecting_quorums" if !describe => { let m: Vec<u32> = family(v).iter().map(|x| x.iter().fold(0, |m, x| m | 1u32 << (0..n).find(|&i| name(i) == *x).unwrap_or_else(|| fail(28)))).collect(); check(m.len() > 1, 29); for i in 0..m.len() { check_b(f.is_quorum(m[i]), 30); for j in 0..i { check(m[i] & m[j] == 0, 31) } } }
        _ => {}
    } }
    // commentary comes with the results unless it is to be left out
    check((other == 0) == only, 13);
    reach(1);
}) }
/// quorum sets of a simulated network as the policy of that name makes them
fn simulate(policy: &str, graph: bool, random: bool) { vfs::with(|| {
    use fbas_analyzer::{simulation::*, Fbas}; use std::rc::Rc;
    let text = if graph { let mut s = String::from("# graph\n"); for (a, b) in [(0, 2), (0, 1), (1, 2)] { if (a, b) == (0, 2) || flip() { num(&mut s, a); s.push('|'); num(&mut s, b); s.push_str("|0\n") } } s } else { String::new() };
    let g = if graph { Some(Graph::from_as_rel_string(&text)) } else { None };
    let piped = graph && flip(); let t = if graph && !random && policy.len() < 20 { match pick(3) { 0 => None, 1 => Some(("0.5", 0.5)), _ => Some(("1", 1.)) } } else { None };
    let (i, grow) = (pick(if graph { 2 } else { 3 }) as usize, pick(2) as usize); let (is, gs) = (dec(i), dec(grow));
    let k = if random { 1 + pick(2) as usize } else { 0 }; let ks = dec(k);
    let mut args = vec![]; if i > 0 || flip() { args.push(if flip() { "-i" } else { "--initial" }); args.push(&is) } if grow > 0 { args.push("--grow-by"); args.push(&gs) }
    args.push(policy); if random { args.push(&ks) } if graph { args.push(if piped { "-" } else { vfs::put("g.txt", text.as_bytes()); "g.txt" }) } if let Some((s, _)) = t { args.push(s) }
    let out = run("qsc_simulator", &args, if piped { &text } else { "" });
    // the whole graph is there from the start unless something else is asked for
    let start = match &g { Some(g) if i == 0 && grow == 0 => g.number_of_nodes(), _ => i }; let total = start + grow;
    let f = Fbas::from_json_str(&out); obs(f.number_of_nodes() as u64); reach(1);
    check(f.number_of_nodes() == total, 14);
    let rel = t.map(|x| x.1);
    let members = |i: usize| f.get_quorum_set(i).unwrap_or_else(|| fail(15));
    if random {
        // of the wanted size once there are enough nodes when it is configured, all of them different
        for n in 0..total { let q = members(n); let mut v = q.validators.clone(); v.sort(); v.dedup(); check(v.len() == q.validators.len() && v.len() <= k && q.inner_quorum_sets.len() == 0 && v.iter().all(|&x| x < total), 16); obs(v.len() as u64); check(q.threshold > 0 || v.len() == 0, 16) }
        return
    }
    if !graph { let k = if policy == "Ideal" { total - total.saturating_sub(1) / 3 } else { total }; for n in 0..total { let q = members(n); check(q.threshold == k && q.validators == (0..total).collect::<Vec<_>>() && q.inner_quorum_sets.len() == 0, 17) } return }
    // as simulated by the library under the same policy
    let qsc: Rc<dyn QuorumSetConfigurator> = match policy { "AllNeighbors" => Rc::new(qsc::AllNeighborsQsc::new(g.unwrap(), rel)), "GlobalRank" => Rc::new(qsc::GlobalRankQsc::new(g.unwrap(), rel)), p => Rc::new(qsc::HigherTierNeighborsQsc::new(g.unwrap(), rel, p.starts_with("Symm"))) };
    let mut s = Simulator::new(Fbas::new_generic_unconfigured(start), qsc, Rc::new(monitors::DummyMonitor)); s.simulate_global_reevaluation(start); s.simulate_growth(grow); let want = s.finalize();
    for n in 0..total { let (a, b) = (members(n), want.get_quorum_set(n).unwrap_or_else(|| fail(17))); obs(a.threshold as u64); check(a.threshold == b.threshold && a.validators == b.validators.iter().copied().filter(|&x| x < total).collect::<Vec<_>>() && a.inner_quorum_sets == b.inner_quorum_sets, 18) }
}) }
/// graphs as asked for, in a file or on standard output
fn generate(ring: bool) { vfs::with(|| {
    use fbas_analyzer::simulation::Graph;
    let keep = flip(); let file = flip(); let n = 3 + pick(2) as usize; let ns = dec(n);
    let mut args: Vec<&str> = vec![]; if keep { args.push("--dont-shuffle") } if file { args.push(if flip() { "-o" } else { "--output" }); args.push("g.bz2") }
    if ring { args.extend(["WattsStrogatz", &ns, "2", "0"]) } else { args.extend(["BarabasiAlbert", &ns, "2", "1"]) }
    let out = run("graph_generator", &args, "");
    check(file == (out.len() == 0), 19); check(vfs::list() == if file { vec!["g.bz2"] } else { vec![] }, 20);
    if !file { check(out.starts_with("# Graph generated using "), 21) }
    let g = if file { Graph::from_as_rel_file(std::path::Path::new("g.bz2")) } else { Graph::from_as_rel_string(&out) };
    check(g.number_of_nodes() == n && g.is_undirected(), 22); let d = g.get_out_degrees(); for &x in &d { obs(x as u64) }
    let e = crate::c18::rel(&Graph::to_as_rel_string(&g, None).unwrap()); let linked = |a: usize, b: usize| e.contains(&(a, b, true)) || e.contains(&(b, a, true));
    if ring { check(e.len() == n && d.iter().all(|&x| x == 2), 23); if keep { for i in 0..n { check(linked(i, (i + 1) % n), 24) } } else if n == 4 { let k = conc((!linked(0, 2) || !linked(1, 3)) as u64); reach(2 + k as u32) } }
    else { check(e.len() == n - 1 && d.iter().all(|&x| x > 0), 25); if keep { check(linked(0, 1), 26) } }
    reach(1);
}) }
entries! {
    c27_flags2 => analyzer(flat_each(2), false);
    c27_shared3 => analyzer(F::new(vec![qsat(members(3), vec![]); 3]), false);
    c27_merge3 => { let t = 1 + pick(3); analyzer(F::new(vec![qt(t, vec![0, 1, 2], vec![]); 3]), true) };
    c27_super_safe => simulate("SuperSafe", false, false);
    c27_ideal => simulate("Ideal", false, false);
    c27_random => simulate("Random", false, true);
    c27_fame => simulate("FameWeightedRandom", true, true);
    c27_neighbors => simulate("AllNeighbors", true, false);
    c27_higher => simulate("HigherTierNeighbors", true, false);
    c27_symmetric => simulate("SymmetryEnforcingHigherTierNeighbors", true, false);
    c27_global => simulate("GlobalRank", true, false);
    c27_scale_free => generate(false);
    c27_small_world => generate(true);
}
nomenu!();
