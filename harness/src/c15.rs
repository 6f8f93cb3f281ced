//! C15: what is derived from the results of an analysis
use crate::{c13::{groups, G}, model::*, sym::*};
use fbas_analyzer::*;
fn list(m: u32, f: &F) -> Vec<usize> { (0..f.n).filter(|i| m >> i & 1 == 1).map(|i| f.ids[i]).collect() }
fn names(m: u32, f: &F, g: Option<&G>) -> Vec<String> {
    (0..f.n).filter(|i| m >> i & 1 == 1).map(|i| match g.and_then(|g| g.of[i]) { Some(k) => { let mut s = String::from("g"); num(&mut s, k); s } None => key(f.ids[i]) }).collect()
}
fn json(v: &[usize]) -> String { let mut s = String::from("["); for (k, &x) in v.iter().enumerate() { if k > 0 { s.push(',') } num(&mut s, x) } s.push(']'); s }
fn quoted(v: &[String]) -> String { let mut s = String::from("["); for (k, x) in v.iter().enumerate() { if k > 0 { s.push(',') } s.push('"'); s.push_str(x); s.push('"') } s.push(']'); s }
fn outer(v: Vec<String>) -> String { let mut s = String::from("["); for (k, x) in v.iter().enumerate() { if k > 0 { s.push(',') } s.push_str(x) } s.push(']'); s }
fn minimal(v: &[u32]) -> Vec<u32> { let mut r: Vec<u32> = v.iter().copied().filter(|&x| v.iter().all(|&y| y & !x != 0 || y == x)).collect(); r.sort(); r.dedup(); r }
/// a family of sets says the same in every form
fn family(r: &NodeIdSetVecResult, want: &[u32], f: &F, b: &Fbas, g: &G, gr: &Groupings) {
    check(f.masks(&r.clone().unwrap()) == want, 1);
    check(r.len() == want.len() && r.is_empty() == want.is_empty(), 2);
    check(f.mask(&r.involved_nodes()) == want.iter().fold(0, |x, y| x | y), 3);
    check(r.contains_empty_set() == want.iter().any(|&x| x == 0), 4);
    let lens: Vec<usize> = want.iter().map(|x| x.count_ones() as usize).collect();
    let (lo, hi) = (lens.iter().copied().min().unwrap_or(0), lens.iter().copied().max().unwrap_or(0));
    let sum: usize = lens.iter().sum();
    let mean = if want.is_empty() { 0. } else { sum as f64 / want.len() as f64 };
    check(r.min() == lo && r.max() == hi, 5);
    check((r.mean() - mean).abs() < 1e-9, 6);
    let h: Vec<usize> = (0..=hi).map(|k| lens.iter().filter(|&&l| l == k).count()).collect();
    check(r.histogram() == h, 7);
    let d = r.describe();
    check(d.0 == want.len() && d.1 == want.iter().fold(0, |x, y| x | y).count_ones() as usize && (d.2).0 == lo && (d.2).1 == hi && d.3 == h && r.minmaxmean() == d.2, 8);
    check(r.clone().into_vec_vec() == want.iter().map(|&m| list(m, f)).collect::<Vec<_>>(), 9);
    check(r.clone().into_pretty_vec_vec(b, None) == want.iter().map(|&m| names(m, f, None)).collect::<Vec<_>>(), 10);
    check(r.clone().into_pretty_vec_vec(b, Some(gr)) == want.iter().map(|&m| names(m, f, Some(g))).collect::<Vec<_>>(), 11);
    check(r.clone().into_id_string() == outer(want.iter().map(|&m| json(&list(m, f))).collect()), 12);
    check(r.clone().into_pretty_string(b, Some(gr)) == outer(want.iter().map(|&m| quoted(&names(m, f, Some(g)))).collect()), 13);
    check(serde_json::to_string(r).unwrap() == r.clone().into_id_string() && r.clone().into_pretty_string(b, None) == outer(want.iter().map(|&m| quoted(&names(m, f, None))).collect()), 24);
    // number of sets, of nodes, least, greatest and mean size, sizes
    let mut s = String::from("["); num(&mut s, want.len()); s.push(','); num(&mut s, d.1); s.push_str(",["); num(&mut s, lo); s.push(','); num(&mut s, hi); s.push(',');
    let t = r.clone().into_describe_string(); check(t.starts_with(&s), 25);
    let rest = &t[s.len()..]; let k = rest.find(']').unwrap_or_else(|| fail(25)); check((rest[..k].parse::<f64>().unwrap_or_else(|_| fail(25)) - mean).abs() < 1e-9, 25);
    let mut s = String::from("],"); s.push_str(&json(&h)); s.push(']'); check(rest[k..] == s, 25);
    let mut got = f.masks(&r.minimal_sets().unwrap()); got.sort();
    check(got == minimal(want), 14);
}
fn set(r: &NodeIdSetResult, want: u32, f: &F, b: &Fbas, g: &G, gr: &Groupings) {
    check(f.mask(&r.clone().unwrap()) == want && f.mask(&r.involved_nodes()) == want, 15);
    check(r.len() == want.count_ones() as usize && r.is_empty() == (want == 0), 16);
    check(r.clone().into_vec() == list(want, f) && r.clone().into_id_string() == json(&list(want, f)), 17);
    check(serde_json::to_string(r).unwrap() == json(&list(want, f)) && r.clone().into_describe_string() == { let mut s = String::new(); num(&mut s, want.count_ones() as usize); s }, 26);
    check(r.clone().into_pretty_string(b, None) == quoted(&names(want, f, None)) && r.clone().into_pretty_string(b, Some(gr)) == quoted(&names(want, f, Some(g))), 27);
    check(r.clone().into_pretty_vec(b, None) == names(want, f, None) && r.clone().into_pretty_vec(b, Some(gr)) == names(want, f, Some(g)), 18);
}
/// drops nodes, named by IDs, by keys, or by groups
fn run(f: F, k: usize, every: bool) {
    let b = f.fbas(); let n = f.n;
    let g = if every { groups(n, k, false) } else { G { of: (0..n).map(|i| if i % 3 == 1 { None } else { Some(i % 3 / 2) }).collect(), members: vec![(0..n).filter(|i| i % 3 == 0).collect(), (0..n).filter(|i| i % 3 == 2).collect()] } };
    let gr = Groupings::organizations_from_json_str(&g.json(&f.ids), &b);
    let a = Analysis::new(&b);
    let kind = pick(4);
    let (fam, one) = match kind { 0 => (Some(a.minimal_quorums()), None), 1 => (Some(a.minimal_blocking_sets()), None), 2 => (Some(a.minimal_splitting_sets()), None), _ => (None, Some(a.top_tier())) };
    let drop: u32 = { let x = pick(1 << n) as u32; if every || x.count_ones() <= 2 { x } else { f.all() & !1 } };
    let keys: Vec<String> = (0..n).filter(|i| drop >> i & 1 == 1).map(|i| key(f.ids[i])).collect();
    let mut strs: Vec<&str> = keys.iter().map(|s| s.as_str()).collect(); strs.push("nobody");
    let ids: Vec<usize> = (0..n).rev().filter(|i| drop >> i & 1 == 1).map(|i| f.ids[i]).collect();
    let (gnames, gmask) = match pick(3) { 0 => (vec!["g0"], g.members.get(0)), 1 => (vec!["g1", "nobody"], g.members.get(1)), _ => (strs.clone(), None) };
    let gmask = if gnames.len() == strs.len() && gnames[0] == strs[0] { drop } else { gmask.map_or(0, |m| m.iter().fold(0, |x, i| x | 1 << i)) };
    if let Some(r) = fam {
        let m = f.masks(&r.clone().unwrap()); obsv(&m);
        if m.len() > 0 { reach(1) }
        family(&r, &m, &f, &b, &g, &gr);
        let w: Vec<u32> = m.iter().map(|x| x & !drop).collect();
        family(&r.without_nodes(&ids), &w, &f, &b, &g, &gr);
        check(f.masks(&r.without_nodes_pretty(&strs, &b, None).unwrap()) == w, 19);
        let w: Vec<u32> = m.iter().map(|x| x & !gmask).collect();
        check(f.masks(&r.without_nodes_pretty(&gnames, &b, Some(&gr)).unwrap()) == w, 20);
    }
    if let Some(r) = one {
        let m = f.mask(&r.clone().unwrap()); obs(m as u64); if m != 0 { reach(1) }
        set(&r, m, &f, &b, &g, &gr);
        set(&r.without_nodes(&ids), m & !drop, &f, &b, &g, &gr);
        check(f.mask(&r.without_nodes_pretty(&strs, &b, None).unwrap()) == m & !drop, 21);
        check(f.mask(&r.without_nodes_pretty(&gnames, &b, Some(&gr)).unwrap()) == m & !gmask, 22);
    }
}
/// quorum sets as names
fn pretty(x: Q, f: F) {
    let b = f.fbas(); let g = G { of: vec![None; f.n], members: vec![] };
    let _ = &g;
    let p = x.real(&f.ids).into_pretty_quorum_set(&b, None);
    fn same(p: &PrettyQuorumSet, q: &Q, f: &F) -> u64 {
        if p.validators != q.v.iter().map(|&i| key(f.ids[i])).collect::<Vec<_>>() || p.inner_quorum_sets.len() != q.inner.len() { return 0 }
        let mut r = (p.threshold == q.t) as u64; for (a, b) in p.inner_quorum_sets.iter().zip(&q.inner) { r &= same(a, b, f) } r
    }
    check_b(same(&p, &x, &f), 23); reach(1);
}
/// a quorum set written with IDs
#[derive(serde::Deserialize)]
#[serde(rename_all = "camelCase", default)]
struct Ids { threshold: usize, validators: Vec<usize>, inner_quorum_sets: Vec<Ids> }
impl Default for Ids { fn default() -> Self { Ids { threshold: usize::MAX, validators: vec![], inner_quorum_sets: vec![] } } }
/// with groups, the names of a quorum set are those of the merged quorum set; the same for lists of quorum sets and in text
fn pretty_groups(x: Q, n: usize, k: usize) {
    let f = F::new(vec![none(); n]); let b = f.fbas(); let g = groups(n, k, false); let gr = Groupings::organizations_from_json_str(&g.json(&f.ids), &b);
    let q = x.real(&f.ids); let m = gr.merge_quorum_set(q.clone());
    fn same(p: &PrettyQuorumSet, q: &QuorumSet, name: &dyn Fn(usize) -> String) -> bool { p.threshold == q.threshold as u64 && p.validators == q.validators.iter().map(|&i| name(i)).collect::<Vec<_>>() && p.inner_quorum_sets.len() == q.inner_quorum_sets.len() && p.inner_quorum_sets.iter().zip(&q.inner_quorum_sets).all(|(p, q)| same(p, q, name)) }
    let grouped = |i: usize| names(1 << i, &f, Some(&g)).pop().unwrap(); let plain = |i: usize| key(i);
    let p = q.clone().into_pretty_quorum_set(&b, Some(&gr)); check(same(&p, &m, &grouped), 28); obs(p.validators.len() as u64); obs(p.threshold);
    let read = |s: String| -> PrettyQuorumSet { serde_json::from_str(&s).unwrap_or_else(|_| fail(29)) };
    check(read(q.clone().into_pretty_string(&b, Some(&gr))) == p && same(&read(q.clone().into_pretty_string(&b, None)), &q, &plain), 29);
    let l = vec![q.clone(), m.clone()];
    let read = |s: String| -> Vec<PrettyQuorumSet> { serde_json::from_str(&s).unwrap_or_else(|_| fail(30)) };
    let r = read(l.clone().into_pretty_string(&b, None)); check(r.len() == 2 && same(&r[0], &q, &plain) && same(&r[1], &m, &plain), 30);
    let r = read(l.clone().into_pretty_string(&b, Some(&gr))); check(r.len() == 2 && r[0] == p && same(&r[1], &gr.merge_quorum_set(m.clone()), &grouped), 30);
    check(gr.merge_quorum_sets(l.clone()) == vec![m.clone(), gr.merge_quorum_set(m.clone())], 31);
    // with IDs
    fn with_ids(p: &Ids, q: &QuorumSet) -> bool { p.threshold == q.threshold && p.validators == q.validators && p.inner_quorum_sets.len() == q.inner_quorum_sets.len() && p.inner_quorum_sets.iter().zip(&q.inner_quorum_sets).all(|(p, q)| with_ids(p, q)) }
    let back: Vec<Ids> = serde_json::from_str(&l.clone().into_id_string()).unwrap_or_else(|_| fail(32)); check(back.len() == 2 && with_ids(&back[0], &q) && with_ids(&back[1], &m), 32);
    let back: Ids = serde_json::from_str(&q.clone().into_id_string()).unwrap_or_else(|_| fail(33)); check(with_ids(&back, &q), 33);
    reach(1);
}
/// plain values
fn plain() {
    let n = [0, 1, 9, 10, 123456, usize::MAX][pick(6) as usize]; let mut s = String::new(); num(&mut s, n); let b = flip(); let t = if b { "true" } else { "false" };
    check(n.into_id_string() == s && n.into_describe_string() == s && b.into_id_string() == t && b.into_describe_string() == t, 34);
    let f = Fbas::new(); check(n.into_pretty_string(&f, None) == s && b.into_pretty_string(&f, None) == t, 35); reach(1);
}
fn tail() -> F { spread(F::new(vec![qt(1, vec![0, 1], vec![]), qsat(vec![1, 2, 3], vec![]), qt(2, vec![1, 2, 3], vec![]), qsat(vec![1, 2, 3], vec![])]), &[2, 9, 35, 70], 71) }
/// many nodes that are only together a quorum
fn wide(n: usize) {
    let all: Vec<usize> = (0..n).collect(); let q = QuorumSet { threshold: n, validators: all.clone(), inner_quorum_sets: vec![] };
    let mut b = Fbas::new(); for _ in 0..n { b.add_generic_node(q.clone()); }
    let a = Analysis::new(&b); let k = [0, 1, 3, n - 1, n][pick(5) as usize]; let drop: Vec<usize> = (0..k).collect(); let rest: Vec<usize> = (k..n).collect();
    let hist = |m: usize, c: usize| { let mut h = vec![0; m + 1]; h[m] = c; h };
    let r = a.minimal_quorums(); obs(r.len() as u64); reach(1);
    check(r.len() == 1 && r.minmaxmean() == (n, n, n as f64) && r.histogram() == hist(n, 1) && r.describe() == (1, n, (n, n, n as f64), hist(n, 1)), 40);
    check(r.clone().into_vec_vec() == vec![all.clone()] && r.clone().into_id_string() == outer(vec![json(&all)]), 41);
    let r = r.without_nodes(&drop); let m = n - k;
    check(r.len() == 1 && r.minmaxmean() == (m, m, m as f64) && r.histogram() == hist(m, 1) && r.clone().into_vec_vec() == vec![rest.clone()] && r.contains_empty_set() == (m == 0), 42);
    let r = a.top_tier(); check(r.len() == n && r.clone().into_vec() == all, 43);
    let r = r.without_nodes(&drop); check(r.len() == m && r.clone().into_vec() == rest && r.is_empty() == (m == 0), 44);
    let r = a.minimal_blocking_sets(); check(r.len() == n && r.minmaxmean() == (1, 1, 1.) && r.histogram() == hist(1, n) && r.involved_nodes().len() == n, 45);
    let r = r.without_nodes(&drop); check(r.len() == n && r.histogram() == (if m > 0 { vec![k, m] } else { vec![k] }) && r.minmaxmean() == ((k == 0) as usize, (m > 0) as usize, m as f64 / n as f64) && r.minimal_sets().len() == if k > 0 { 1 } else { n }, 46);
}
entries! {
    c15_wide => { let n = [35, 70, 130][pick(3) as usize]; wide(n) };
    c15_self2 => run(flat_self(2), 2, true);
    c15_self3 => run(flat_self(3), 2, false);
    c15_far => run(spread(F::new((0..3).map(|_| qsat(vec![0, 1, 2], vec![])).collect()), &[4, 33, 40], 41), 2, true);
    c15_tail => run(tail(), 2, false);
    c15_orgs => run(orgs(2, 3), 2, false);
    c15_dead => run(dead(), 1, false);
    c15_sym => run(sym(5), 1, false);
    c15_ring => run(ring(4), 1, false);
    c15_groups_flat => { let v = members(4); let x = qsat(v, vec![]); pretty_groups(x, 4, 2) };
    c15_groups_nested => { let a = qsat(vec![1, 2], vec![]); let b = qsat(vec![2, 3], vec![]); let x = qsat(vec![0], vec![a, b]); pretty_groups(x, 4, 3) };
    c15_groups_deep => { let c = qsat(vec![2, 3], vec![]); let b = qsat(vec![1], vec![c]); let x = qsat(vec![0], vec![b]); pretty_groups(x, 4, 3) };
    c15_plain => plain();
    c15_pretty => { let v = members(3); let a = lazyq(vec![1, 2], vec![]); let x = lazyq(v, vec![a]); pretty(x, spread(F::new(vec![none(); 3]), &[1, 9, 12], 13)) };
}
nomenu!();
