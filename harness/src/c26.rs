//! C26: ranks of nodes, and components of a part of the network
use crate::{model::*, sym::*};
use fbas_analyzer::*;
/// who can be reached along trust links
fn reachable(f: &F) -> Vec<u32> {
    let mut r: Vec<u32> = (0..f.n).map(|i| f.q[i].nodes() | 1 << i).collect();
    for k in 0..f.n { for i in 0..f.n { if r[i] >> k & 1 == 1 { r[i] |= r[k] } } } r
}
/// the share of a hundred rounds' walks that end at each node: a walk starts at any of the nodes, goes on to any
/// node trusted by where it is, and is lost where that node is none of those asked for
fn walks(f: &F, part: u32) -> Vec<f64> {
    let n = f.n; let k = part.count_ones() as f64;
    // one hundred steps as powers of the matrix of one
    let step: Vec<Vec<f64>> = (0..n).map(|i| { let t = f.q[i].nodes(); (0..n).map(|j| if part >> i & 1 == 1 && part >> j & 1 == 1 && t >> j & 1 == 1 { 1. / t.count_ones() as f64 } else { 0. }).collect() }).collect();
    let mul = |a: &Vec<Vec<f64>>, b: &Vec<Vec<f64>>| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| { let mut s = 0.; for x in 0..n { s += a[i][x] * b[x][j] } s }).collect()).collect() };
    let s2 = mul(&step, &step); let s4 = mul(&s2, &s2); let s8 = mul(&s4, &s4); let s16 = mul(&s8, &s8); let s32 = mul(&s16, &s16); let s64 = mul(&s32, &s32);
    let all = mul(&mul(&s64, &s32), &s4);
    (0..n).map(|j| { let mut s = 0.; for i in 0..n { if part >> i & 1 == 1 { s += all[i][j] / k } } s }).collect()
}
pub fn run(f: F, whole: bool) {
    let b = f.fbas(); let n = f.n;
    let part = if whole { f.all() } else { let m = (0..n).filter(|_| flip()).fold(0, |m, i| m | 1u32 << i); if m == 0 { return } m };
    let mut ids: Vec<usize> = (0..n).filter(|i| part >> i & 1 == 1).map(|i| f.ids[i]).collect(); if flip() { ids.reverse() }
    let s = preprocessing::rank_nodes(&ids, &b); let want = walks(&f, part);
    check(s.len() == f.total, 1); reach(1);
    for i in 0..f.total { match f.ids.iter().position(|&x| x == i) { Some(k) => { obs((s[i] * 1e6) as u64); check((s[i] - want[k]).abs() < 1e-9, 2) } None => check(s[i] == 0., 3) } }
    if whole && ids.len() == f.total { let mut t = b.rank_nodes(); for i in 0..f.total { check((t[i] - s[i]).abs() < 1e-9, 4); t[i] = 0. } }
    // sorted: the same nodes, highest score first, those of equal score in the given order
    let r = preprocessing::sort_by_rank(ids.clone(), &b);
    check(r.len() == ids.len() && ids.iter().all(|x| r.contains(x)), 5);
    let at = |x: usize| ids.iter().position(|&y| y == x).unwrap_or_else(|| fail(6));
    for w in r.windows(2) { check(s[w[0]] > s[w[1]] || (s[w[0]] == s[w[1]] && at(w[0]) < at(w[1])), 7) }
    // components: those who reach each other, each node in one
    let parts = preprocessing::partition_into_strongly_connected_components(&ids.iter().copied().collect(), &b);
    let g = reachable(&f); let mut seen = 0;
    let mut parts = f.masks(&parts); parts.sort(); // in any order
    for c in parts { obs(c as u64); check(c & !part == 0 && c & seen == 0, 8); seen |= c; for i in 0..n { if c >> i & 1 == 1 { for j in 0..n { if part >> j & 1 == 1 { check((c >> j & 1 == 1) == (g[i] >> j & 1 == 1 && g[j] >> i & 1 == 1), 9) } } } } }
    check(seen == part, 10);
}
/// like `flat`, but only the members matter
fn links(n: usize, inner: bool) -> F { F::new((0..n).map(|_| { let v = members(n); qt(1, v, if inner { vec![qt(1, members(n), vec![])] } else { vec![] }) }).collect()) }
entries! {
    c26_links2 => run(links(2, false), false);
    c26_links3 => run(links(3, false), false);
    c26_links4 => run(links(4, false), true);
    c26_inner2 => run(links(2, true), false);
    c26_core4 => run(F::new((0..4).map(|i| { let v = (0..4).filter(|&j| j == i || j == (i + 1) % 4 || i < 2 && flip()).collect(); qt(1, v, vec![]) }).collect()), false);
    c26_ring => run(ring(6), true);
    c26_tiers => run(tiers(), false);
    c26_dups => run(dups(3), false);
    c26_deep => run(deep(), true);
    c26_many => { let k = 3 + pick(3) as usize; run(F::new((0..30).map(|i| qt(1, (0..30).filter(|&j| j == i || (i + 2 * j) % k != 0).collect(), vec![])).collect()), true) };
    c26_far => run(spread(links(2, false), &[31, 64], 66), false);
}
nomenu!();
