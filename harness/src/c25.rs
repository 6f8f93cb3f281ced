//! C25: quorum sets configured from a graph
use crate::{model::*, sym::*};
use fbas_analyzer::simulation::{qsc::*, *};
use fbas_analyzer::*;
fn safe(n: usize) -> usize { n - n.saturating_sub(1) / 3 }
fn share(n: usize, x: Option<u64>) -> usize { match x { None => safe(n), Some(k) => ((n as u64 * k + 3) / 4).max(1) as usize } }
fn rel(x: Option<u64>) -> Option<f64> { x.map(|k| k as f64 / 4.) }
fn set(t: usize, v: Vec<usize>) -> QuorumSet { QuorumSet { threshold: t, validators: v, inner_quorum_sets: vec![] } }
fn x() -> Option<u64> { match pick(3) { 0 => None, 1 => Some(2), _ => Some(3) } }
/// some FBAS: unconfigured nodes and configured ones
fn begin(n: usize) -> Fbas { F::new((0..n).map(|i| { let j = (i + 1) % n; match pick(3) { 0 => none(), 1 => qt(1, vec![i, j], vec![]), _ => qt(2, vec![i], vec![qt(1, vec![j, (i + 2) % n], vec![])]) } }).collect()).fbas() }
/// configure one node after the other, all of them twice; what each becomes depends on the FBAS before
fn run(f: Fbas, q: &dyn QuorumSetConfigurator, want: impl Fn(usize, &Fbas) -> QuorumSet) {
    let n = f.number_of_nodes(); let mut f = f;
    for r in 0..2 { for k in 0..n {
        let i = if r == 0 { n - 1 - k } else { k };
        let w = want(i, &f); let before = f.clone();
        let c = q.configure(i, &mut f);
        check(f.number_of_nodes() == n, 1);
        check(f.get_quorum_set(i) == Some(w), 2);
        check((c == ChangeEffect::Change) == (f != before), 3);
        for j in 0..n { if j != i { check(f.get_quorum_set(j) == before.get_quorum_set(j), 4) } }
        let q = f.get_quorum_set(i).unwrap(); obs(q.threshold as u64); for v in q.validators { obs(v as u64) }
        if c == ChangeEffect::Change { reach(1) }
    } }
}
fn linked(o: &[Vec<usize>], i: usize) -> bool { o[i].len() > 0 || o.iter().any(|x| x.contains(&i)) }
fn and_self(mut v: Vec<usize>, i: usize) -> Vec<usize> { v.push(i); v.sort(); v.dedup(); v }
fn neighbors(o: Vec<Vec<usize>>) {
    let n = o.len(); less(begin(n), o)
}
/// the graph may have more nodes than the FBAS
fn less(f: Fbas, o: Vec<Vec<usize>>) {
    let x = x();
    let g = Graph::new(o.iter().map(|v| v.iter().rev().copied().collect()).collect());
    let q = match x { None => AllNeighborsQsc::new_67p(g), _ => if flip() { AllNeighborsQsc::new_relative(g, rel(x).unwrap()) } else { AllNeighborsQsc::new(g, rel(x)) } };
    run(f, &q, |i, f| { let old = f.get_quorum_set(i).unwrap(); if old != QuorumSet::new() || !linked(&o, i) { return old } let v = and_self(o[i].clone(), i); set(share(v.len(), x), v) });
}
fn global(o: Vec<Vec<usize>>) {
    let n = o.len(); let f = begin(n); let x = x(); let g = Graph::new(o.clone());
    let s = g.get_rank_scores(); let mean = s.iter().sum::<f64>() / n as f64; let top: Vec<usize> = (0..n).filter(|&i| s[i] > mean).collect();
    let q = match x { None => GlobalRankQsc::new_67p(g), _ => if flip() { GlobalRankQsc::new_relative(g, rel(x).unwrap()) } else { GlobalRankQsc::new(g, rel(x)) } };
    run(f, &q, |i, f| { let old = f.get_quorum_set(i).unwrap(); if old != QuorumSet::new() || o[i].is_empty() { return old } set(share(top.len(), x), top.clone()) });
}
fn higher(o: Vec<Vec<usize>>, f: Fbas, symmetric: bool, x: Option<u64>) {
    let g = Graph::new(o.clone()); let s = g.get_rank_scores();
    let q = match x { None => HigherTierNeighborsQsc::new_67p(g, symmetric), _ => if flip() { HigherTierNeighborsQsc::new_relative(g, rel(x).unwrap(), symmetric) } else { HigherTierNeighborsQsc::new(g, rel(x), symmetric) } };
    run(f, &q, |i, f| {
        let old = f.get_quorum_set(i).unwrap(); if !linked(&o, i) { return old }
        let up: Vec<usize> = o[i].iter().copied().filter(|&j| s[j] >= 2. * s[i]).collect();
        let same: Vec<usize> = o[i].iter().copied().filter(|&j| s[j] < 2. * s[i] && s[i] < 2. * s[j]).collect();
        let mut v = if up.len() > 0 { up } else { same };
        // whoever of them trusts this node brings along everybody it trusts
        if symmetric { for j in v.clone() { if let Some(t) = f.get_quorum_set(j) { let t = t.contained_nodes(); if t.contains(i) { v.extend(t.iter()) } } } }
        let v = and_self(v, i); set(share(v.len(), x), v)
    });
}
fn any(n: usize) -> Vec<Vec<usize>> { (0..n).map(|i| (0..n).filter(|&j| j != i && flip()).collect()).collect() }
/// an undirected graph
fn mutual(n: usize) -> Vec<Vec<usize>> { let mut o = vec![vec![]; n]; for i in 0..n { for j in i + 1..n { if flip() { o[i].push(j); o[j].push(i) } } } o }
/// a core, nodes attached to it, and a node attached to those
fn star(n: usize) -> Vec<Vec<usize>> { let mut o: Vec<Vec<usize>> = (0..3).map(|i| (0..3).filter(|&j| j != i).collect()).collect(); for i in 3..n { let j = pick(i as u64) as usize; o.push(vec![j]); if flip() { o[j].push(i) } } o }
entries! {
    c25_neighbors3 => neighbors(any(3));
    c25_neighbors_self => neighbors((0..2).map(|_| members(2)).collect());
    c25_neighbors4 => neighbors(mutual(4));
    c25_global3 => global(any(3));
    c25_global4 => global(mutual(4));
    c25_global_star => global(star(5));
    c25_higher3 => { let x = x(); higher(any(3), begin(3), false, x) };
    c25_higher_star => higher(star(5), Fbas::new_generic_unconfigured(5), false, None);
    c25_symmetric3 => { let x = x(); higher(any(3), begin(3), true, x) };
    c25_symmetric4 => higher(mutual(4), Fbas::new_generic_unconfigured(4), true, None);
    c25_many => { let o: Vec<Vec<usize>> = (0..35).map(|i| (0..35).filter(|&j| j != i).collect()).collect(); let f = Fbas::new_generic_unconfigured(35); match pick(3) { 0 => less(f, o), k => higher(o, f, k == 2, None) } };
    c25_less_neighbors => less(begin(2), any(3));
    c25_less_higher => { let x = x(); let s = flip(); let n = 2 + pick(2) as usize; higher(mutual(4), Fbas::new_generic_unconfigured(n), s, x) };
    c25_less_symmetric => higher(any(3), begin(2), true, None);
    c25_less_star => { let s = flip(); let n = 3 + pick(2) as usize; higher(star(5), Fbas::new_generic_unconfigured(n), s, None) };
    c25_symmetric_star => higher(star(5), Fbas::new_generic_unconfigured(5), true, None);
}
nomenu!();
