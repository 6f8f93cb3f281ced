//! C13: merging by groups
use crate::{model::*, sym::*};
use bit_set::BitSet;
use fbas_analyzer::*;
/// which group each node belongs to, if any; groups are disjoint and listed by their members in order
/// or in reverse
pub struct G { pub of: Vec<Option<usize>>, pub members: Vec<Vec<usize>> }
pub fn groups(n: usize, k: usize, reverse: bool) -> G {
    let mut of = vec![]; let mut used = 0;
    for _ in 0..n { let c = pick((used + 2).min(k + 1) as u64) as usize; of.push(if c == 0 { None } else { if c > used { used = c } Some(c - 1) }) }
    let mut members: Vec<Vec<usize>> = (0..used).map(|g| (0..n).filter(|&i| of[i] == Some(g)).collect()).collect();
    if reverse { for m in &mut members { m.reverse() } }
    G { of, members }
}
impl G {
    pub fn json(&self, ids: &[usize]) -> String {
        let mut s = String::from("[");
        for (g, m) in self.members.iter().enumerate() {
            if g > 0 { s.push(',') }
            s.push_str("{\"name\":\"g"); num(&mut s, g); s.push_str("\",\"validators\":[");
            for (k, &i) in m.iter().enumerate() { if k > 0 { s.push(',') } s.push_str("\"n"); num(&mut s, ids[i]); s.push('"') }
            s.push_str("]}");
        }
        s.push(']'); s
    }
    /// all nodes of the groups of the nodes in s
    pub fn close(&self, s: u32) -> u32 { let mut r = s; for m in &self.members { let mut g = 0; for &i in m { g |= 1 << i } if g & s != 0 { r |= g } } r }
    /// each group stands as its first listed member
    pub fn merge(&self, s: u32) -> u32 { let mut r = 0; for i in 0..self.of.len() { if s >> i & 1 == 1 { r |= 1 << match self.of[i] { Some(g) => self.members[g][0], None => i } } } r }
}
fn nodes(n: usize, k: usize, spread: usize) {
    let ids: Vec<usize> = (0..n).map(|i| i * spread).collect();
    let fbas = Fbas::new_generic_unconfigured((n - 1) * spread + 1);
    let g = groups(n, k, flip());
    let gr = Groupings::organizations_from_json_str(&g.json(&ids), &fbas);
    check(gr.number_of_groupings() == g.members.len(), 1);
    let f = F { n, q: vec![], ids: ids.clone(), total: fbas.number_of_nodes(), lazy: false };
    let one = |i: usize| { let x = gr.merge_node(ids[i]); ids.iter().position(|&y| y == x) };
    for i in 0..n {
        let Some(a) = one(i) else { fail(2) };
        check(if g.of[i].is_some() { g.of[a] == g.of[i] } else { a == i }, 2); // stays within the group
        for j in 0..n { check((one(j) == Some(a)) == (i == j || g.of[i].is_some() && g.of[i] == g.of[j]), 3) }
        obs(a as u64);
    }
    let img = |s: u32| { let mut r = 0u32; for i in 0..n { if s >> i & 1 == 1 { r |= 1 << one(i).unwrap() } } r };
    for s in 0..1u32 << n { check(f.mask(&gr.merge_node_set(f.set(s))) == img(s), 4) }
    reach(1);
    // families of node sets
    let fam: Vec<u32> = (0..3).map(|_| pick(1 << n) as u32).collect();
    let sets: Vec<BitSet> = fam.iter().map(|&s| f.set(s)).collect();
    let merged: Vec<u32> = fam.iter().map(|&s| img(s)).collect();
    check(f.masks(&gr.merge_node_sets(sets.clone())) == merged, 5);
    let mut min: Vec<u32> = merged.iter().copied().filter(|&x| merged.iter().all(|&y| y & !x != 0 || y == x)).collect(); min.sort(); min.dedup();
    let mut got = f.masks(&gr.merge_minimal_node_sets(sets)); got.sort();
    check(got == min, 6);
}
/// results of an analysis
fn results(f: F, k: usize) {
    let b = f.fbas();
    let g = groups(f.n, k, true);
    let gr = Groupings::organizations_from_json_str(&g.json(&f.ids), &b);
    let a = Analysis::new(&b);
    let all = |r: &NodeIdSetVecResult| f.masks(&r.clone().unwrap());
    for r in [a.minimal_quorums(), a.minimal_blocking_sets(), a.minimal_splitting_sets()] {
        let want: Vec<u32> = all(&r).iter().map(|&s| g.merge(s)).collect();
        let m = r.merged_by_group(&gr);
        check(all(&m) == want, 7); obsv(&want);
        let mut min: Vec<u32> = want.iter().copied().filter(|&x| want.iter().all(|&y| y & !x != 0 || y == x)).collect(); min.sort(); min.dedup();
        let mut got = all(&m.minimal_sets()); got.sort();
        check(got == min, 8);
        check(f.mask(&m.involved_nodes()) == want.iter().fold(0, |x, y| x | y), 9);
    }
    let t = a.top_tier(); if t.len() > 0 { reach(1) }
    check(f.mask(&t.merged_by_group(&gr).unwrap()) == g.merge(f.mask(&t.unwrap())), 10);
}
/// a merged quorum set asks of whole groups what the original asks
fn quorum_sets(x: Q, n: usize, k: usize) {
    let f = F::new(vec![none(); n]); let b = f.fbas();
    let g = groups(n, k, false);
    let gr = Groupings::organizations_from_json_str(&g.json(&f.ids), &b);
    let m = gr.merge_quorum_set(x.real(&f.ids));
    for s in 0..1u32 << n { if g.close(s) != s { continue }
        let got = m.is_quorum_slice(&f.set(g.merge(s))) as u64; obs(got); if got == 1 { reach(1) }
        check_b((got == x.slice(s)) as u64, 11);
    }
    check(f.mask(&m.contained_nodes()) == g.merge(x.nodes()), 12);
}
/// groups survive the shrinking of the ID space
fn shrunken(n: usize, k: usize) {
    let f = F::new(vec![none(); n]); let b = f.fbas();
    let g = groups(n, k, flip());
    let gr = Groupings::organizations_from_json_str(&g.json(&f.ids), &b);
    let keep: Vec<usize> = members(n);
    let (s, m) = b.shrunken(keep.iter().copied().collect());
    let gs = Groupings::shrunken(&gr, &m, &s);
    check(gs.number_of_groupings() == gr.number_of_groupings(), 13);
    for (i, &a) in keep.iter().enumerate() {
        check(gs.get_by_member(i).is_some() == g.of[a].is_some() && gr.get_by_member(a).is_some() == g.of[a].is_some(), 14);
        for (j, &c) in keep.iter().enumerate() { check((gs.merge_node(i) == gs.merge_node(j)) == (gr.merge_node(a) == gr.merge_node(c)), 15) }
        obs(gs.merge_node(i) as u64);
    }
    reach(1);
}
fn v(n: usize) -> Vec<usize> { members(n) }
/// two groups of many nodes that are only together a quorum
fn many(n: usize) {
    let all: Vec<usize> = (0..n).collect(); let q = QuorumSet { threshold: n, validators: all.clone(), inner_quorum_sets: vec![] };
    let mut b = Fbas::new(); for _ in 0..n { b.add_generic_node(q.clone()); }
    let k = 2 + pick(2) as usize; let g = G { of: (0..n).map(|i| Some(i % k)).collect(), members: (0..k).map(|m| (0..n).filter(|i| i % k == m).collect()).collect() };
    let gr = Groupings::organizations_from_json_str(&g.json(&all), &b); reach(1);
    for i in 0..n { check(gr.merge_node(i) == i % k, 30); check(gr.get_by_member(i).is_some(), 31) }
    let a = Analysis::new(&b); let first: Vec<usize> = (0..k).collect();
    check(a.minimal_quorums().merged_by_group(&gr).into_vec_vec() == vec![first.clone()], 32);
    check(a.minimal_blocking_sets().merged_by_group(&gr).minimal_sets().into_vec_vec() == first.iter().map(|&i| vec![i]).collect::<Vec<_>>(), 33);
    check(a.top_tier().merged_by_group(&gr).into_vec() == first, 34);
}
entries! {
    c13_many => many(70);
    c13_nodes3 => nodes(3, 2, 1);
    c13_nodes_far => nodes(2, 2, 40);
    c13_res_flat => results(flat_self(3), 2);
    c13_res_orgs => results(orgs(2, 2), 2);
    c13_res_tail => results(spread(F::new(vec![qt(1, vec![0, 1], vec![]), qsat(vec![1, 2, 3], vec![]), qt(2, vec![1, 2, 3], vec![]), qsat(vec![1, 2, 3], vec![])]), &[2, 9, 35, 70], 71), 2);
    c13_res_dead => results(dead(), 1);
    c13_res_core => results(tiers(), 1);
    c13_qset_flat => { let x = qsat(v(4), vec![]); quorum_sets(x, 4, 2) };
    c13_qset_nested => { let a = qsat(vec![1, 2], vec![]); let b = qsat(vec![3, 4], vec![]); let x = qsat(if flip() { vec![0] } else { vec![] }, vec![a, b]); quorum_sets(x, 5, 3) };
    c13_qset_mixed => { let a = qsat(vec![2, 3], vec![]); let x = qsat(vec![0, 1], vec![a]); quorum_sets(x, 4, 4) };
    c13_qset_any => { let a = v(3); let x = v(3); assume(a.len() > 0); let a = qsat(a, vec![]); let x = qsat(x, vec![a]); quorum_sets(x, 3, 2) };
    c13_qset_deep => { let c = qsat(vec![2, 3], vec![]); let b = qsat(vec![1], vec![c]); let x = qsat(vec![0], vec![b]); quorum_sets(x, 4, 3) };
    c13_shrunken => shrunken(4, 3);
}
nomenu!();
