//! C12: names and irrelevant nodes make no difference
use crate::{model::*, sym::*};
use fbas_analyzer::*;
fn results(f: &F) -> Vec<Vec<u32>> {
    let b = f.fbas(); let a = Analysis::new(&b);
    let sorted = |mut v: Vec<u32>| { v.sort(); v };
    let mut r = vec![sorted(f.masks(&a.minimal_quorums().unwrap())), sorted(f.masks(&a.minimal_blocking_sets().unwrap())), sorted(f.masks(&a.minimal_splitting_sets().unwrap())),
        vec![f.mask(&a.top_tier().unwrap()), f.mask(&b.satisfiable_nodes()), f.mask(&b.relevant_nodes()), a.has_quorum_intersection() as u32, a.has_quorum_intersection_via_alternative_check().0 as u32]];
    // the order in which a quorum set lists its members may change which sets compare equal, not which are satisfied
    r.push(sorted(f.masks(&find_minimal_quorums(&b)))); r.push(sorted(f.masks(&find_minimal_blocking_sets(&b))));
    r
}
/// members listed in another order
fn turned(q: &Q) -> Q { let mut q = q.clone(); q.v.reverse(); q.inner.reverse(); for i in &mut q.inner { *i = turned(i) } q }
pub fn run(f: F) {
    let base = results(&f);
    for r in &base { obsv(r) }
    if base[0].len() > 0 { reach(1) }
    let n = f.n;
    let mut g = f.clone();
    match pick(4) {
        0 => { g.ids = (0..n).rev().collect(); g.total = n }
        1 => { g.ids = (0..n).map(|i| (i * 3 + 1) % (3 * n + 1)).collect(); g.total = 3 * n + 2 }
        2 => { g.ids = (0..n).map(|i| if i == n / 2 { 0 } else { 40 + 11 * (n - i) }).collect(); g.total = 41 + 11 * n }
        _ => { g.ids = (0..n).map(|i| (i + 1) % n).collect(); g.total = n; for q in &mut g.q { *q = turned(q) } }
    }
    let other = results(&g);
    check(base == other, 1);
}
entries! {}
menu!("c12", crate::c12::run);
