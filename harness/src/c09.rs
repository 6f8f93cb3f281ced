//! C09: results of an Analysis do not depend on what was asked before
use crate::{model::*, sym::*};
use fbas_analyzer::*;
const K: usize = 8;
fn ask(a: &Analysis, f: &F, k: usize) -> Vec<u32> {
    match k {
        0 => vec![a.has_quorum_intersection() as u32],
        1 => f.masks(&a.minimal_quorums().unwrap()),
        2 => f.masks(&a.minimal_blocking_sets().unwrap()),
        3 => f.masks(&a.minimal_splitting_sets().unwrap()),
        4 => vec![f.mask(&a.top_tier().unwrap())],
        5 => { let (h, w) = a.has_quorum_intersection_via_alternative_check(); vec![h as u32, w.is_some() as u32] }
        6 => vec![a.symmetric_top_tier().is_some() as u32, a.symmetric_clusters().len() as u32],
        _ => vec![f.mask(&a.satisfiable_nodes().unwrap()), f.mask(&a.unsatisfiable_nodes().unwrap()), f.mask(&a.all_nodes().unwrap())],
    }
}
fn history(f: F, len: usize) {
    let b = f.fbas();
    let a = Analysis::new(&b);
    let mut seen: Vec<Option<Vec<u32>>> = vec![None; K];
    for step in 0..len {
        let k = pick(if step == 0 { 6 } else { K as u64 }) as usize;
        let got = ask(&a, &f, k);
        obsv(&got);
        if seen[k].is_none() { seen[k] = Some(ask(&Analysis::new(&b), &f, k)) }
        check(seen[k].as_ref() == Some(&got), 1 + k as u32);
    }
    reach(1)
}
pub fn run(f: F) { history(f, 2) }
fn run3(f: F) { history(f, 3) }
entries! {
    c09_big67 => { let x = big(67); let a = Analysis::new(&x.f); let k = pick(3); if k == 1 { a.minimal_blocking_sets(); } if k == 2 { a.minimal_quorums(); } check(x.pierced(&a.minimal_blocking_sets().unwrap(), x.n - x.t + 1), 9); check(x.exactly(&a.minimal_quorums().unwrap(), x.t), 10); check(a.top_tier().unwrap() == x.core(), 11); check(a.has_quorum_intersection(), 12) };
    c09_wide7 => { let x = wide(7); let a = Analysis::new(&x.f); let k = pick(3); if k == 1 { a.minimal_blocking_sets(); } if k == 2 { a.minimal_quorums(); } check(x.pierced(&a.minimal_blocking_sets().unwrap(), x.n - x.t + 1), 9); check(x.exactly(&a.minimal_quorums().unwrap(), x.t), 10); check(a.top_tier().unwrap() == x.core(), 11); check(a.has_quorum_intersection(), 12) };
    c09_big34 => { let x = big(34); let a = Analysis::new(&x.f); let k = pick(3); if k == 1 { a.minimal_blocking_sets(); } if k == 2 { a.minimal_quorums(); } check(x.pierced(&a.minimal_blocking_sets().unwrap(), x.n - x.t + 1), 9); check(x.exactly(&a.minimal_quorums().unwrap(), x.t), 10); check(a.top_tier().unwrap() == x.core(), 11); check(a.has_quorum_intersection(), 12) };
    c09_h3_core => run3(tiers());
    c09_h3_far => run3(spread(qsatf(), &[2, 9, 70], 71));
    c09_h3_orgs => run3(orgs(2, 2));
    c09_h4_dead => history(tail(), 4);
    c09_h4_ring => history(ring4(), 4);
}
/// three nodes that all list each other, with thresholds of their own
fn qsatf() -> F { F::new((0..3).map(|_| qsat(vec![0, 1, 2], vec![])).collect()) }
/// a core that is smaller than the set of relevant nodes
fn tail() -> F { let x = qsat(vec![1, 2, 3], vec![]); let y = qt(2, vec![0, 1], vec![]); F::new(vec![y, x.clone(), x, qt(2, vec![0, 2, 3], vec![]), none()]) }
fn ring4() -> F { F::new((0..4).map(|i| { let mut v = vec![(i + 3) % 4, i, (i + 1) % 4]; v.sort(); qt(2, v, vec![]) }).collect()) }
menu!("c09", crate::c09::run);
