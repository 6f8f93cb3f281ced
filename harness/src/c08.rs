//! C08: top tier
use crate::{model::*, sym::*};
use fbas_analyzer::*;
pub fn run(f: F) {
    let o = f.oracle(); let b = f.fbas();
    let want = o.union(&o.min);
    let fresh = f.mask(&Analysis::new(&b).top_tier().unwrap());
    obs(fresh as u64);
    if fresh != 0 { reach(1) }
    check_b(same_set(fresh, &want), 1);
    // found by way of the minimal blocking sets
    let an = Analysis::new(&b); let mbs = an.minimal_blocking_sets();
    let inv = f.mask(&mbs.involved_nodes());
    let tt = f.mask(&an.top_tier().unwrap());
    obs(tt as u64);
    let any = o.any();
    check_b((any ^ 1) | same_set(tt, &want), 2);
    check(inv == tt, 3);
    // ... and of the minimal quorums
    let an = Analysis::new(&b); let mq = an.minimal_quorums();
    check_b(same_set(f.mask(&mq.involved_nodes()), &want), 4);
    check_b(same_set(f.mask(&an.top_tier().unwrap()), &want), 5);
}
entries! {
    c08_big67 => { let x = big(67); let a = Analysis::new(&x.f); if toss() { a.minimal_blocking_sets(); } check(a.top_tier().unwrap() == x.core(), 6) };
    c08_parted => { let (f, parts, _) = parted(9); let mut all = parts[0].clone(); all.union_with(&parts[1]); check(Analysis::new(&f).top_tier().unwrap() == all, 7) };
    c08_wide7 => { let x = wide(7); let a = Analysis::new(&x.f); if toss() { a.minimal_blocking_sets(); } check(a.top_tier().unwrap() == x.core(), 6) };
    c08_big34 => { let x = big(34); let a = Analysis::new(&x.f); if toss() { a.minimal_blocking_sets(); } check(a.top_tier().unwrap() == x.core(), 6) };
}
menu!("c08", crate::c08::run);
