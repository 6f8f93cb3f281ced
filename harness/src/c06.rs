//! C06: minimal blocking sets
use crate::{model::*, sym::*};
use fbas_analyzer::*;
pub fn run(f: F) {
    let o = f.oracle(); let b = f.fbas();
    let got = f.masks(&Analysis::new(&b).minimal_blocking_sets().unwrap());
    obsv(&got);
    // an FBAS without quorums is out of scope
    let any = o.any(); let want = o.mbs();
    if got.len() > 0 { reach(1) }
    check_b((any ^ 1) | same_family(&got, &want), 1);
    check_b(sorted_by_len(&got), 2);
    let direct = f.masks(&find_minimal_blocking_sets(&b));
    check_b((any ^ 1) | (direct == got) as u64, 3);
}
entries! {
    c06_big67 => { let x = big(67); check(x.pierced(&Analysis::new(&x.f).minimal_blocking_sets().unwrap(), x.n - x.t + 1), 4) };
    c06_wide7 => { let x = wide(7); check(x.pierced(&Analysis::new(&x.f).minimal_blocking_sets().unwrap(), x.n - x.t + 1), 4) };
    c06_big34 => { let x = big(34); check(x.pierced(&Analysis::new(&x.f).minimal_blocking_sets().unwrap(), x.n - x.t + 1), 4) };
}
menu!("c06", crate::c06::run);
