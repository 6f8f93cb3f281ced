//! C07: minimal splitting sets
use crate::{model::*, sym::*};
use fbas_analyzer::*;
pub fn run(f: F) {
    let o = f.oracle(); let b = f.fbas();
    let an = Analysis::new(&b);
    let got = f.masks(&an.minimal_splitting_sets().unwrap());
    obsv(&got);
    let hqi = o.hqi(); let want = o.mss();
    if got.len() > 0 && got[0] != 0 { reach(1) }
    check_b((hqi ^ 1) | same_family(&got, &want), 1);
    check_b(hqi | (got.len() == 1 && got[0] == 0) as u64, 2);
    check_b(sorted_by_len(&got), 3);
    if hqi == 1 {
        let q = find_minimal_quorums(&b);
        let direct = f.masks(&find_minimal_splitting_sets(&b, &q));
        check(direct == got, 4);
    }
}
entries! {
    c07_big67 => { let x = big(67); let m = Analysis::new(&x.f).minimal_splitting_sets().unwrap(); check(if x.t == x.n { m.is_empty() } else { x.exactly(&m, x.n - 2) }, 5) };
    c07_wide7 => { let x = wide(7); let m = Analysis::new(&x.f).minimal_splitting_sets().unwrap(); check(if x.t == x.n { m.is_empty() } else { x.exactly(&m, x.n - 2) }, 5) };
    c07_big34 => { let x = big(34); let m = Analysis::new(&x.f).minimal_splitting_sets().unwrap(); check(if x.t == x.n { m.is_empty() } else { x.exactly(&m, x.n - 2) }, 5) };
}
menu!("c07", crate::c07::run);
