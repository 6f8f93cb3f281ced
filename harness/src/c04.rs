//! C04: quorum intersection
use crate::{model::*, sym::*};
use fbas_analyzer::*;
pub fn run(f: F) {
    let o = f.oracle(); let b = f.fbas();
    let got = Analysis::new(&b).has_quorum_intersection() as u64;
    obs(got);
    if got == 1 { reach(1) } else { reach(2) }
    check_b((got == o.hqi()) as u64, 1);
}
entries! {
    c04_big67 => { let x = big(67); check(Analysis::new(&x.f).has_quorum_intersection(), 2) };
    c04_parted => { let (f, _, _) = parted(17); check(!Analysis::new(&f).has_quorum_intersection(), 3) };
    c04_wide7 => { let x = wide(7); check(Analysis::new(&x.f).has_quorum_intersection(), 2) };
    c04_big34 => { let x = big(34); check(Analysis::new(&x.f).has_quorum_intersection(), 2) };
}
menu!("c04", crate::c04::run);
