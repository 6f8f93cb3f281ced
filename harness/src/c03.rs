//! C03: minimal quorums
use crate::{model::*, sym::*};
use fbas_analyzer::*;
pub fn run(f: F) {
    let o = f.oracle();
    let b = f.fbas();
    let got = f.masks(&Analysis::new(&b).minimal_quorums().unwrap());
    obs(got.len() as u64); for &g in &got { obs(g as u64) }
    if got.len() > 0 { reach(1) }
    check_b(same_family(&got, &o.min), 1);
    check_b(sorted_by_len(&got), 2);
    let direct = f.masks(&find_minimal_quorums(&b));
    check(direct == got, 3);
}
entries! {
    c03_big67 => { let x = big(67); check(x.exactly(&Analysis::new(&x.f).minimal_quorums().unwrap(), x.t), 4); check(x.exactly(&find_minimal_quorums(&x.f), x.t), 5) };
    c03_parted => { let (f, parts, t) = parted(17); let m = Analysis::new(&f).minimal_quorums().unwrap(); let n = parts[0].len(); check(m.len() == 2 * if t == n { 1 } else { n } && m.iter().all(|q| q.len() == t && parts.iter().any(|p| q.is_subset(p))), 6) };
    c03_wide7 => { let x = wide(7); check(x.exactly(&Analysis::new(&x.f).minimal_quorums().unwrap(), x.t), 4); check(x.exactly(&find_minimal_quorums(&x.f), x.t), 5) };
    c03_big34 => { let x = big(34); check(x.exactly(&Analysis::new(&x.f).minimal_quorums().unwrap(), x.t), 4); check(x.exactly(&find_minimal_quorums(&x.f), x.t), 5) };
}
menu!("c03", crate::c03::run);
