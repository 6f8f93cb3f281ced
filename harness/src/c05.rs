//! C05: quorum intersection by the alternative check, and its witnesses
use crate::{model::*, sym::*};
use fbas_analyzer::*;
fn witnesses(f: &F, o: &O, w: &[u32]) {
    obsv(w);
    check(w.len() >= 2, 1);
    let mut ok = 1; for &x in w { ok &= if (x as usize) < o.q.len() { o.q[x as usize] } else { 0 } }
    check_b(ok, 2);
    for i in 0..w.len() { for j in i + 1..w.len() { check(w[i] & w[j] == 0, 3) } }
    let _ = f;
}
pub fn run(f: F) {
    let o = f.oracle(); let b = f.fbas();
    let (got, w) = Analysis::new(&b).has_quorum_intersection_via_alternative_check();
    obs(got as u64); reach(if got { 1 } else { 2 });
    check_b((got as u64 == o.hqi()) as u64, 4);
    check_b((w.is_some() as u64 == o.split()) as u64, 5);
    if let Some(w) = w { reach(3); let w = f.masks(&w.unwrap()); witnesses(&f, &o, &w) }
    let d = find_nonintersecting_quorums(&b);
    check_b((d.is_some() as u64 == o.split()) as u64, 6);
    if let Some(d) = d { let d = f.masks(&d); witnesses(&f, &o, &d) }
}
entries! {
    c05_big67 => { let x = big(67); let (h, w) = Analysis::new(&x.f).has_quorum_intersection_via_alternative_check(); check(h && w.is_none(), 7) };
    c05_parted => { let (f, parts, _) = parted(17); let (h, w) = Analysis::new(&f).has_quorum_intersection_via_alternative_check(); let w: Vec<_> = w.unwrap().unwrap(); check(!h, 8); check(w.len() == 2 && w[0].is_disjoint(&w[1]), 9); for q in &w { check(f.is_quorum(q) && parts.iter().any(|p| q.is_subset(p)), 10) } };
    c05_wide7 => { let x = wide(7); let (h, w) = Analysis::new(&x.f).has_quorum_intersection_via_alternative_check(); check(h && w.is_none(), 7) };
    c05_big34 => { let x = big(34); let (h, w) = Analysis::new(&x.f).has_quorum_intersection_via_alternative_check(); check(h && w.is_none(), 7) };
}
menu!("c05", crate::c05::run);
