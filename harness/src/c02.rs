//! C02: satisfiable and unsatisfiable nodes
use crate::{model::*, sym::*};
use fbas_analyzer::*;
pub fn run(f: F) {
    let o = f.oracle(); let b = f.fbas();
    let sat = o.union(&o.q);
    let an = Analysis::new(&b);
    let s = an.satisfiable_nodes().unwrap(); let u = an.unsatisfiable_nodes().unwrap();
    let (sm, um) = (f.mask(&s) & f.all(), f.mask(&u) & f.all());
    obs(sm as u64); obs(um as u64); reach(1);
    check_b(same_set(sm, &sat), 1);
    check(s.is_disjoint(&u) && s.len() + u.len() == f.total && s.iter().chain(u.iter()).all(|i| i < f.total), 2);
    check(s.len() == sm.count_ones() as usize, 3); // nodes outside the model are unconfigured
    check(b.satisfiable_nodes() == s && b.unsatisfiable_nodes() == u, 4);
    check(an.all_nodes().unwrap() == (0..f.total).collect(), 5);
    // the same within a part of the FBAS
    if f.n <= 3 {
        for part in 0..=f.all() {
            let (s, u) = preprocessing::find_satisfiable_nodes(&f.set(part), &b);
            let (s, u) = (f.mask(&s), f.mask(&u));
            check(s & u == 0 && s | u == part, 6);
            let mut want = vec![0u64; f.n];
            for t in 0..=f.all() { if t & !part == 0 { for i in 0..f.n { if t >> i & 1 == 1 { want[i] |= o.q[t as usize] } } } }
            check_b(same_set(s, &want), 7);
        }
    }
}
entries! {
    c02_big67 => { let x = big(67); let a = Analysis::new(&x.f); let mut w = x.core(); w.insert(x.at + x.all()); check(a.satisfiable_nodes().unwrap() == w, 8); check(a.unsatisfiable_nodes().unwrap() == (0..x.at).collect(), 9) };
    c02_big300 => { let x = big(300); let a = Analysis::new(&x.f); let mut w = x.core(); w.insert(x.at + x.all()); check(a.satisfiable_nodes().unwrap() == w, 8); check(a.unsatisfiable_nodes().unwrap() == (0..x.at).collect(), 9) };
    c02_wide7 => { let x = wide(7); let a = Analysis::new(&x.f); let mut w = x.core(); w.insert(x.at + x.all()); check(a.satisfiable_nodes().unwrap() == w, 8); check(a.unsatisfiable_nodes().unwrap() == (0..x.at).collect(), 9) };
    c02_big34 => { let x = big(34); let a = Analysis::new(&x.f); let mut w = x.core(); w.insert(x.at + x.all()); check(a.satisfiable_nodes().unwrap() == w, 8); check(a.unsatisfiable_nodes().unwrap() == (0..x.at).collect(), 9) };
}
menu!("c02", crate::c02::run);
