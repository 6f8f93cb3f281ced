//! C10: symmetric clusters and symmetric top tier
use crate::{model::*, sym::*};
use fbas_analyzer::*;
/// structural equality
fn same(a: &Q, b: &Q) -> u64 {
    if a.v != b.v || a.inner.len() != b.inner.len() { return 0 }
    let mut r = (a.t == b.t) as u64; for i in 0..a.inner.len() { r &= same(&a.inner[i], &b.inner[i]) } r
}
pub fn run(f: F) {
    let b = f.fbas();
    // node i is the first member of a symmetric cluster
    let mut want = vec![0u64; f.n];
    for i in 0..f.n {
        let m = f.q[i].nodes();
        if m == 0 || m.trailing_zeros() as usize != i { continue }
        let mut w = f.q[i].slice(m);
        for j in 0..f.n { if m >> j & 1 == 1 { w &= same(&f.q[i], &f.q[j]) } }
        want[i] = w;
    }
    let got = find_symmetric_clusters(&b);
    obs(got.len() as u64);
    if got.len() > 0 { reach(1) }
    let mut cnt = vec![0u64; f.n];
    for x in &got {
        let i = f.mask(&x.contained_nodes()).trailing_zeros() as usize;
        check(i < f.n, 1);
        check(*x == f.q[i].real(&f.ids), 2);
        cnt[i] += 1;
    }
    for i in 0..f.n { obs(cnt[i]) } // in no particular order
    let mut ok = 1; for i in 0..f.n { ok &= (cnt[i] == want[i]) as u64 }
    check_b(ok, 3);
    let an = Analysis::new(&b);
    // in any order
    let mut a = an.symmetric_clusters(); let mut g = got.clone(); a.sort(); g.sort();
    check(a == g, 4);
    // the top tier is symmetric iff there is just one cluster and no quorum beside it
    let o = f.oracle();
    let t = an.symmetric_top_tier();
    check(find_symmetric_top_tier(&b) == t, 5);
    let mut sym = (got.len() == 1) as u64;
    if got.len() == 1 { let m = f.mask(&got[0].contained_nodes()); sym &= o.has[(f.all() & !m) as usize] ^ 1 }
    check_b((t.is_some() as u64 == sym) as u64, 6);
    if let Some(t) = t {
        reach(2);
        check(t == got[0], 7);
        let tt = f.mask(&an.top_tier().unwrap());
        check(tt != 0 && tt & !f.mask(&t.contained_nodes()) == 0, 8);
        for i in 0..f.n { if tt >> i & 1 == 1 { check(f.q[i].real(&f.ids) == t, 9) } }
    }
}
entries! {
    c10_big67 => { let x = big(67); let a = Analysis::new(&x.f); check(a.symmetric_clusters() == if x.alike { vec![x.q.clone()] } else { vec![] }, 10); check(a.symmetric_top_tier() == if x.alike { Some(x.q.clone()) } else { None }, 11) };
    c10_parted => { let (f, parts, t) = parted(17); let a = Analysis::new(&f); let c = a.symmetric_clusters(); check(c.len() == 2 && parts.iter().all(|p| c.iter().any(|q| q.threshold == t && q.inner_quorum_sets.is_empty() && q.validators.iter().copied().eq(p.iter()))), 12); check(a.symmetric_top_tier().is_none(), 13) };
    c10_wide7 => { let x = wide(7); let a = Analysis::new(&x.f); check(a.symmetric_clusters() == if x.alike { vec![x.q.clone()] } else { vec![] }, 10); check(a.symmetric_top_tier() == if x.alike { Some(x.q.clone()) } else { None }, 11) };
    c10_big34 => { let x = big(34); let a = Analysis::new(&x.f); check(a.symmetric_clusters() == if x.alike { vec![x.q.clone()] } else { vec![] }, 10); check(a.symmetric_top_tier() == if x.alike { Some(x.q.clone()) } else { None }, 11) };
}
menu!("c10", crate::c10::run);
