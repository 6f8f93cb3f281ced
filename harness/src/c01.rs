//! C01: quorum slices and quorums
use crate::{model::*, sym::*};
use bit_set::BitSet;
use fbas_analyzer::*;
/// is_quorum for every node set
pub fn run(f: F) {
    let b = f.fbas();
    for s in 0..=f.all() { let got = b.is_quorum(&f.set(s)) as u64; check_b((got == f.is_quorum(s)) as u64, 1); if got == 1 { reach(1) } }
    let mut far = f.set(f.all()); far.insert(f.total + 3); // a node the FBAS does not have satisfies nothing
    for i in 0..f.n { let r = f.q[i].real(&f.ids).is_quorum_slice(&far) as u64; obs(r); check_b((r == f.q[i].slice(f.all())) as u64, 6) }
}
/// quorum slices of a quorum set; `all`: also the enumeration of minimal slices
fn slices(x: Q, n: usize, ids: &[usize]) {
    let r = x.real(ids);
    let sl = r.to_quorum_slices();
    let ms: Vec<u32> = sl.iter().map(|s| { let mut m = 0u32; for id in s.iter() { match ids.iter().position(|&y| y == id) { Some(i) => m |= 1 << i, None => m |= 1 << 31 } } m }).collect();
    obsv(&ms);
    let mut known = 1; for &m in &ms { known &= (m >> n == 0) as u64 & x.slice(m) }
    check_b(known, 1); // each returned set is a slice
    for s in 0..1u32 << n {
        let covered = ms.iter().any(|&m| m & !s == 0) as u64;
        check_b((covered == x.slice(s)) as u64, 2);
    }
    let mut c = 0; for i in 0..n { if r.contained_nodes().contains(ids[i]) { c |= 1 << i } }
    check(c == x.nodes() && r.contained_nodes().len() == c.count_ones() as usize, 3);
    if ms.len() > 0 { reach(1) }
}
/// whether any symbolic node set is a slice of a quorum set
fn decide(x: Q, ids: &[usize]) {
    let r = x.real(ids);
    let (s, m) = symset(2);
    let mut mm = 0u64; for (i, &id) in ids.iter().enumerate() { mm |= (m >> id & 1) << i }
    let got = r.is_quorum_slice(&s) as u64;
    let mut want = 0u64; let _ = &mut want;
    want = x.slice(mm as u32);
    obs(got); reach(1);
    check_b((got == want) as u64, 4);
    let mut n = 0; let mut dup = false; count(&x, &mut n, &mut dup, &mut 0);
    check(r.contains_duplicates() == dup, 5);
}
fn count(x: &Q, n: &mut usize, dup: &mut bool, seen: &mut u32) {
    for &i in &x.v { *n += 1; if *seen >> i & 1 == 1 { *dup = true } *seen |= 1 << i }
    for q in &x.inner { count(q, n, dup, seen) }
}
const ID8: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
const IDF: [usize; 5] = [0, 7, 8, 14, 15];
fn any2(n: usize) -> Q { let v = members(n); let i = q(members(n), vec![]); q(v, vec![i]) }
entries! {
    c01_set8 => { let x = lazyq((0..8).collect(), vec![]); decide(x, &ID8) };
    c01_set_nested => { let a = lazyq(vec![2, 3, 4], vec![]); let b = lazyq(vec![5, 6], vec![]); let x = lazyq(vec![0, 1], vec![a, b]); decide(x, &ID8) };
    c01_set_any => { let v = members(4); let a = lazyq(members(4), vec![]); let x = lazyq(v, vec![a]); decide(x, &ID8) };
    c01_set_deep => { let c = lazyq(vec![4, 5], vec![]); let b = lazyq(vec![2, 3], vec![c]); let a = lazyq(vec![1], vec![b]); let x = lazyq(vec![0], vec![a]); decide(x, &ID8) };
    c01_set_far => { let a = lazyq(vec![2, 3, 4], vec![]); let x = lazyq(vec![0, 1], vec![a]); decide(x, &IDF) };
    // 300 members, nodes or sets of one or two nodes each, of which the first k agree
    c01_set_big => {
        let t = inp(64) as usize; let kind = pick(3) as usize; let k = [0, 1, 2, 127, 128, 129, 255, 256, 257, 299, 300][pick(11) as usize];
        let w = kind.max(1);
        let m: Vec<QuorumSet> = (0..300).map(|i| QuorumSet { threshold: w, validators: (i * w..i * w + w).collect(), inner_quorum_sets: vec![] }).collect();
        let r = if kind == 0 { QuorumSet { threshold: t, validators: (0..300).collect(), inner_quorum_sets: vec![] } } else { QuorumSet { threshold: t, validators: vec![], inner_quorum_sets: m } };
        let s: BitSet = (0..k * w).collect();
        let got = r.is_quorum_slice(&s) as u64;
        obs(got); reach(1);
        check_b((got == ((t != 0) as u64 & (t <= k) as u64)) as u64, 7);
        check(r.contained_nodes().len() == 300 * w && !r.contains_duplicates(), 8);
    };
    c01_set_dups => { let mut v = vec![]; for i in 0..3 { for _ in 0..pick(3) { v.push(i) } } let a = lazyq(vec![1, 2], vec![]); let x = lazyq(v, vec![a]); decide(x, &ID8) };
    c01_enum_flat => { let x = q(members(5), vec![]); slices(x, 5, &ID8) };
    c01_enum_nested => { let a = q(vec![2, 3, 4], vec![]); let b = q(vec![5, 6], vec![]); let x = q(vec![0, 1], vec![a, b]); slices(x, 7, &ID8) };
    c01_enum_any => { let x = any2(4); slices(x, 4, &ID8) };
    c01_enum_deep => { let c = q(vec![4, 5], vec![]); let b = q(vec![2, 3], vec![c]); let a = q(vec![1], vec![b]); let x = q(vec![0], vec![a]); slices(x, 6, &ID8) };
    c01_enum_orgs => { let o = (0..3).map(|k| q(vec![2 * k, 2 * k + 1], vec![])).collect(); let x = q(vec![], o); slices(x, 6, &ID8) };
    // inner sets that may be equal to one another
    c01_enum_twice => { let inner = (0..1 + pick(3)).map(|_| q(members(2), vec![])).collect(); let v = members(1); let x = q(v, inner); slices(x, 2, &ID8) };
    c01_enum_far => { let a = q(vec![2, 3, 4], vec![]); let x = q(vec![0, 1], vec![a]); slices(x, 5, &[3, 63, 64, 65, 200]) };
}
menu!("c01", crate::c01::run);
