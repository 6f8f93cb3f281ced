//! C14: operations on families of node sets
use crate::{model::*, sym::*};
use bit_set::BitSet;
use fbas_analyzer::sets::*;
/// a set over the given IDs, its members symbolic, kept in storage of `bytes` bytes; and its mask
fn some(ids: &[usize], bytes: usize) -> (BitSet, u64) {
    let mut b = vec![0u8; bytes]; let mut m = 0u64;
    let x = inp(ids.len() as u32);
    for (k, &i) in ids.iter().enumerate() { let v = x >> k & 1; m |= v << k; b[i / 8] |= (v as u8) << (7 - i % 8) }
    (BitSet::from_bytes(&b), m)
}
fn mask(s: &BitSet, ids: &[usize]) -> u64 { let mut m = 0u64; for i in s.iter() { match ids.iter().position(|&x| x == i) { Some(k) => m |= 1 << k, None => m |= 1 << 63 } } m }
fn family(k: usize, ids: &[usize], bytes: &[usize]) -> (Vec<BitSet>, Vec<u64>) { let mut a = vec![]; let mut b = vec![]; for i in 0..k { let (s, m) = some(ids, bytes[i % bytes.len()]); a.push(s); b.push(m) } (a, b) }
fn intersect(k: usize, ids: &[usize], bytes: &[usize]) {
    let (s, m) = family(k, ids, bytes);
    let got = all_intersect(&s) as u64;
    // a family of one is all right, whatever it holds
    let mut want = 1u64; for i in 0..k { for j in i + 1..k { want &= (m[i] & m[j] != 0) as u64 } }
    obs(got); reach(1);
    // the code may call the family of just the empty set either way
    check_b((got == want) as u64 | (k == 1 && m[0] == 0) as u64, 1);
}
fn involved(k: usize, ids: &[usize], bytes: &[usize]) {
    let (s, m) = family(k, ids, bytes);
    let u = involved_nodes(&s);
    let mut want = 0; for x in &m { want |= x }
    let mut got = 0u64; for (k, &i) in ids.iter().enumerate() { got |= (u.contains(i) as u64) << k }
    check_b((got == want) as u64, 2);
    check_b((u.len() as u64 == want.count_ones() as u64) as u64, 3);
    obs(got); reach(1);
}
fn is_minimal(k: usize, ids: &[usize], bytes: &[usize]) {
    let (s, m) = family(k, ids, bytes);
    let mut all = 1u64; for i in 0..k { for j in 0..k { if i != j { all &= (m[i] & !m[j] != 0) as u64 } } }
    let is = is_set_of_minimal_node_sets(&s) as u64;
    check_b((is == all) as u64, 4);
    obs(is); reach(1);
}
fn minimal(k: usize, ids: &[usize], bytes: &[usize]) {
    // sorting by symbolic members would branch on all of them anyway
    let mut s = vec![]; let mut m = vec![];
    for i in 0..k {
        let x = pick(1 << ids.len()); let mut b = vec![0u8; bytes[i % bytes.len()]];
        for (k, &i) in ids.iter().enumerate() { b[i / 8] |= ((x >> k & 1) as u8) << (7 - i % 8) }
        s.push(BitSet::from_bytes(&b)); m.push(x);
    }
    let r = remove_non_minimal_node_sets(s);
    let got: Vec<u64> = r.iter().map(|x| mask(x, ids)).collect();
    obs(got.len() as u64); for &g in &got { obs(g) }
    if k > 0 { reach(1) }
    // exactly the sets with no proper subset in the family, each once, by size
    for &g in &got { let mut known = 0u64; for &x in &m { known |= (x == g) as u64 } check_b(known, 5) }
    for i in 0..k {
        let mut min = 1u64; for j in 0..k { min &= (m[j] & !m[i] != 0 || m[j] == m[i]) as u64 }
        let mut n = 0u64; for &g in &got { n += (g == m[i]) as u64 }
        check_b((n == min) as u64, 6);
    }
    for w in got.windows(2) { check(w[0].count_ones() <= w[1].count_ones(), 7) }
}
const A: [usize; 3] = [0, 1, 2];
const W: [usize; 4] = [0, 31, 64, 130];
const B: [usize; 4] = [0, 3, 31, 40];
const C: [usize; 2] = [0, 1];
entries! {
    c14_intersect2 => intersect(2, &[0, 1, 2, 3, 4, 5, 6, 7], &[1]);
    c14_intersect3 => intersect(3, &[0, 1, 2, 3, 4], &[1]);
    c14_intersect4 => intersect(4, &A, &[1, 5]);
    c14_intersect_far => intersect(3, &B, &[6]);
    c14_intersect_few => { let k = pick(2); intersect(k as usize, &B, &[6]) };
    c14_involved => involved(3, &[0, 1, 2, 3, 4, 5, 6, 7], &[1]);
    c14_intersect_wide => intersect(3, &W, &[17]);
    c14_involved_wide => involved(3, &W, &[17, 20, 18]);
    c14_is_min_wide => is_minimal(3, &W, &[17, 20, 18]);
    c14_min3_wide => minimal(3, &W, &[17, 20, 18]);
    c14_involved_far => involved(3, &B, &[6, 12, 9]);
    c14_is_min2 => is_minimal(2, &[0, 1, 2, 3, 4, 5, 6, 7], &[1]);
    c14_is_min3 => is_minimal(3, &[0, 1, 2, 3, 4], &[1]);
    c14_is_min_far => is_minimal(3, &B, &[6, 12, 9]);
    c14_min2 => minimal(2, &[0, 1, 2, 3, 4], &[1]);
    c14_min3 => minimal(3, &A, &[1]);
    c14_min4 => minimal(4, &C, &[1, 5, 2, 9]);
    c14_min4x => minimal(4, &A, &[1]);
    c14_min3_far => minimal(3, &B, &[6, 12, 9]);
    // 2 of 12 nodes each and 3 of 12 nodes each, except for the pairs within one of the latter
    c14_min_many => {
        let n = 12; let a = pick(10) as usize; let b = a + 1 + pick(10 - a as u64) as usize; let c = b + 1 + pick(11 - b as u64) as usize;
        let hole = [a, b, c]; let within = |s: &[usize]| s.iter().all(|x| hole.contains(x));
        let mut s: Vec<BitSet> = vec![]; let mut want: Vec<BitSet> = vec![];
        for i in 0..n { for j in 0..i { for k in 0..j { s.push([i, j, k].iter().copied().collect()) } } }
        for i in 0..n { for j in 0..i { if !within(&[i, j]) { s.push([i, j].iter().copied().collect()); want.push(s.last().unwrap().clone()) } } }
        want.push(hole.iter().copied().collect());
        let got = remove_non_minimal_node_sets(s.clone());
        obs(got.len() as u64); reach(1);
        check(got.len() == want.len() && want.iter().all(|w| got.contains(w)), 8);
        check(is_set_of_minimal_node_sets(&got) && !is_set_of_minimal_node_sets(&s), 9);
        check(involved_nodes(&got).len() == n, 10);
    };
    // sets that have node 0 in common, and one that need not have it
    c14_intersect_many => {
        let at = pick(71) as usize; let with = toss(); let low = toss();
        let mut s: Vec<BitSet> = (1..=70).map(|i| [0, i].iter().copied().collect()).collect();
        let x: BitSet = if with { [0, 35].iter().copied().collect() } else if low { (1..70).collect() } else { [1, 70].iter().copied().collect() };
        s.insert(at, x);
        let got = all_intersect(&s); obs(got as u64); reach(1);
        check(got == with, 11);
    };
    c14_min_few => { let k = pick(2); minimal(k as usize, &B, &[6]) };
}
nomenu!();
