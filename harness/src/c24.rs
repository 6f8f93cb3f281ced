//! C24: shrinking the ID space loses nothing
use crate::{model::*, sym::*};
use bit_set::BitSet;
use fbas_analyzer::*;
/// members that stay, wherever they are listed; a quorum set with nothing left is dropped
fn restrict(q: &QuorumSet, keep: &[usize]) -> QuorumSet {
    let mut v: Vec<usize> = q.validators.iter().filter_map(|x| keep.iter().position(|k| k == x)).collect(); v.sort();
    let mut inner: Vec<QuorumSet> = q.inner_quorum_sets.iter().map(|i| restrict(i, keep)).filter(|i| *i != QuorumSet::new()).collect(); inner.sort();
    QuorumSet { threshold: q.threshold, validators: v, inner_quorum_sets: inner }
}
pub fn run(f: F) {
    let b = f.fbas();
    let mut keep: Vec<usize> = (0..f.n).filter(|_| flip()).map(|i| f.ids[i]).collect(); keep.sort();
    let (s, m) = b.shrunken(keep.iter().copied().collect());
    check(s.number_of_nodes() == keep.len(), 1);
    for (new, &old) in keep.iter().enumerate() {
        let got = s.get_quorum_set(new).unwrap();
        check(got == restrict(&b.get_quorum_set(old).unwrap(), &keep), 2);
    }
    check(*m.unshrink_table() == keep, 3);
    // every node kept is found under its own key, every other one no longer
    for id in 0..b.number_of_nodes() { check(s.get_node_id(&key(id)) == keep.iter().position(|k| *k == id), 8) }
    reach(1);
    // sets survive the way there and back, and to a third ID space
    let n = keep.len(); let first = f.ids.first().copied().unwrap_or(1000);
    let (_, m2) = b.shrunken(keep.iter().copied().filter(|x| *x != first).collect());
    for x in 0..1u32 << n {
        let old: BitSet = (0..n).filter(|i| x >> i & 1 == 1).map(|i| keep[i]).collect();
        let new: BitSet = (0..n).filter(|i| x >> i & 1 == 1).collect();
        check(m.shrink_set(&old) == new && m.unshrink_set(&new) == old, 4);
        check(m.shrink_sets(&[old.clone(), BitSet::new()]) == vec![new.clone(), BitSet::new()] && m.unshrink_sets(&[new.clone()]) == vec![old.clone()], 5);
        if !old.contains(first) { let r = m2.reshrink_sets(&[new], &m); check(m2.unshrink_sets(&r) == vec![old], 6) }
    }
    // a node set within what was kept is a quorum here iff it is one there
    for x in 0..1u32 << n {
        let old: BitSet = (0..n).filter(|i| x >> i & 1 == 1).map(|i| keep[i]).collect();
        let a = b.is_quorum(&old); let c = s.is_quorum(&m.shrink_set(&old));
        obs(a as u64);
        check(a == c, 7);
    }
}
entries! {
    c24_big67 => { let x = big(67); let drop = pick(3) as usize; let keep: BitSet = x.core().iter().filter(|i| *i != x.at + drop * (x.all() / 2 - 1)).collect(); let (s, m) = x.f.shrunken(keep.clone()); check(s.number_of_nodes() == x.all() - 1 && m.unshrink_set(&(0..x.all() - 1).collect()) == keep && m.shrink_set(&keep) == (0..x.all() - 1).collect(), 9); for (i, id) in keep.iter().enumerate() { check(s.get_node_id(&key(id)) == Some(i), 10) } check(s.is_quorum(&(0..x.all() - 1).collect()) == (x.t < x.n), 11) };
    c24_wide7 => { let x = wide(7); let drop = pick(3) as usize; let keep: BitSet = x.core().iter().filter(|i| *i != x.at + drop * (x.all() / 2 - 1)).collect(); let (s, m) = x.f.shrunken(keep.clone()); check(s.number_of_nodes() == x.all() - 1 && m.unshrink_set(&(0..x.all() - 1).collect()) == keep && m.shrink_set(&keep) == (0..x.all() - 1).collect(), 9); for (i, id) in keep.iter().enumerate() { check(s.get_node_id(&key(id)) == Some(i), 10) } check(s.is_quorum(&(0..x.all() - 1).collect()) == (x.t < x.n), 11) };
    c24_big34 => { let x = big(34); let drop = pick(3) as usize; let keep: BitSet = x.core().iter().filter(|i| *i != x.at + drop * (x.all() / 2 - 1)).collect(); let (s, m) = x.f.shrunken(keep.clone()); check(s.number_of_nodes() == x.all() - 1 && m.unshrink_set(&(0..x.all() - 1).collect()) == keep && m.shrink_set(&keep) == (0..x.all() - 1).collect(), 9); for (i, id) in keep.iter().enumerate() { check(s.get_node_id(&key(id)) == Some(i), 10) } check(s.is_quorum(&(0..x.all() - 1).collect()) == (x.t < x.n), 11) };
}
menu!("c24", crate::c24::run);
