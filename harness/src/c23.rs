//! C23: FBASs as values
use crate::{model::*, sym::*};
use fbas_analyzer::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
/// records what is hashed
#[derive(Default, PartialEq)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
fn hash(x: &impl Hash) -> Rec { let mut r = Rec::default(); x.hash(&mut r); r }
fn order(a: &Fbas, b: &Fbas) -> Ordering { let o = a.cmp(b); check(a.partial_cmp(b) == Some(o) && b.cmp(a) == o.reverse() && (o == Ordering::Equal) == (a == b) && (a == b) == (b == a) && (a != b) == !(a == b), 1); o }
/// the same contents, held differently: built through names in JSON
fn other_way(f: &Fbas) -> Fbas { let mut g = Fbas::new(); for i in 0..f.number_of_nodes() { g.add_generic_node(QuorumSet::new()); g.swap_quorum_set(i, f.get_quorum_set(i).unwrap()); } g }
fn some(n: usize) -> F { F::new((0..n).map(|_| match pick(3) { 0 => none(), 1 => qt(1, members(n), vec![]), _ => qt(1, vec![], vec![qt(pick(2), vec![0], vec![])]) }).collect()) }
fn same(a: &F, b: &F) -> bool { a.n == b.n && (0..a.n).all(|i| a.q[i].real(&a.ids) == b.q[i].real(&b.ids)) }
fn pair(n: usize) {
    let (x, y) = (some(n), some(n)); let (a, b) = (x.fbas(), y.fbas());
    let o = order(&a, &b); obs(o as i8 as u64); reach(1 + (o == Ordering::Equal) as u32);
    check((a == b) == same(&x, &y), 2);
    if a == b { check(hash(&a) == hash(&b), 3) }
    let c = other_way(&a); check(c == a && hash(&c) == hash(&a) && c.cmp(&b) == o, 4);
    check(a.clone() == a && hash(&a.clone()) == hash(&a), 5);
}
fn triple(n: usize) {
    let a = some(n).fbas(); let b = some(n).fbas(); let k = pick(n as u64 + 2) as usize; let c = some(k).fbas();
    let (p, q, r) = (order(&a, &b), order(&b, &c), order(&a, &c));
    if p == q { check(r == p, 6) } if p == Ordering::Equal { check(r == q, 7) } if q == Ordering::Equal { check(r == p, 8) }
    reach(1); obs(p as i8 as u64); obs(q as i8 as u64);
}
/// read from JSON: the names count, their order counts
fn names() {
    const K: [&str; 3] = ["a", "b", "n0"]; let mut t = vec![]; let mut ks = vec![];
    for _ in 0..2 { let i = pick(3) as usize; let j = pick(3) as usize; assume(i != j); let mut s = String::from("["); for (k, x) in [K[i], K[j]].iter().enumerate() { if k > 0 { s.push(',') } s.push_str("{\"publicKey\":\""); s.push_str(x); s.push_str("\"}") } s.push(']'); t.push(Fbas::from_json_str(&s)); ks.push((i, j)) }
    check((t[0] == t[1]) == (ks[0] == ks[1]), 9); order(&t[0], &t[1]); if t[0] == t[1] { check(hash(&t[0]) == hash(&t[1]), 10) }
    reach(1); obs((t[0] == t[1]) as u64);
}
/// any sequence of operations does to the FBAS what it does to a list of quorum sets
fn history(len: usize) {
    let mut f = if flip() { Fbas::new() } else { Fbas::new_generic_unconfigured(2) }; let mut m: Vec<QuorumSet> = vec![QuorumSet::new(); f.number_of_nodes()];
    for _ in 0..len {
        let q = match pick(3) { 0 => QuorumSet::new(), 1 => QuorumSet { threshold: 1, validators: vec![0], inner_quorum_sets: vec![] }, _ => QuorumSet { threshold: inp(64) as usize, validators: vec![2, 1], inner_quorum_sets: vec![QuorumSet::new()] } };
        if m.is_empty() || flip() { let id = f.add_generic_node(q.clone()); check(id == m.len(), 11); m.push(q) }
        else { let i = pick(m.len() as u64) as usize; let old = f.swap_quorum_set(i, q.clone()); check(old == m[i], 12); m[i] = q }
        if flip() { f = f.clone() }
    }
    let n = m.len(); reach(1); obs(n as u64);
    check(f.number_of_nodes() == n && f.all_nodes().iter().collect::<Vec<_>>() == (0..n).collect::<Vec<_>>(), 13);
    for i in 0..n { check(f.get_quorum_set(i).as_ref() == Some(&m[i]), 14); check(f.get_node_id(&key(i)) == Some(i), 15) }
    check(f.get_quorum_set(n).is_none() && f.get_node_id(&key(n)).is_none() && f.get_node_id("").is_none(), 16);
}
/// a set of FBASs, by order or by hash, holds each once
fn quorum_sets() {
    fn s() -> Q { let i = match pick(3) { 0 => vec![], 1 => vec![qt(pick(2), members(1), vec![])], _ => vec![qt(0, vec![], vec![]), qt(pick(2), vec![0], vec![])] }; let v = members(2); let t = inp(64); qt(t, v, i) }
    let (a, b) = (s().real(&[0, 1]), s().real(&[0, 1]));
    let o = a.cmp(&b); check(b.cmp(&a) == o.reverse() && (o == Ordering::Equal) == (a == b), 17); reach(1);
    let same = a.threshold == b.threshold && a.validators == b.validators && a.inner_quorum_sets.len() == b.inner_quorum_sets.len() && a.inner_quorum_sets.iter().zip(&b.inner_quorum_sets).all(|(x, y)| x.threshold == y.threshold && x.validators == y.validators);
    check((a == b) == same, 18); obs(o as i8 as u64);
}
/// many nodes, of which one differs
fn many(n: usize) {
    let all: Vec<usize> = (0..n).collect(); let q = QuorumSet { threshold: n, validators: all, inner_quorum_sets: vec![] };
    let make = || { let mut b = Fbas::new(); for _ in 0..n { b.add_generic_node(q.clone()); } b };
    let a = make(); let mut b = make(); check(order(&a, &b) == Ordering::Equal && hash(&a).0 == hash(&b).0, 30);
    let i = [0, 1, n / 2, n - 1][pick(4) as usize]; let mut x = q.clone(); match pick(4) { 0 => x.threshold -= 1, 1 => { x.validators.pop(); } 2 => x.inner_quorum_sets.push(QuorumSet::new()), _ => x.validators[n - 1] = 0 }
    check(b.swap_quorum_set(i, x.clone()) == q && b.get_quorum_set(i) == Some(x), 31); reach(1); obs(i as u64);
    check(order(&a, &b) != Ordering::Equal && a != b, 32); check(b.number_of_nodes() == n && b.all_nodes().len() == n, 33);
    b.swap_quorum_set(i, q.clone()); check(a == b && order(&b.clone(), &a) == Ordering::Equal, 34);
}
entries! {
    c23_many => many(70);
    c23_pair1 => pair(1);
    c23_pair2 => pair(2);
    c23_triple1 => triple(1);
    c23_triple2 => triple(2);
    c23_names => names();
    c23_history2 => history(2);
    c23_history3 => history(3);
    c23_history4 => history(4);
    c23_quorum_sets => quorum_sets();
}
nomenu!();
