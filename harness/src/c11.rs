//! C11: relevant nodes and standard form
use crate::{model::*, sym::*};
use fbas_analyzer::*;
/// who can be reached along trust links between the given nodes
fn reachable(f: &F, within: u32) -> Vec<u32> {
    let mut r: Vec<u32> = (0..f.n).map(|i| if within >> i & 1 == 1 { f.q[i].nodes() & within | 1 << i } else { 0 }).collect();
    for k in 0..f.n { for i in 0..f.n { if r[i] >> k & 1 == 1 { r[i] |= r[k] } } } r
}
pub fn run(f: F) {
    let o = f.oracle(); let b = f.fbas();
    // a node is relevant iff it is satisfiable and the satisfiable nodes of its component contain a quorum
    let sat = o.union(&o.q);
    let r = reachable(&f, f.all());
    let mut want = vec![0u64; f.n];
    for i in 0..f.n {
        let mut scc = 0; for j in 0..f.n { if r[i] >> j & 1 == 1 && r[j] >> i & 1 == 1 { scc |= 1u32 << j } }
        want[i] = sat[i] & o.has[scc as usize];
    }
    let rel = b.relevant_nodes(); let m = f.mask(&rel);
    obs(m as u64); if m != 0 { reach(1) }
    check_b(same_set(m, &want), 1);
    // components
    let sccs = f.masks(&b.strongly_connected_components().into_iter().filter(|s| f.mask(s) & f.all() != 0).collect::<Vec<_>>());
    let mut seen = 0; for &c in &sccs { check(seen & c == 0 && c & !f.all() == 0, 2); seen |= c; for i in 0..f.n { if c >> i & 1 == 1 { for j in 0..f.n { check((c >> j & 1 == 1) == (r[i] >> j & 1 == 1 && r[j] >> i & 1 == 1), 3) } } } }
    check(seen == f.all(), 4);
    // standard form: relevant nodes only, sorted by key, same quorums
    let s = b.to_standard_form();
    check(s.number_of_nodes() == rel.len(), 5);
    let name = |i: usize| key(f.ids[i]);
    let mut pos: Vec<Option<usize>> = vec![None; f.n]; let mut order: Vec<(String, usize)> = vec![];
    for i in 0..f.n { let p = s.get_node_id(&name(i)); check(p.is_some() == (m >> i & 1 == 1), 6); pos[i] = p; if p.is_some() { order.push((name(i), p.unwrap())) } }
    order.sort(); for k in 0..order.len() { check(order[k].1 == k, 7) }
    let back = |x: &bit_set::BitSet| { let mut m = 0u32; for i in 0..f.n { if let Some(p) = pos[i] { if x.contains(p) { m |= 1 << i } } } m };
    let mut a: Vec<u32> = find_minimal_quorums(&s).iter().map(back).collect();
    a.sort(); obsv(&a);
    check_b(same_family(&a, &o.min), 8);
}
/// the standard form of nodes of any names is sorted by name, whatever their order was
const KEYS: [&str; 8] = ["a", "B", "b", "aB", "Ab", "_", "n10", "n9"];
fn named(n: usize, keys: &[&str]) {
    let mut k: Vec<usize> = vec![]; for _ in 0..n { let x = pick(keys.len() as u64) as usize; assume(!k.contains(&x)); k.push(x) }
    let f = flat_self(n);
    let build = |order: &[usize]| {
        let mut s = String::from("[");
        for (p, &i) in order.iter().enumerate() {
            if p > 0 { s.push(',') }
            s.push_str("{\"publicKey\":\""); s.push_str(keys[k[i]]); s.push_str("\",\"quorumSet\":{\"threshold\":"); num(&mut s, f.q[i].t as usize); s.push_str(",\"validators\":[");
            for (c, &x) in f.q[i].v.iter().enumerate() { if c > 0 { s.push(',') } s.push('"'); s.push_str(keys[k[x]]); s.push('"') }
            s.push_str("]}}");
        }
        s.push(']'); Fbas::from_json_str(&s)
    };
    let up: Vec<usize> = (0..n).collect(); let mut down = up.clone(); down.rotate_left(1);
    let a = build(&up);
    let (s, t) = (a.to_standard_form(), build(&down).to_standard_form());
    check(s == t, 9);
    let m = f.mask(&a.relevant_nodes()); obs(m as u64); reach(1);
    let mut names: Vec<(&str, usize)> = (0..n).filter(|&i| m >> i & 1 == 1).map(|i| (keys[k[i]], i)).collect(); names.sort();
    check(s.number_of_nodes() == names.len(), 10);
    for (p, &(name, i)) in names.iter().enumerate() {
        check(s.get_node_id(name) == Some(p), 11);
        let mut v: Vec<usize> = f.q[i].v.iter().filter_map(|&x| names.iter().position(|y| y.1 == x)).collect(); v.sort();
        let q = s.get_quorum_set(p).unwrap(); let mut w = q.validators.clone(); w.sort();
        check(w == v && q.inner_quorum_sets.is_empty(), 12);
    }
}
entries! {
    c11_big67 => { let x = big(67); check(x.f.relevant_nodes() == x.core(), 13); let s = x.f.to_standard_form(); check(s.number_of_nodes() == x.all() && (x.at..x.at + x.all()).all(|i| s.get_node_id(&key(i)).is_some()) && s.is_quorum(&(0..x.all()).collect()), 14) };
    c11_wide7 => { let x = wide(7); check(x.f.relevant_nodes() == x.core(), 13); let s = x.f.to_standard_form(); check(s.number_of_nodes() == x.all() && (x.at..x.at + x.all()).all(|i| s.get_node_id(&key(i)).is_some()) && s.is_quorum(&(0..x.all()).collect()), 14) };
    c11_big34 => { let x = big(34); check(x.f.relevant_nodes() == x.core(), 13); let s = x.f.to_standard_form(); check(s.number_of_nodes() == x.all() && (x.at..x.at + x.all()).all(|i| s.get_node_id(&key(i)).is_some()) && s.is_quorum(&(0..x.all()).collect()), 14) };
    c11_named2 => named(2, &KEYS);
    c11_named3 => named(3, &["_", "n10", "B", "a"]);
}
menu!("c11", crate::c11::run);
