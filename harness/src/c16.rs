//! C16: FBASs as JSON
use crate::{model::*, sym::*};
use fbas_analyzer::*;
/// the quorum set the text describes
#[derive(Clone)]
struct T { t: u64, text: String, v: Vec<String>, inner: Vec<T>, style: u64 }
fn quoted(s: &mut String, x: &str) { s.push('"'); for c in x.chars() { match c { '"' => s.push_str("\\\""), '\\' => s.push_str("\\\\"), '\n' => s.push_str("\\n"), c => s.push(c) } } s.push('"') }
impl T {
    fn put(&self, s: &mut String) {
        let mut parts: Vec<String> = vec![];
        let mut a = String::from("\"threshold\":"); a.push_str(&self.text); parts.push(a);
        let mut a = String::from("\"validators\": ["); for (k, v) in self.v.iter().enumerate() { if k > 0 { a.push(',') } quoted(&mut a, v) } a.push(']'); parts.push(a);
        if !self.inner.is_empty() || self.style == 1 { let mut a = String::from("\"innerQuorumSets\":["); for (k, q) in self.inner.iter().enumerate() { if k > 0 { a.push_str(" , ") } q.put(&mut a) } a.push(']'); parts.push(a) }
        if self.style == 2 { parts.insert(0, String::from("\"hashKey\":\"x\"")); parts.reverse() }
        s.push('{'); for (k, p) in parts.iter().enumerate() { if k > 0 { s.push(',') } s.push_str(p) } s.push('}')
    }
    /// members that the FBAS does not have are dropped; the rest is sorted
    fn want(&self, keys: &[String]) -> QuorumSet {
        let mut v: Vec<usize> = self.v.iter().filter_map(|x| keys.iter().position(|k| k == x)).collect(); v.sort();
        let mut i: Vec<QuorumSet> = self.inner.iter().map(|q| q.want(keys)).collect(); i.sort();
        QuorumSet { threshold: self.t as usize, validators: v, inner_quorum_sets: i }
    }
}
const TS: [u64; 8] = [0, 1, 2, 10, 99, 4294967296, 18446744073709551614, 18446744073709551615];
fn t(k: u64, v: Vec<String>, inner: Vec<T>, style: u64) -> T { let t = TS[k as usize]; let mut text = String::new(); num(&mut text, t as usize); T { t, text, v, inner, style } }
fn same_nodes(f: &Fbas, keys: &[String]) { check(f.number_of_nodes() == keys.len(), 1); for (i, k) in keys.iter().enumerate() { check(f.get_node_id(k) == Some(i), 2) } check(f.get_node_id("nobody").is_none(), 2) }
fn text(keys: &[String], qs: &[Option<T>], extra: bool) -> String {
    let mut s = String::from("[\n");
    for (i, k) in keys.iter().enumerate() {
        if i > 0 { s.push_str(", ") }
        s.push('{'); if extra { s.push_str("\"active\":true,\"geoData\":{\"countryName\":null,\"x\":1.5},") }
        s.push_str("\"publicKey\":"); quoted(&mut s, k);
        if let Some(q) = &qs[i] { s.push_str(",\"quorumSet\" :"); q.put(&mut s) }
        if extra { s.push_str(",\"isp\":\"a\"") }
        s.push('}');
    }
    s.push(']'); s
}
fn read(keys: Vec<String>, qs: Vec<Option<T>>) {
    let f = Fbas::from_json_str(&text(&keys, &qs, flip()));
    same_nodes(&f, &keys);
    for i in 0..keys.len() { check(f.get_quorum_set(i) == Some(qs[i].as_ref().map_or(QuorumSet::new(), |q| q.want(&keys))), 3) }
    again(&f, &keys); reach(1);
}
/// what is written reads back as the same
fn again(f: &Fbas, keys: &[String]) {
    let g = Fbas::from_json_str(&f.to_json_string());
    check(g == *f, 4); same_nodes(&g, keys);
    check(Fbas::from_json_str(&f.to_json_string_pretty()) == *f, 5);
    for i in 0..keys.len() { check(g.get_quorum_set(i) == f.get_quorum_set(i), 6) }
    check(g.to_json_string() == f.to_json_string(), 7);
}
fn strs(v: &[&str]) -> Vec<String> { v.iter().map(|x| x.to_string()).collect() }
fn some_of(v: &[&str]) -> Vec<String> { let mut r: Vec<String> = v.iter().filter(|_| flip()).map(|x| x.to_string()).collect(); if r.len() > 1 && flip() { r.reverse() } r }
/// an FBAS built through the API survives the way to JSON and back
fn write(f: F) { let b = f.fbas(); let keys: Vec<String> = (0..f.total).map(|i| { let mut s = String::from("n"); num(&mut s, i); s }).collect(); again(&b, &keys); obs(b.to_json_string().len() as u64); reach(1) }
fn q4(v: Vec<usize>, inner: Vec<Q>) -> Q { qt(pick(4), v, inner) }
/// a file holds the same as its text
fn file(k: Vec<String>, q: Vec<Option<T>>) { crate::vfs::with(|| {
    let t = text(&k, &q, flip()); let f = Fbas::from_json_str(&t); let p = std::path::Path::new("nodes.json");
    crate::vfs::put("nodes.json", t.as_bytes()); let g = Fbas::from_json_file(p); reach(1); obs(t.len() as u64);
    check(f == g, 20); check(f.to_json_string() == g.to_json_string(), 21);
    let w = if flip() { f.to_json_string() } else { f.to_json_string_pretty() }; crate::vfs::put("nodes.json", w.as_bytes()); check(Fbas::from_json_file(p) == f, 22);
}) }
entries! {
    c16_file => { let k = strs(&["A", "B"]); let q = (0..2).map(|_| if flip() { let v = some_of(&["A", "B", "X"]); Some(t(pick(3), v, vec![], 0)) } else { None }).collect(); file(k, q) };
    c16_flat => { let k = strs(&["A", "B", "C"]); let v = some_of(&["A", "B", "C", "nobody"]); let q = t(pick(8), v, vec![], pick(3)); read(k, vec![Some(q), None, None]) };
    c16_two => { let k = strs(&["A", "B"]); let q = (0..2).map(|_| if flip() { let v = some_of(&["A", "B", "X"]); Some(t(pick(3), v, vec![], 0)) } else { None }).collect(); read(k, q) };
    c16_nested => { let k = strs(&["A", "B", "C"]); let a = t(pick(3), some_of(&["A", "B", "nobody"]), vec![], pick(3)); let b = t(1, some_of(&["A", "C"]), vec![], 0);
        let i = match pick(4) { 0 => vec![a], 1 => vec![b, a], 2 => vec![a, b], _ => vec![t(2, vec![], vec![b, a], 1)] }; let q = t(pick(3), some_of(&["B"]), i, 0); read(k, vec![None, Some(q), None]) };
    c16_keys => { const K: [&str; 8] = ["", "a b", "\"q\"", "\\", "é", "\n", "{}", "n0"]; let x = pick(8) as usize; let y = pick(8) as usize; assume(x != y);
        let k = strs(&[K[x], K[y]]); let v = strs(&[K[y], K[pick(8) as usize], K[x]]); let q = t(2, v, vec![], 0); read(k, vec![Some(q), None]) };
    // a threshold of two digits, all symbolic
    c16_digits => {
        let k = strs(&["A"]); let mut s = String::new(); let mut t = 0;
        for i in 0..2 { let d = within(8, 48, 57); if i == 0 { assume_b((d != 48) as u64) } t = t * 10 + (d - 48); unsafe { s.as_mut_vec().push(d as u8) } }
        let q = T { t, text: s, v: strs(&["A"]), inner: vec![], style: 0 };
        let f = Fbas::from_json_str(&text(&k, &[Some(q)], false));
        let got = f.get_quorum_set(0).unwrap(); obs(got.threshold as u64); reach(1);
        check_b((got.threshold as u64 == t) as u64, 8);
        let s = f.to_json_string(); let g = Fbas::from_json_str(&s).get_quorum_set(0).unwrap();
        check_b((g.threshold as u64 == t) as u64, 9);
    };
    c16_write_flat => write(F::new((0..3).map(|_| q4(members(3), vec![])).collect()));
    c16_write_nested => { let a = q4(members(3), vec![]); let b = q4(vec![0, 2], vec![]); let mut i = vec![a.clone(), b]; if a.t > 1 || a.t == 1 && a.v.first() > Some(&0) { i.reverse() }
        let mut r: Vec<QuorumSet> = i.iter().map(|q| q.real(&[0, 1, 2])).collect(); r.sort(); if r[0] != i[0].real(&[0, 1, 2]) { i.reverse() }
        let x = q4(members(3), i); write(F::new(vec![x, none(), none()])) };
    c16_write_far => write(spread(F::new(vec![qsat(vec![0, 1], vec![]), qsat(vec![1, 2], vec![qt(1, vec![0, 2], vec![])]), none()]), &[9, 10, 31], 33));
}
nomenu!();
