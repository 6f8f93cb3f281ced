//! C18: graphs as AS relationships
use crate::{model::*, sym::*};
use fbas_analyzer::simulation::Graph;
use fbas_analyzer::NodeId;
/// the edges a text lists, in the direction it was written
pub fn rel(s: &str) -> Vec<(usize, usize, bool)> {
    let mut r = vec![];
    for l in s.split('\n') { if l.is_empty() || l.starts_with('#') { continue }
        let mut f = l.split('|'); let mut n = || { let mut x = 0; for b in f.next().unwrap().bytes() { if b == b'-' { x = 1000 } else { x = x * 10 + (b - b'0') as usize } } x };
        let (a, b, k) = (n(), n(), n()); check(k == 0 || k == 10001, 1); r.push((a, b, k == 0)) }
    r
}
fn sorted(mut v: Vec<Vec<usize>>) -> Vec<Vec<NodeId>> { for x in &mut v { x.sort(); x.dedup() } v }
fn read(lines: usize, ids: &[usize]) {
    let mut s = String::new(); let mut e: Vec<Vec<usize>> = vec![];
    let nl = if flip() { "\r\n" } else { "\n" };
    for _ in 0..lines {
        match pick(4) {
            0 => s.push_str("# 1|2|0"),
            1 => {}
            k => {
                let a = ids[pick(ids.len() as u64) as usize]; let b = ids[pick(ids.len() as u64) as usize];
                num(&mut s, a); s.push('|'); num(&mut s, b); s.push_str(if k == 2 { "|0" } else { "|-1|bgp" });
                let m = a.max(b) + 1; while e.len() < m { e.push(vec![]) }
                e[b].push(a); if k == 2 { e[a].push(b) }
            }
        }
        s.push_str(nl);
    }
    if flip() { for _ in 0..nl.len() { s.pop(); } } // the last line may go without its end
    let g = Graph::from_as_rel_string(&s);
    obs(g.number_of_nodes() as u64); if e.len() > 0 { reach(1) }
    check(g == Graph::new(sorted(e)), 2);
}
/// whatever follows the kind of a link, or the sign of a comment
fn tail(n: usize) {
    let t: Vec<u8> = (0..n).map(|_| within(7, 32, 126) as u8).collect(); let t = String::from_utf8(t).unwrap();
    let mut s = String::new(); let k = pick(4); let m = pick(2) as usize;
    match k { 0 => s.push('#'), 1 => s.push_str("0|1|0|"), 2 => s.push_str("0|1|-1|"), _ => s.push_str("0|1|0") }
    if k != 3 { s.push_str(&t[..n - m]) } // any text or none
    s.push_str("\n2|0|-1\n"); reach(1 + k as u32);
    let g = Graph::from_as_rel_string(&s); obs(g.number_of_nodes() as u64);
    check(g == Graph::new(match k { 0 => vec![vec![2], vec![], vec![]], 2 => vec![vec![2], vec![0], vec![]], _ => vec![vec![1, 2], vec![0], vec![]] }), 15);
}
/// any graph without loops: a connection is missing, mutual or one-way
fn any(n: usize, oneway: bool, ids: &[usize]) -> Vec<Vec<usize>> {
    let total = ids[n - 1] + 1; let mut o = vec![vec![]; total];
    for i in 0..n { for j in i + 1..n { let (a, b) = (ids[i], ids[j]); match pick(if oneway { 4 } else { 2 }) { 0 => {} 1 => { o[a].push(b); o[b].push(a) } 2 => o[a].push(b), _ => o[b].push(a) } } }
    if flip() { for x in &mut o { x.reverse() } }
    o
}
fn turned(o: &[Vec<usize>]) -> Vec<Vec<usize>> { let mut r = vec![vec![]; o.len()]; for (i, x) in o.iter().enumerate() { for &j in x { r[j].push(i) } } r }
fn cut(mut o: Vec<Vec<usize>>) -> Vec<Vec<usize>> { loop { let n = o.len(); if n == 0 || !o[n - 1].is_empty() || o.iter().any(|x| x.contains(&(n - 1))) { return o } o.pop(); } }
fn write(o: Vec<Vec<usize>>) {
    let g = Graph::new(o.clone());
    let c = if flip() { Some("a graph") } else { None };
    let s = Graph::to_as_rel_string(&g, c).unwrap();
    check(s.starts_with('#') == c.is_some(), 3);
    // nodes after the last one with an edge cannot be told from a list of edges
    let o = sorted(cut(o)); let g = Graph::from_as_rel_string(&s);
    obs(s.len() as u64); if o.len() > 0 { reach(1) }
    check(g.number_of_nodes() == o.len(), 4);
    let mutual = o.iter().enumerate().all(|(i, x)| x.iter().all(|&j| o[j].contains(&i)));
    if mutual { check(g == Graph::new(o.clone()), 5) }
    // one-way edges all keep their direction, or (a known finding) all turn around
    let t = sorted(turned(&o));
    check(g == Graph::new(o.clone()) || g == Graph::new(t), 6);
    check(Graph::from_as_rel_string(&Graph::to_as_rel_string(&g, None).unwrap()) == Graph::new(o.clone()), 7);
    // and every pair is listed once
    let r = rel(&s); let mut want = 0;
    for i in 0..o.len() { for j in i + 1..o.len() { let k = r.iter().filter(|e| (e.0, e.1) == (i, j) || (e.0, e.1) == (j, i)).count(); let on = o[i].contains(&j) || o[j].contains(&i); want += on as usize; check(k == on as usize, 8); check(r.iter().all(|e| (e.0.min(e.1), e.0.max(e.1)) != (i, j) || e.2 == (o[i].contains(&j) && o[j].contains(&i))), 9) } }
    check(r.len() == want, 10);
}
/// through a file, written compressed or plain
fn file(o: Vec<Vec<usize>>) { crate::vfs::with(|| {
    use std::path::Path; let g = Graph::new(o.clone()); let c = if flip() { Some("a graph") } else { None }; let t = Graph::to_as_rel_string(&g, c).unwrap();
    // over a file that is there already, or not
    if flip() { crate::vfs::put("g", "0|1|0\n".repeat(20).as_bytes()) }
    let plain = flip(); if plain { crate::vfs::put("g", t.as_bytes()) } else { Graph::to_as_rel_file(&g, Path::new("g"), c).unwrap_or_else(|_| fail(12)); check(crate::vfs::list() == ["g"], 13) }
    obs(t.len() as u64); reach(1);
    check(Graph::from_as_rel_file(Path::new("g")) == Graph::from_as_rel_string(&t), 14);
}) }
const N: [usize; 5] = [0, 1, 2, 3, 4];
entries! {
    c18_read2 => read(2, &[0, 1, 2, 9, 12]);
    c18_read_tail1 => tail(1);
    c18_read_tail2 => tail(2);
    c18_read3 => read(3, &[0, 1, 2]);
    c18_write3 => write(any(3, true, &N));
    c18_write4 => write(any(4, true, &N));
    c18_mutual5 => write(any(5, false, &N));
    c18_far => write(any(3, true, &[1, 9, 10]));
    c18_farther => write(any(3, true, &[9, 64, 300]));
    c18_many => { let k = 2 + pick(4) as usize; write((0..70).map(|i| { let mut v = vec![]; for j in 0..70usize { if j + 1 == i || i + 1 == j || (j > i + 1 && (i + j) % (10 * k) == 0) { v.push(j) } } v }).collect()) };
    c18_file => file(any(3, true, &N));
    // the edge from 0 to 1 stays an edge from 0 to 1
    c18_direction => { let g = Graph::new(vec![vec![1], vec![]]); reach(1); check(Graph::from_as_rel_string(&Graph::to_as_rel_string(&g, None).unwrap()) == g, 11) };
}
nomenu!();
