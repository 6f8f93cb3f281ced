//! C19: graph generators, under any random numbers
use crate::{c18::rel, model::*, sym::*};
use fbas_analyzer::simulation::Graph;
fn edges(g: &Graph) -> Vec<(usize, usize)> {
    let mut r = vec![]; for (a, b, both) in rel(&Graph::to_as_rel_string(g, None).unwrap()) { r.push((a, b)); if both { r.push((b, a)) } } r.sort(); r
}
/// no loops, no double edges; mutual if so asked
fn simple(g: &Graph, mutual: bool) -> Vec<(usize, usize)> {
    let e = edges(g); let n = g.number_of_nodes();
    check(e.windows(2).all(|w| w[0] != w[1]), 1);
    // a loop is not written but counts as a degree
    for i in 0..n { check(g.get_out_degrees()[i] == e.iter().filter(|x| x.0 == i).count() && g.get_in_degrees()[i] == e.iter().filter(|x| x.1 == i).count(), 2) }
    for &(a, b) in &e { check(a < n && b < n && a != b, 3); if mutual { check(e.contains(&(b, a)), 4) } }
    if mutual { check(g.is_undirected(), 5) }
    e
}
fn mesh(n: usize) {
    let g = Graph::new_full_mesh(n); reach(1); obs(n as u64);
    check(g.number_of_nodes() == n, 6); let e = simple(&g, true);
    check(e.len() == n * n.saturating_sub(1), 7);
}
fn tiers(sizes: Vec<usize>) {
    let g = Graph::new_tiered_full_mesh(&sizes); let n: usize = sizes.iter().sum(); reach(1); obs(n as u64);
    let mut tier = vec![]; for (t, &s) in sizes.iter().enumerate() { for _ in 0..s { tier.push(t) } }
    check(g.number_of_nodes() == n, 8);
    let out = g.get_out_degrees(); let inn = g.get_in_degrees(); let linked = g.get_connected_nodes();
    let e = if n > 0 { simple(&g, false) } else { vec![] };
    for i in 0..n {
        let want: Vec<usize> = (0..n).filter(|&j| j != i && (tier[j] == tier[i] || tier[j] + 1 == tier[i])).collect();
        check(out[i] == want.len(), 9);
        check(inn[i] == (0..n).filter(|&j| j != i && (tier[j] == tier[i] || tier[j] == tier[i] + 1)).count(), 10);
        for j in 0..n { check(e.contains(&(i, j)) == want.contains(&j), 11) }
        check(linked.contains(i) == (out[i] + inn[i] > 0), 12);
    }
}
fn scale_free(n: usize, m0: usize, m: usize) {
    let g = Graph::new_random_scale_free(n, m0, m);
    check(g.number_of_nodes() == n, 13); let e = simple(&g, true);
    check(e.len() == m0 * (m0 - 1) + 2 * (n - m0) * m, 14);
    for i in 0..n { let k = e.iter().filter(|x| x.0 == i && x.1 < i).count(); check(k == if i < m0 { i } else { m }, 15); obs(k as u64) }
    reach(1);
}
fn small_world(n: usize, k: usize, beta: f64) {
    let g = Graph::new_random_small_world(n, k, beta);
    check(g.number_of_nodes() == n, 16); let e = simple(&g, true);
    check(e.len() == n * k, 17);
    if beta == 0. || k == n - 1 { for i in 0..n { for j in 0..n { let d = (i + n - j) % n; let d = d.min(n - d); check(e.contains(&(i, j)) == (d > 0 && d <= k / 2), 18) } } }
    for x in &e { obs(x.1 as u64) }
    reach(1);
}
/// any graph without loops
fn any(n: usize) -> Vec<Vec<usize>> { (0..n).map(|i| (0..n).filter(|&j| j != i && flip()).collect()).collect() }
fn queries(n: usize) {
    let o: Vec<Vec<usize>> = (0..n).map(|_| members(n)).collect(); let g = Graph::new(o.clone()); reach(1);
    let inn: Vec<usize> = (0..n).map(|j| o.iter().filter(|x| x.contains(&j)).count()).collect();
    check(g.get_out_degrees() == o.iter().map(|x| x.len()).collect::<Vec<_>>() && g.get_in_degrees() == inn && g.number_of_nodes() == n, 19);
    check(g.is_undirected() == (0..n).all(|i| (0..n).all(|j| o[i].contains(&j) == o[j].contains(&i))), 20);
    let c = g.get_connected_nodes(); for i in 0..n { check(c.contains(i) == (inn[i] > 0 || o[i].len() > 0), 21); obs(c.contains(i) as u64) }
    check(c.len() <= n, 21);
}
/// scores are a share of the whole: none is lost as long as every node passes its own on
fn ranks(n: usize) {
    let o = any(n); let g = Graph::new(o.clone()); let s = g.get_rank_scores();
    check(s.len() == n, 22); let mut sum = 0.; for &x in &s { check(x >= 0., 23); sum += x }
    check(sum <= 1.0 + 1e-6, 24); if o.iter().all(|x| x.len() > 0) { reach(1); check(sum >= 1.0 - 1e-6, 25) }
    for j in 0..n { if o.iter().all(|x| !x.contains(&j)) { check(s[j] == 0., 26) } obs((s[j] * 1000.) as u64) }
    // an even spread stays one
    if (0..n).all(|i| o[i].len() > 0 && o[i].len() == o[0].len() && o.iter().filter(|x| x.contains(&i)).count() == o[0].len()) { for j in 0..n { check((s[j] - 1. / n as f64).abs() < 1e-6, 27) } }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut r = vec![]; for p in perms(n - 1) { for k in 0..n { let mut q = p.clone(); q.insert(k, n - 1); r.push(q) } } r
}
/// shuffled IDs are other names for the same nodes, and every renaming may come up
fn shuffled(o: Vec<Vec<usize>>) {
    let n = o.len(); let g = Graph::new(o.clone()); let mut e: Vec<(usize, usize)> = vec![]; for i in 0..n { for &j in &o[i] { e.push((i, j)) } }
    let before = edges(&g); let turn = { e.sort(); e != before }; // the written direction is not at issue here
    let s = g.shuffled(); check(s.number_of_nodes() == n, 28);
    let after: Vec<(usize, usize)> = edges(&s).into_iter().map(|(a, b)| if turn { (b, a) } else { (a, b) }).collect();
    for x in &after { obs((x.0 * n + x.1) as u64) }
    let deg = s.get_out_degrees(); check(deg.iter().sum::<usize>() == e.len() && after.len() == e.len(), 29);
    check(perms(n).iter().any(|p| e.iter().all(|&(a, b)| after.contains(&(p[a], p[b])))), 30);
    reach(1);
}
/// with nodes told apart by their edges, some draws yield each order
fn shuffles() {
    let n = 3; let d = Graph::new(vec![vec![1, 2], vec![2], vec![]]).shuffled().get_out_degrees();
    for (k, p) in perms(n).iter().enumerate() { if (0..n).all(|i| d[p[i]] == 2 - i) { reach(1 + k as u32) } }
    obs(d[0] as u64);
}
entries! {
    c19_mesh => mesh(pick(8) as usize);
    c19_mesh_big => mesh([33, 65][pick(2) as usize]);
    c19_tiers_big => tiers([vec![40, 30, 1], vec![1, 70], vec![3; 12]][pick(3) as usize].clone());
    c19_tiers2 => tiers(vec![pick(4) as usize, pick(5) as usize]);
    c19_tiers3 => tiers(vec![pick(4) as usize, pick(3) as usize, pick(4) as usize]);
    c19_tiers_few => { let k = pick(2) as usize; let mut v = vec![pick(4) as usize]; v.truncate(k); tiers(v) };
    c19_tiers4 => tiers((0..4).map(|_| 1 + pick(2) as usize).collect());
    c19_sf221 => scale_free(5, 2, 1);
    c19_sf222 => scale_free(5, 2, 2);
    c19_sf331 => scale_free(5, 3, 1);
    c19_sf332 => scale_free(6, 3, 2);
    c19_sf333 => scale_free(5, 3, 3);
    c19_sf732 => scale_free(7, 3, 2);
    c19_sw62 => small_world(6, 2, 0.5);
    c19_sf_all => { let n = 2 + pick(4) as usize; scale_free(n, n.min(4), 1) };
    c19_sw42 => small_world(4, 2, 0.5);
    c19_sw52 => small_world(5, 2, 0.5);
    c19_sw64 => small_world(6, 4, 0.5);
    c19_sw_all => { let n = 3 + pick(5) as usize; let k = 2 * pick(((n + 1) / 2) as u64) as usize; small_world(n, k, 0.) };
    c19_sw_one => { let n = 4 + pick(2) as usize; small_world(n, 2, 1.) };
    c19_shuffles => shuffles();
    c19_sw_full => { let n = 3 + 2 * pick(2) as usize; small_world(n, n - 1, 0.25) };
    c19_queries3 => queries(3);
    c19_queries4 => queries(4);
    c19_ranks3 => ranks(3);
    c19_ranks4 => ranks(4);
    c19_shuffled3 => shuffled(any(3));
    c19_shuffled4 => shuffled(vec![vec![1], vec![2, 3], vec![0], vec![]]);
}
nomenu!();
