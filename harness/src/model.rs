//! Symbolic FBASs and the reference semantics they are checked against. The reference is written
//! from the definitions only: a node set is a bit mask over the `n` nodes of the model, a family of
//! node sets is a table indexed by mask whose entries are 0/1 values, possibly symbolic.
use crate::sym::*;
use fbas_analyzer::*;
use bit_set::BitSet;

/// `t` is the threshold the real code gets; `s` is the one the reference uses. They are the same
/// value, or `t` is known to exceed the number of members on this path and `s` is members + 1.
#[derive(Clone, Default)]
pub struct Q { pub t: u64, pub s: u64, pub v: Vec<usize>, pub inner: Vec<Q> }
impl Q {
    pub fn real(&self, ids: &[usize]) -> QuorumSet {
        QuorumSet { threshold: self.t as usize, validators: self.v.iter().map(|&i| ids[i]).collect(), inner_quorum_sets: self.inner.iter().map(|q| q.real(ids)).collect() }
    }
    /// Does `s` contain a quorum slice? At least `t >= 1` of the members agree, where an inner
    /// set agrees if it is itself satisfied.
    pub fn slice(&self, s: u32) -> u64 {
        let mut c = 0u64;
        for &i in &self.v { c += (s >> i & 1) as u64 }
        for q in &self.inner { c += q.slice(s) }
        (self.s != 0) as u64 & (c >= self.s) as u64
    }
    pub fn nodes(&self) -> u32 { let mut m = 0; for &i in &self.v { m |= 1 << i } for q in &self.inner { m |= q.nodes() } m }
    pub fn size(&self) -> usize { self.v.len() + self.inner.len() }
}
#[derive(Clone)]
pub struct F { pub n: usize, pub q: Vec<Q>, pub ids: Vec<usize>, pub total: usize, pub lazy: bool }
impl F {
    pub fn new(q: Vec<Q>) -> F { let n = q.len(); F { n, q, ids: (0..n).collect(), total: n, lazy: false } }
    pub fn all(&self) -> u32 { (1 << self.n) - 1 }
    /// The real FBAS. Node IDs that the model does not use belong to unconfigured nodes.
    pub fn fbas(&self) -> Fbas {
        let mut f = Fbas::new();
        for id in 0..self.total {
            let q = match self.ids.iter().position(|&x| x == id) { Some(i) => self.q[i].real(&self.ids), None => QuorumSet::new() };
            f.add_generic_node(q);
        }
        f
    }
    pub fn is_quorum(&self, s: u32) -> u64 {
        if s == 0 { return 0 }
        let mut r = 1; for i in 0..self.n { if s >> i & 1 == 1 { r &= self.q[i].slice(s) } } r
    }
    /// Mask of a set the code returned; bit 31 marks an ID the model does not know.
    pub fn mask(&self, s: &BitSet) -> u32 {
        let mut m = 0; for id in s.iter() { match self.ids.iter().position(|&x| x == id) { Some(i) => m |= 1 << i, None => m |= 1 << 31 } } m
    }
    pub fn set(&self, m: u32) -> BitSet { (0..self.n).filter(|i| m >> i & 1 == 1).map(|i| self.ids[i]).collect() }
    pub fn masks(&self, s: &[BitSet]) -> Vec<u32> { s.iter().map(|x| self.mask(x)).collect() }
    pub fn oracle(&self) -> O { let mut o = O::new(self.n, |s| self.is_quorum(s)); o.lazy = self.lazy; o }
}
/// Reference results. `q[s]`: is s a quorum; `has[s]`: does s contain a quorum; `min[s]`: is s a
/// minimal quorum.
pub struct O { pub n: usize, pub q: Vec<u64>, pub has: Vec<u64>, pub min: Vec<u64>, pub lazy: bool }
impl O {
    pub fn new(n: usize, f: impl Fn(u32) -> u64) -> O {
        let m = 1usize << n;
        let q: Vec<u64> = (0..m).map(|s| f(s as u32)).collect();
        let mut has = vec![0u64; m]; let mut min = vec![0u64; m];
        for s in 1..m { let mut below = 0; for i in 0..n { if s >> i & 1 == 1 { below |= has[s & !(1 << i)] } } has[s] = q[s] | below; min[s] = q[s] & (below ^ 1) }
        O { n, q, has, min, lazy: true }
    }
    pub fn all(&self) -> usize { (1 << self.n) - 1 }
    pub fn any(&self) -> u64 { self.has[self.all()] }
    /// two disjoint quorums exist
    pub fn split(&self) -> u64 { let a = self.all(); let mut r = 0; for s in 0..=a { r |= self.has[s] & self.has[a & !s] } r }
    pub fn hqi(&self) -> u64 { self.any() & (self.split() ^ 1) }
    /// minimal blocking sets: nothing outside the set contains a quorum
    pub fn mbs(&self) -> Vec<u64> {
        let a = self.all(); let mut r = vec![0; a + 1];
        for s in 0..=a { let mut b = self.has[a & !s] ^ 1; for i in 0..self.n { if s >> i & 1 == 1 { b &= self.has[a & !(s & !(1 << i))] } } r[s] = b }
        r
    }
    /// minimal intersections of two different minimal quorums, or {} if two quorums are disjoint
    pub fn mss(&self) -> Vec<u64> {
        let a = self.all(); let mut x = vec![0u64; a + 1];
        if !self.lazy {
            let m: Vec<usize> = (1..=a).filter(|&s| self.min[s] == 1).collect();
            for i in 0..m.len() { for j in i + 1..m.len() { x[m[i] & m[j]] = 1 } }
            return self.minimal(&x)
        }
        for s in 1..=a { for t in s + 1..=a { x[s & t] |= self.min[s] & self.min[t] } }
        self.minimal(&x)
    }
    pub fn minimal(&self, x: &[u64]) -> Vec<u64> {
        let m = x.len(); let mut up = vec![0u64; m]; let mut r = vec![0u64; m];
        for s in 0..m { let mut below = 0; for i in 0..self.n { if s >> i & 1 == 1 { below |= up[s & !(1 << i)] } } up[s] = x[s] | below; r[s] = x[s] & (below ^ 1) }
        r
    }
    /// union of a family, as one 0/1 value per node
    pub fn union(&self, x: &[u64]) -> Vec<u64> { (0..self.n).map(|i| { let mut r = 0; for s in 0..x.len() { if s >> i & 1 == 1 { r |= x[s] } } r }).collect() }
}
/// Is `got` (as returned by the code) exactly the family `want`, without duplicates?
pub fn same_family(got: &[u32], want: &[u64]) -> u64 {
    let mut cnt = vec![0u64; want.len()]; let mut ok = 1u64;
    for &g in got { if (g as usize) < want.len() { cnt[g as usize] += 1 } else { ok = 0 } }
    for s in 0..want.len() { ok &= (cnt[s] == want[s]) as u64 }
    ok
}
pub fn same_set(got: u32, want: &[u64]) -> u64 { let mut ok = (got >> want.len() == 0) as u64; for i in 0..want.len() { ok &= ((got >> i & 1) as u64 == want[i]) as u64 } ok }
pub fn sorted_by_len(got: &[u32]) -> u64 { got.windows(2).all(|w| w[0].count_ones() <= w[1].count_ones()) as u64 }

/// the public key of a generic node
pub fn key(id: usize) -> String { let mut s = String::from("n"); num(&mut s, id); s }
pub fn num(s: &mut String, mut x: usize) { let mut d = vec![]; loop { d.push(b'0' + (x % 10) as u8); x /= 10; if x == 0 { break } } while let Some(c) = d.pop() { s.push(c as char) } }

// ---- families of FBASs -------------------------------------------------------------------------
/// n bits, each decided here
pub fn members(n: usize) -> Vec<usize> { (0..n).filter(|_| flip()).collect() }
/// any threshold whatsoever, kept symbolic
pub fn lazyq(v: Vec<usize>, inner: Vec<Q>) -> Q { let t = inp(64); Q { t, s: t, v, inner } }
/// any threshold whatsoever, told apart as far as the number of members goes
pub fn q(v: Vec<usize>, inner: Vec<Q>) -> Q {
    let n = (v.len() + inner.len()) as u64; let t = inp(64);
    for k in 0..=n { if t == k { return Q { t: k, s: k, v, inner } } }
    Q { t, s: n + 1, v, inner }
}
/// a satisfiable threshold
pub fn qsat(v: Vec<usize>, inner: Vec<Q>) -> Q { let n = (v.len() + inner.len()) as u64; let t = if n == 0 { 1 } else { 1 + pick(n) }; Q { t, s: t, v, inner } }
pub fn qt(t: u64, v: Vec<usize>, inner: Vec<Q>) -> Q { Q { t, s: t, v, inner } }
pub fn none() -> Q { Q::default() }
/// as `flip`, where nothing symbolic is left
pub fn toss() -> bool { conc(inp(1)) == 1 }
/// every FBAS of n nodes without inner quorum sets
pub fn flat(n: usize) -> F { let mut f = F::new((0..n).map(|_| lazyq(members(n), vec![])).collect()); f.lazy = true; f }
/// as `flat`, where every node trusts itself and its threshold is satisfiable
pub fn flat_self(n: usize) -> F {
    F::new((0..n).map(|i| { let v: Vec<usize> = (0..n).filter(|&j| j == i || flip()).collect(); qsat(v, vec![]) }).collect())
}
/// the same, member by member
pub fn flat_each(n: usize) -> F {
    F::new((0..n).map(|i| { let mut v = vec![]; for j in 0..n { if j == i || toss() { v.push(j) } } qsat(v, vec![]) }).collect())
}
/// all n nodes use one quorum set with any members and `k` inner sets with any members, so nodes
/// may be listed on both levels
pub fn shared(n: usize, k: usize) -> F { let x = { let v = members(n); let inner = (0..k).map(|_| { let m = members(n); q(m, vec![]) }).collect(); q(v, inner) }; F::new(vec![x; n]) }
/// each node uses one of `k` arbitrary flat quorum sets
pub fn templates(n: usize, k: usize) -> F {
    let ts: Vec<Q> = (0..k).map(|_| { let m = members(n); q(m, vec![]) }).collect();
    F::new((0..n).map(|i| ts[if i == 0 { 0 } else { pick(k as u64) as usize }].clone()).collect())
}
/// node 0 uses a nested quorum set, the others flat ones
pub fn mixed(n: usize, k: usize) -> F {
    let x = { let v = members(n); let inner = (0..k).map(|_| { let m = members(n); q(m, vec![]) }).collect(); q(v, inner) };
    let mut r = vec![x]; for i in 1..n { let v = (0..n).filter(|&j| j == i || flip()).collect(); r.push(qsat(v, vec![])) } F::new(r)
}
/// one quorum set over m of n nodes, used by those m; the others depend on them or are unconfigured
pub fn sym(n: usize) -> F {
    let m = 1 + pick(n as u64) as usize; let x = q((0..m).collect(), vec![]);
    F::new((0..n).map(|i| if i < m { x.clone() } else if flip() { qt(1, vec![0, i], vec![]) } else { none() }).collect())
}
/// `k` organisations of `m` nodes each; all nodes use the same two-level quorum set with any
/// thresholds
pub fn orgs(k: usize, m: usize) -> F {
    let inner = (0..k).map(|j| q((j * m..j * m + m).collect(), vec![])).collect();
    let x = q(vec![], inner); F::new(vec![x; k * m])
}
/// a symmetric core of three nodes with an organisation {3,4} whose nodes may be dead, may use the
/// same quorum set or may trust only themselves
pub fn dead() -> F {
    let v: Vec<usize> = (0..3).collect(); let o = q(vec![3, 4], vec![]); let x = q(v, vec![o]);
    let mut r = vec![x.clone(); 3];
    for i in 3..5 { r.push(match pick(3) { 0 => none(), 1 => x.clone(), _ => qt(1, vec![i], vec![]) }) }
    F::new(r)
}
/// three levels of nesting, shared by all four nodes or by the first three
pub fn deep() -> F {
    let c = q(vec![2, 3], vec![]); let b = q(vec![1], vec![c]);
    let v = if flip() { vec![0] } else { vec![0, 3] };
    let x = q(v, vec![b]);
    let last = match pick(3) { 0 => x.clone(), 1 => qt(1, vec![0, 3], vec![]), _ => none() };
    F::new(vec![x.clone(), x.clone(), x, last])
}
/// one quorum set that lists each of n nodes up to twice
pub fn dups(n: usize) -> F {
    let mut v = vec![]; for i in 0..n { for _ in 0..pick(3) { v.push(i) } }
    let x = q(v, vec![]); F::new(vec![x; n])
}
/// each node uses a flat quorum set of all nodes or a nested one of the same nodes
pub fn nest(n: usize) -> F {
    let a = qsat((0..n).collect(), vec![]);
    let v = members(n); let w = (0..n).filter(|i| !v.contains(i)).collect(); let c = q(w, vec![]); let b = qsat(v, vec![c]);
    F::new((0..n).map(|_| if flip() { a.clone() } else { b.clone() }).collect())
}
/// no node, or one that lists itself up to twice and in up to one inner set
pub fn tiny() -> F {
    if !toss() { return F::new(vec![]) }
    let v = vec![0; pick(3) as usize]; let inner = match pick(3) { 0 => vec![], 1 => vec![q(vec![], vec![])], _ => vec![q(vec![0], vec![])] };
    F::new(vec![q(v, inner)])
}
/// n nodes that all trust all, each with a threshold of its own
pub fn own(n: usize) -> F { F::new((0..n).map(|_| qsat((0..n).collect(), vec![])).collect()) }
/// every node trusts itself and its neighbours on a ring
pub fn ring(n: usize) -> F { F::new((0..n).map(|i| { let mut v = vec![(i + n - 1) % n, i, (i + 1) % n]; v.sort(); qsat(v, vec![]) }).collect()) }
/// two groups of three, each with its own quorum set, that may also refer to the other group, and
/// a node that depends on both
pub fn twin() -> F {
    let a = { let mut v = vec![0, 1, 2]; if flip() { v.push(3) } q(v, vec![]) };
    let b = { let mut v = vec![3, 4, 5]; if flip() { v.insert(0, 2) } q(v, vec![]) };
    let l = qsat(vec![0, 3, 6], vec![]);
    F::new(vec![a.clone(), a.clone(), a, b.clone(), b.clone(), b, l])
}
/// the core of a network: symmetric core of four plus watchers in a chain, and an unsatisfiable node
pub fn tiers() -> F {
    let x = q((0..4).collect(), vec![]);
    let w = qsat(vec![0, 1, 4], vec![]); let u = qsat(vec![4, 5], vec![qt(1, vec![2, 3], vec![])]);
    let d = if flip() { qt(3, vec![0, 6], vec![]) } else { qt(1, vec![6], vec![]) };
    F::new(vec![x.clone(), x.clone(), x.clone(), x, w, u, d])
}
/// place the model's nodes at other IDs, the rest being unconfigured nodes
pub fn spread(mut f: F, ids: &[usize], total: usize) -> F { f.ids = ids.to_vec(); f.total = total; f }

/// Many nodes: any `t` of the `n` groups of `s` nodes each from `at` on are a quorum, `t` being n or n - 1. All
/// use one quorum set (`alike`), or one of them uses it wrapped into another one. Unconfigured nodes come before
/// them, a node that depends on one of them after them.
pub struct Big { pub n: usize, pub s: usize, pub t: usize, pub at: usize, pub f: Fbas, pub alike: bool, pub q: QuorumSet }
fn groups(n: usize, s: usize) -> Big {
    let t = n - pick(2) as usize; let at = 3 * pick(2) as usize; let alike = toss(); let m = n * s;
    let q = if s == 1 { QuorumSet { threshold: t, validators: (at..at + n).collect(), inner_quorum_sets: vec![] } }
        else { QuorumSet { threshold: t, validators: vec![], inner_quorum_sets: (0..n).map(|g| QuorumSet { threshold: s, validators: (at + g * s..at + (g + 1) * s).collect(), inner_quorum_sets: vec![] }).collect() } };
    let mut f = Fbas::new_generic_unconfigured(at);
    for i in 0..m { f.add_generic_node(if alike || i != m / 2 { q.clone() } else { QuorumSet { threshold: 1, validators: vec![], inner_quorum_sets: vec![q.clone()] } }); }
    f.add_generic_node(QuorumSet { threshold: 1, validators: vec![at + m - 1], inner_quorum_sets: vec![] });
    reach(1); Big { n, s, t, at, f, alike, q }
}
pub fn big(n: usize) -> Big { groups(n, 1) }
pub fn wide(n: usize) -> Big { groups(n, 3) }
/// two such groups of nodes that know nothing of each other, the nodes of the first one at even IDs if `mixed`
pub fn parted(n: usize) -> (Fbas, Vec<BitSet>, usize) {
    let t = n - pick(2) as usize; let mixed = toss();
    let part = |h: usize| (0..n).map(move |i| if mixed { 2 * i + h } else { h * n + i });
    let mut f = Fbas::new_generic_unconfigured(2 * n);
    for h in 0..2 { for i in part(h) { f.swap_quorum_set(i, QuorumSet { threshold: t, validators: part(h).collect(), inner_quorum_sets: vec![] }); } }
    reach(1); (f, vec![part(0).collect(), part(1).collect()], t)
}
impl Big {
    pub fn all(&self) -> usize { self.n * self.s }
    pub fn core(&self) -> BitSet { (self.at..self.at + self.all()).collect() }
    /// is this exactly all sets of k whole groups, for n - k up to 2
    pub fn exactly(&self, sets: &[BitSet], k: usize) -> bool {
        let n = self.n; let few = n - k;
        let mut seen = vec![false; n * n];
        for x in sets {
            let m: Vec<usize> = (0..n).filter(|&i| !(0..self.s).all(|j| x.contains(self.at + i * self.s + j))).collect();
            if x.len() != k * self.s || m.len() != few { return false }
            let at = match m[..] { [] => 0, [a] => a * n + a, [a, b] => a * n + b, _ => return false };
            if seen[at] { return false } seen[at] = true;
        }
        obs(sets.len() as u64);
        sets.len() == [1, n, n * (n - 1) / 2][few]
    }
    /// is this exactly all sets of one node out of each of k groups, for k = 1 or 2
    pub fn pierced(&self, sets: &[BitSet], k: usize) -> bool {
        let (n, s, all) = (self.n, self.s, self.all());
        let mut seen = vec![false; all * all];
        for x in sets {
            let m: Vec<usize> = (0..all).filter(|&i| x.contains(self.at + i)).collect();
            if x.len() != k || m.len() != k || k == 2 && m[0] / s == m[1] / s { return false }
            let at = m[0] * all + m[k - 1];
            if seen[at] { return false } seen[at] = true;
        }
        obs(sets.len() as u64);
        sets.len() == if k == 1 { all } else { n * (n - 1) / 2 * s * s }
    }
}

/// Entries that run `$f` over every family. Which of them a check runs is decided by run.py.
#[macro_export]
macro_rules! menu { ($p:literal, $f:path) => { menu!{@ $p, $f,
    flat2 flat(2); flat3 flat(3); self3 flat_self(3); self4 flat_self(4); shared3 shared(3, 1); shared4 shared(4, 1); shared32 shared(3, 2); tmpl3 templates(3, 2); tmpl4 templates(4, 2);
    mixed3 mixed(3, 1); mixed4 mixed(4, 1); sym6 sym(6); sym8 sym(8); orgs23 orgs(2, 3); orgs32 orgs(3, 2); orgs33 orgs(3, 3); dead dead(); deep deep(); dups3 dups(3); dups4 dups(4);
    ring4 ring(4); ring5 ring(5); ring6 ring(6); twin twin(); tiers tiers(); far3 spread(flat_self(3), &[4, 33, 70], 72); nest3 nest(3); far2 spread(flat(2), &[64, 300], 301); tiny tiny(); own4 own(4); own5 own(5); } };
  (@ $p:literal, $f:path, $($n:ident $e:expr;)*) => {
    $( pub mod $n { #[allow(unused_imports)] use super::*; use $crate::model::*; #[export_name = concat!($p, "_", stringify!($n))] pub extern "C-unwind" fn e() { $f($e) } } )*
    pub const MENU: &[(&str, $crate::Entry)] = &[$( (concat!($p, "_", stringify!($n)), $n::e) ),*];
  };
}
