//! C20: simulations, under any schedule and any random numbers
use crate::{model::*, sym::*};
use fbas_analyzer::simulation::{monitors::*, qsc::*, *};
use fbas_analyzer::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use Event::*;
/// what happened, as the configurator and the monitor saw it
#[derive(Clone, Copy, PartialEq)]
enum L { Configured(usize, bool, usize), Seen(Event) }
type Log = Rc<RefCell<Vec<L>>>;
struct Mon(Log);
impl SimulationMonitor for Mon { fn register_event(&self, e: Event) { self.0.borrow_mut().push(L::Seen(e)) } }
/// passes calls on and watches what they do
struct Watch { inner: Rc<dyn QuorumSetConfigurator>, log: Log, honest: bool }
impl QuorumSetConfigurator for Watch {
    fn configure(&self, id: usize, f: &mut Fbas) -> ChangeEffect {
        let n = f.number_of_nodes(); check(id < n, 1);
        let before: Vec<QuorumSet> = (0..n).map(|i| f.get_quorum_set(i).unwrap()).collect();
        let r = self.inner.configure(id, f);
        check(f.number_of_nodes() == n, 2);
        for i in 0..n { if i != id { check(f.get_quorum_set(i).as_ref() == Some(&before[i]), 3) } }
        if self.honest { check((r == ChangeEffect::Change) == (f.get_quorum_set(id).as_ref() != Some(&before[id])), 4) }
        self.log.borrow_mut().push(L::Configured(id, r == ChangeEffect::Change, n));
        r
    }
}
/// a configurator that may change something or not, any time
struct Moody { n: Cell<usize> }
impl QuorumSetConfigurator for Moody {
    fn configure(&self, id: usize, f: &mut Fbas) -> ChangeEffect {
        if flip() { self.n.set(self.n.get() + 1); f.swap_quorum_set(id, QuorumSet { threshold: self.n.get(), validators: vec![id], inner_quorum_sets: vec![] }); ChangeEffect::Change } else { ChangeEffect::NoChange }
    }
}
fn sim(f: Fbas, q: Rc<dyn QuorumSetConfigurator>, honest: bool) -> (Simulator, Log) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    (Simulator::new(f, Rc::new(Watch { inner: q, log: log.clone(), honest }), Rc::new(Mon(log.clone()))), log)
}
/// consumes one reevaluation of n nodes; returns the number of rounds
fn reevaluation(l: &[L], at: &mut usize, n: usize, max: usize) -> usize {
    let next = |at: &mut usize| { let x = l.get(*at).copied(); *at += 1; match x { Some(x) => x, None => fail(5) } };
    check(next(at) == L::Seen(StartGlobalReevaluation), 6);
    let mut rounds = 0; let mut stable = false;
    while !stable && rounds < max {
        check(next(at) == L::Seen(StartGlobalReevaluationRound), 7);
        let mut seen = vec![false; n]; stable = true;
        for _ in 0..n {
            let L::Configured(id, c, k) = next(at) else { fail(8) };
            check(k == n && id < n && !seen[id], 9); seen[id] = true; // everybody once
            check(next(at) == L::Seen(QuorumSetChange(id, if c { ChangeEffect::Change } else { ChangeEffect::NoChange })), 10);
            if c { stable = false }
            obs(id as u64 * 2 + c as u64);
        }
        rounds += 1;
    }
    check(next(at) == L::Seen(FinishGlobalReevaluation(rounds)), 11);
    rounds
}
fn growth(l: &[L], at: &mut usize, from: usize, k: usize) {
    for id in from..from + k {
        let Some(&L::Configured(a, _, n)) = l.get(*at) else { fail(12) }; check(a == id && n == id + 1, 13);
        check(l.get(*at + 1) == Some(&L::Seen(AddNode(id))), 14); *at += 2;
        reevaluation(l, at, id + 1, id + 1);
    }
}
fn moody(n: usize, max: u64) {
    let (mut s, l) = sim(Fbas::new_generic_unconfigured(n), Rc::new(Moody { n: Cell::new(0) }), true);
    let max = pick(max + 1) as usize;
    let r = s.simulate_global_reevaluation(max); let l = l.borrow(); let mut at = 0;
    check(reevaluation(&l, &mut at, n, max) == r && at == l.len(), 15);
    check(s.finalize().number_of_nodes() == n, 16); reach(1 + r.min(1) as u32);
}
fn moody_growth(n: usize, k: usize) {
    let (mut s, l) = sim(Fbas::new_generic_unconfigured(n), Rc::new(Moody { n: Cell::new(0) }), true);
    s.simulate_growth(k); let l = l.borrow(); let mut at = 0;
    growth(&l, &mut at, n, k); check(at == l.len(), 17);
    let f = s.finalize(); check(f.number_of_nodes() == n + k, 18); for i in 0..n + k { check(f.get_node_id(&key(i)) == Some(i), 19) }
    reach(1);
}
/// grow from k nodes that are configured somehow, in two steps; then every node is as it should be
fn real(start: Fbas, q: Rc<dyn QuorumSetConfigurator>, steps: &[usize], after: impl Fn(&Fbas)) {
    let n = start.number_of_nodes(); let (mut s, l) = sim(start, q, true); let mut at = 0; let mut n = n;
    for &k in steps { s.simulate_growth(k); growth(&l.borrow(), &mut at, n, k); n += k }
    let r = s.simulate_global_reevaluation(4);
    check(reevaluation(&l.borrow(), &mut at, n, 4) == r && at == l.borrow().len(), 20);
    check(r <= 2, 21); // nothing more to do once every node had its turn
    let f = s.finalize(); check(f.number_of_nodes() == n, 22); after(&f); reach(1);
}
fn all(f: &Fbas, t: usize) { let n = f.number_of_nodes(); for i in 0..n { check(f.get_quorum_set(i) == Some(QuorumSet { threshold: t, validators: (0..n).collect(), inner_quorum_sets: vec![] }), 23) } }
fn safe(n: usize) -> usize { n - n.saturating_sub(1) / 3 }
/// some FBAS to begin with
fn begin(n: usize) -> Fbas { F::new((0..n).map(|i| match pick(3) { 0 => none(), 1 => qt(1, vec![i], vec![]), _ => qt(2, (0..n).collect(), vec![]) }).collect()).fbas() }
/// or one in which nodes may already know everyone who will ever be there, under any of some thresholds
fn began(n: usize, total: usize) -> Fbas {
    let mut f = Fbas::new(); let everyone: Vec<usize> = (0..total).collect();
    for i in 0..n { f.add_generic_node(match pick(5) {
        0 => QuorumSet::new(), 1 => QuorumSet { threshold: 1, validators: vec![i], inner_quorum_sets: vec![] },
        2 => QuorumSet { threshold: total, validators: everyone.clone(), inner_quorum_sets: vec![QuorumSet { threshold: 1, validators: vec![0], inner_quorum_sets: vec![] }] },
        3 => { let mut v = everyone.clone(); v.reverse(); QuorumSet { threshold: total, validators: v, inner_quorum_sets: vec![] } }
        _ => QuorumSet { threshold: pick(total as u64 + 2) as usize, validators: everyone.clone(), inner_quorum_sets: vec![] },
    }); }
    f
}
fn ideal(n: usize, steps: &[usize]) { real(began(n, n + steps.iter().sum::<usize>()), Rc::new(IdealQsc::new()), steps, |f| all(f, safe(f.number_of_nodes()))) }
fn super_safe(n: usize, steps: &[usize]) { real(began(n, n + steps.iter().sum::<usize>()), Rc::new(SuperSafeQsc::new()), steps, |f| all(f, f.number_of_nodes())) }
/// random choice that goes on from nodes that are configured already: nothing is taken away from them, and
/// who has enough links stays as they are
fn random_on(start: usize, steps: &[usize], size: usize, t: Option<usize>) {
    let mut f = Fbas::new();
    for _ in 0..start { let v = members(start); let k = v.len(); f.add_generic_node(QuorumSet { threshold: if k == 0 { 0 } else { 1 + k }, validators: v, inner_quorum_sets: vec![] }); }
    let old: Vec<QuorumSet> = (0..start).map(|i| f.get_quorum_set(i).unwrap()).collect();
    real(f, Rc::new(RandomQsc::new(size, t, None)), steps, |f| {
        let n = f.number_of_nodes(); let k = size.min(n);
        for i in 0..n {
            let q = f.get_quorum_set(i).unwrap(); let none = QuorumSet::new(); let o = old.get(i).unwrap_or(&none); let had = o.validators.len();
            let mut v = q.validators.clone(); v.sort(); v.dedup(); for &x in &v { obs(x as u64) }
            check(v.len() == q.validators.len() && q.inner_quorum_sets.is_empty() && v.iter().all(|&x| x < n), 30);
            check(v.len() == k.max(had) && o.validators.iter().all(|x| v.contains(x)), 31);
            if had == 0 { check(v.contains(&i), 32) }
            check(q.threshold == if had >= k { o.threshold } else { t.unwrap_or(safe(k)) }, 33);
        }
    })
}
fn random(start: usize, steps: &[usize], size: usize, t: Option<usize>, w: Option<Vec<usize>>) {
    real(Fbas::new_generic_unconfigured(start), Rc::new(RandomQsc::new(size, t, w.clone())), steps, |f| {
        let n = f.number_of_nodes(); let k = size.min(n);
        for i in 0..n {
            let q = f.get_quorum_set(i).unwrap();
            let mut v = q.validators.clone(); v.sort(); v.dedup(); for &x in &v { obs(x as u64) }
            check(q.inner_quorum_sets.is_empty() && v.len() == q.validators.len() && v.len() == k && v.contains(&i) && v.iter().all(|&x| x < n), 24);
            check(q.threshold == t.unwrap_or(safe(k)), 25);
            if let Some(w) = &w { let w = |x: usize| *w.get(x).unwrap_or(&1); for &x in &v { check(x == i || w(x) > 0 || (0..n).all(|y| v.contains(&y) || w(y) == 0), 26) } }
        }
    })
}
/// every order may come up in a round
fn orders() {
    let (mut s, l) = sim(Fbas::new_generic_unconfigured(3), Rc::new(DummyQsc), true); s.simulate_global_reevaluation(1);
    let o: Vec<usize> = l.borrow().iter().filter_map(|x| if let L::Configured(i, ..) = x { Some(*i) } else { None }).collect();
    let m = match (o[0], o[1]) { (0, 1) => 1, (0, 2) => 2, (1, 0) => 3, (1, 2) => 4, (2, 0) => 5, _ => 6 };
    reach(m);
}
/// the recording monitor records everything, in order
fn recorded(n: usize) {
    let m = Rc::new(DebugMonitor::new()); let q = Rc::new(Moody { n: Cell::new(0) });
    let log: Log = Rc::new(RefCell::new(vec![]));
    struct Both(Rc<DebugMonitor>, Log); impl SimulationMonitor for Both { fn register_event(&self, e: Event) { self.0.register_event(e); self.1.borrow_mut().push(L::Seen(e)) } }
    let mut s = Simulator::new(Fbas::new(), q, Rc::new(Both(m.clone(), log.clone()))); s.simulate_growth(n);
    let e = m.events_clone(); check(e == *m.events_ref(), 27);
    check(e.iter().map(|&x| L::Seen(x)).collect::<Vec<_>>() == *log.borrow(), 28); reach(1);
}
/// changes something so many times
struct Long { left: Cell<usize> }
impl QuorumSetConfigurator for Long {
    fn configure(&self, id: usize, f: &mut Fbas) -> ChangeEffect {
        let l = self.left.get(); if l == 0 { return ChangeEffect::NoChange }
        self.left.set(l - 1); f.swap_quorum_set(id, QuorumSet { threshold: l, validators: vec![id], inner_quorum_sets: vec![] }); ChangeEffect::Change
    }
}
fn long() {
    let k = [0, 15, 99, 150, 1100][pick(5) as usize]; let max = [100, 1000, 1200][pick(3) as usize];
    let (mut s, log) = sim(Fbas::new_generic_unconfigured(1), Rc::new(Long { left: Cell::new(k) }), true);
    let r = s.simulate_global_reevaluation(max); reach(1); obs(r as u64);
    check(r == (k + 1).min(max), 30); let mut at = 0; check(reevaluation(&log.borrow(), &mut at, 1, max) == r && at == log.borrow().len(), 31);
}
entries! {
    c20_long => long();
    c20_moody0 => moody(0, 2);
    c20_moody2 => moody(2, 3);
    c20_moody3 => moody(3, 2);
    c20_grow2 => moody_growth(0, 2);
    c20_grow_on => moody_growth(2, 1);
    c20_grow_none => moody_growth(2, 0);
    c20_ideal => ideal(0, &[1, 2]);
    c20_ideal_on => ideal(2, &[1]);
    c20_ideal3 => ideal(3, &[]);
    c20_safe3 => super_safe(3, &[]);
    c20_random_on => { let k = 1 + pick(3) as usize; let t = if flip() { Some(1) } else { None }; random_on(2, &[], k, t) };
    c20_random_on3 => random_on(3, &[], 2, None);
    c20_random_on_grow => { let k = 2 + pick(2) as usize; random_on(2, &[1], k, None) };
    c20_safe => super_safe(0, &[2, 1]);
    c20_safe_on => super_safe(2, &[1]);
    c20_dummy => real(begin(3), Rc::new(DummyQsc), &[], |_| ());
    c20_dummy_grow => real(Fbas::new(), Rc::new(DummyQsc), &[1, 1], |f| check(*f == Fbas::new_generic_unconfigured(2), 29));
    c20_random2 => random(0, &[2], 2, None, None);
    c20_random_more => { let k = 1 + pick(4) as usize; random(0, &[2], k, None, None) };
    c20_random_at_once => { let k = 1 + pick(4) as usize; let t = if flip() { Some(1) } else { None }; random(3, &[], k, t, None) };
    c20_random_weights => random(3, &[], 2, Some(2), Some(vec![0, 3, 1]));
    c20_random_weights_few => random(3, &[], 2, None, Some(vec![2]));
    c20_random_weights_any => { let w = (0..3).map(|_| pick(3) as usize).collect(); let k = 1 + pick(3) as usize; random(3, &[], k, None, Some(w)) };
    c20_random_weights_none => random(1, &[1], 2, None, Some(vec![0, 0]));
    c20_orders => orders();
    c20_recorded => recorded(2);
}
nomenu!();
