//! The symbolic interpreter: one `Worker` per thread explores states depth first.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy)]
pub struct Frame { f: u32, pc: u32, base: u32, sp: u64 }
#[derive(Clone)]
pub struct State {
    mem: Mem, regs: Vec<Val>, fr: Vec<Frame>, sp: u64,
    pc: Vec<E>, iw: Vec<u8>, model: Vec<u64>,
    trace: Vec<u8>, tv: Vec<u64>,
    rp: usize, rv: usize, replay: bool, // replaying `trace` up to its end
    obs: Vec<Val>, insts: u64, reach: Vec<u32>,
    ti: usize, tvi: usize, tick: u32, // where in `trace`/`tv` the decisions of the current instruction start
}
#[derive(Clone)]
pub struct Job { pub trace: Vec<u8>, pub tv: Vec<u64>, pub model: Vec<u64> }
#[derive(Clone, Debug)]
pub struct Finding { pub kind: String, pub what: String, pub inputs: Vec<u64>, pub obs: Vec<u64> }
#[derive(Default, Clone)]
pub struct Stats { pub paths: u64, pub forks: u64, pub insts: u64, pub queries: u64, pub hits: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub solver: f64, pub asserts: u64, pub assert_const: u64, pub pruned: u64, pub max_inputs: u64, pub replayed: u64, pub kinds: BTreeMap<String, u64>, pub reach: BTreeMap<u32, u64> }

pub struct Shared<'m> {
    pub m: &'m Module, pub entry: u32, pub queue: Mutex<Vec<Job>>, pub cv: Condvar, pub idle: AtomicUsize, pub nworkers: usize,
    pub stop: AtomicBool, pub incomplete: Mutex<HashSet<String>>, pub deadline: Instant, pub max_insts: u64,
    pub findings: Mutex<Vec<Finding>>, pub samples: Mutex<Vec<Finding>>, pub max_find: usize, pub sample_cap: usize, pub total_paths: AtomicU64,
    pub trace_smt: Mutex<Vec<String>>, pub smt_cap: usize, pub z3_timeout: u32, pub verbose: bool,
    /// 8-byte values are left out of hash codes; set when the entry has been found to hash symbolic ones
    pub hash_skip: bool, pub hash_sym: AtomicBool,
}
impl State {
    /// Re-execute the current instruction, taking the decisions it has already made from the trace.
    fn again(&mut self) { self.rp = self.ti; self.rv = self.tvi; self.replay = true }
}
enum Stop { End(String, String), Fork }
type R<T> = Result<T, Stop>;

pub struct Worker<'a, 'm> {
    sh: &'a Shared<'m>, cx: Ctx2, smt: Smt, stack: Vec<State>, pub st: Stats, root: State, gen_of: u64, model_gen: u64,
    tmp: Vec<Val>, bt: Vec<Option<&'m Func>>,
}
fn dead(s: &str) -> Stop { Stop::End("pruned".into(), s.into()) }

impl<'a, 'm> Worker<'a, 'm> {
    pub fn new(sh: &'a Shared<'m>) -> Self {
        let f = sh.m.func(sh.entry);
        let mut root = State { mem: Mem::new(sh.m), regs: vec![], fr: vec![], sp: SBASE + 64, pc: vec![], iw: vec![], model: vec![], trace: vec![], tv: vec![], rp: 0, rv: 0, replay: false, obs: vec![], insts: 0, reach: vec![], ti: 0, tvi: 0, tick: 0 };
        root.regs.resize(f.nregs as usize, Val::c(0));
        root.fr.push(Frame { f: sh.entry, pc: f.edges.len() as u32, base: 0, sp: root.sp });
        root.fr[0].pc = 0;
        Worker { sh, cx: Ctx2::new(), smt: Smt::new(sh.z3_timeout), stack: vec![], st: Default::default(), root, gen_of: 0, model_gen: 0, tmp: vec![], bt: vec![None; sh.m.fns.len()] }
    }
    fn func(&mut self, id: u32) -> &'m Func { if let Some(f) = self.bt[id as usize] { return f } let f = self.sh.m.func(id); self.bt[id as usize] = Some(f); f }
    pub fn run(&mut self) {
        loop {
            if self.sh.stop.load(Relaxed) { break }
            let s = match self.stack.pop() {
                Some(s) => s,
                None => {
                    if self.cx.n.len() > 3_000_000 { self.reset() }
                    match self.take() { Some(j) => { let mut s = self.root.clone(); s.trace = j.trace; s.tv = j.tv; s.model = j.model; s.replay = !s.trace.is_empty(); s } None => break }
                }
            };
            self.cx.new_gen();
            self.path(s);
            self.share();
            if self.cx.n.len() > 3_000_000 {
                // hand everything back as decision prefixes and start with a fresh term arena
                let js: Vec<Job> = self.stack.drain(..).map(|s| Job { trace: s.trace, tv: s.tv, model: s.model }).collect();
                self.sh.queue.lock().unwrap().extend(js); self.sh.cv.notify_all();
            }
            if Instant::now() > self.sh.deadline { self.note("time limit"); self.sh.stop.store(true, Relaxed); self.sh.cv.notify_all(); }
        }
        self.flush();
    }
    fn note(&self, s: &str) { self.sh.incomplete.lock().unwrap().insert(s.to_string()); }
    fn flush(&mut self) { self.st.queries += self.smt.queries; self.st.hits += self.smt.hits; self.st.sat += self.smt.sat; self.st.unsat += self.smt.unsat; self.st.unknown += self.smt.unknown; self.st.solver += self.smt.time; }
    fn reset(&mut self) { self.flush(); self.cx = Ctx2::new(); self.smt = Smt::new(self.sh.z3_timeout) }
    fn take(&mut self) -> Option<Job> {
        let mut q = self.sh.queue.lock().unwrap();
        if let Some(j) = q.pop() { return Some(j) }
        self.sh.idle.fetch_add(1, SeqCst);
        loop {
            if self.sh.stop.load(SeqCst) { self.sh.cv.notify_all(); return None }
            if let Some(j) = q.pop() { self.sh.idle.fetch_sub(1, SeqCst); return Some(j) }
            if self.sh.idle.load(SeqCst) == self.sh.nworkers { self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); return None }
            q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(200)).unwrap().0;
        }
    }
    fn share(&mut self) {
        let idle = self.sh.idle.load(Relaxed);
        if idle == 0 || self.stack.is_empty() { return }
        let mut q = self.sh.queue.lock().unwrap();
        if q.len() >= idle { return }
        let n = (idle - q.len()).min((self.stack.len() + 1) / 2).max(1);
        for s in self.stack.drain(..n) { q.push(Job { trace: s.trace, tv: s.tv, model: s.model }) }
        drop(q);
        self.sh.cv.notify_all();
    }
    /// Constraints of the path condition that (transitively) share inputs with `e`.
    fn slice(&self, s: &State, e: E) -> Vec<E> {
        let mut m = self.cx.vars(e);
        let mut inn = vec![false; s.pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in s.pc.iter().enumerate() { if !inn[i] { let v = self.cx.vars(c); if v & m != 0 { inn[i] = true; if v & !m != 0 { m |= v; ch = true } } } }
            if !ch { break }
        }
        let mut v: Vec<E> = s.pc.iter().zip(&inn).filter(|x| *x.1).map(|x| *x.0).collect();
        v.push(e); v.sort_unstable(); v.dedup();
        v
    }
    fn query(&mut self, s: &State, e: E) -> Res {
        if s.pc.contains(&e) { return Res::Sat(vec![]) }
        let ne = self.cx.not(e);
        if s.pc.contains(&ne) { return Res::Unsat }
        let k = self.slice(s, e);
        let r = self.smt.check(&self.cx, &k);
        if r == Res::Unknown { self.note("solver timeout") }
        r
    }
    /// Like `query`, after replacing the inputs that the path condition fixes by their values:
    /// the residual query mentions only the inputs that are still open.
    fn query_subst(&mut self, s: &State, e: E) -> Res {
        let mut map: FxMap<E, E> = Default::default(); let mut mv = 0u64;
        for &c in &s.pc {
            let n = self.cx.n[c as usize];
            let (v, k) = match n.op {
                Op::Var => (c, 1),
                Op::Not if self.cx.n[n.a as usize].op == Op::Var => (n.a, 0),
                Op::Eq if self.cx.n[n.a as usize].op == Op::Var && self.cx.cv(n.b).is_some() => (n.a, self.cx.cv(n.b).unwrap()),
                _ => continue,
            };
            let w = self.cx.w(v); let k = self.cx.c(w, k);
            mv |= self.cx.vars(v); map.insert(v, k);
        }
        if map.is_empty() { return self.query(s, e) }
        let mut memo = Default::default();
        let r = self.cx.subst(e, &map, mv, &mut memo);
        if let Some(v) = self.cx.cv(r) { if v == 0 { return Res::Unsat } return Res::Sat(vec![]) }
        // `Sat(vec![])` above is right because the current model satisfies the path condition
        let mut k: Vec<E> = vec![];
        let pc = s.pc.clone();
        let mut vs = self.cx.vars(r);
        let mut rest: Vec<E> = pc.iter().map(|&c| self.cx.subst(c, &map, mv, &mut memo)).collect();
        rest.retain(|&c| self.cx.cv(c).is_none());
        loop { let mut ch = false; rest.retain(|&c| if self.cx.vars(c) & vs != 0 { vs |= self.cx.vars(c); k.push(c); ch = true; false } else { true }); if !ch { break } }
        k.push(r); k.sort_unstable(); k.dedup();
        let r = self.smt.check(&self.cx, &k);
        if r == Res::Unknown { self.note("solver timeout") }
        r
    }
    fn eval(&mut self, s: &State, e: E) -> u64 { self.cx.eval(e, &s.model) }
    fn set_model(&mut self, s: &mut State, a: &[(u32, u64)]) { for (i, v) in a { if (*i as usize) < s.model.len() { s.model[*i as usize] = *v } } self.cx.new_gen() }
    /// Decide a symbolic condition. Returns the side this state follows; the other side, if
    /// feasible, is cloned *before* the decision and given to `other`.
    fn branch(&mut self, s: &mut State, c: E, other: impl FnOnce(&mut Self, State, bool)) -> R<bool> {
        if let Some(v) = self.cx.cv(c) { return Ok(v == 1) }
        if s.replay {
            let b = s.trace[s.rp] == 1; debug_assert!(s.trace[s.rp] < 2); s.rp += 1; if s.rp == s.trace.len() { s.replay = false; }
            let k = if b { c } else { self.cx.not(c) };
            if !s.pc.contains(&k) { s.pc.push(k) }
            return Ok(b);
        }
        let b = self.eval(s, c) == 1;
        let nc = self.cx.not(c);
        let (mine, oth) = if b { (c, nc) } else { (nc, c) };
        match self.query(s, oth) {
            Res::Unsat => {}
            Res::Unknown => { s.pc.push(mine) }
            Res::Sat(a) => {
                let mut o = s.clone();
                o.pc.push(oth); o.trace.push(!b as u8);
                for (i, v) in &a { if (*i as usize) < o.model.len() { o.model[*i as usize] = *v } }
                self.st.forks += 1;
                other(self, o, !b);
                s.pc.push(mine);
            }
        }
        s.trace.push(b as u8); s.rp = s.trace.len();
        Ok(b)
    }
    /// Fix a symbolic value to one concrete value; all other feasible values are explored by
    /// re-executing the current instruction in a forked state.
    fn conc(&mut self, s: &mut State, v: Val) -> R<u64> {
        if v.s == 0 { return Ok(v.v) }
        if let Some(k) = self.cx.cv(v.s) { return Ok(k) }
        loop {
            if s.replay {
                let t = s.trace[s.rp]; let val = s.tv[s.rv]; s.rp += 1; s.rv += 1; if s.rp == s.trace.len() { s.replay = false }
                let eq = self.cx.eqc(v.s, val);
                if t == 2 { if self.cx.cv(eq).is_none() && !s.pc.contains(&eq) { s.pc.push(eq) } return Ok(val) }
                let ne = self.cx.not(eq); if !s.pc.contains(&ne) { s.pc.push(ne) }
                continue;
            }
            let val = self.eval(s, v.s);
            let eq = self.cx.eqc(v.s, val); let ne = self.cx.not(eq);
            if self.cx.cv(eq) != Some(1) {
                match self.query(s, ne) {
                    Res::Unsat => {}
                    Res::Unknown => s.pc.push(eq),
                    Res::Sat(a) => {
                        let mut o = s.clone();
                        o.pc.push(ne); o.trace.push(3); o.tv.push(val);
                        o.again();
                        for (i, x) in &a { if (*i as usize) < o.model.len() { o.model[*i as usize] = *x } }
                        self.st.forks += 1;
                        self.stack.push(o);
                        s.pc.push(eq);
                    }
                }
            }
            s.trace.push(2); s.tv.push(val); s.rp = s.trace.len(); s.rv = s.tv.len();
            return Ok(val);
        }
    }
    fn ex(&mut self, v: Val, w: u8) -> E { if v.s != 0 { v.s } else { self.cx.c(w, v.v) } }
    fn mkv(&self, e: E) -> Val { let n = &self.cx.n[e as usize]; if n.op == Op::Const { Val::c(n.v) } else { Val { v: 0, s: e } } }
    fn bin(&mut self, op: Op, w: u8, a: Val, b: Val) -> Val {
        if a.s == 0 && b.s == 0 { return Val::c(cbin(op, w, a.v, b.v)) }
        let x = self.ex(a, w); let y = self.ex(b, w); let e = self.cx.bin(op, x, y); self.mkv(e)
    }
    fn icmp(&mut self, p: Pred, w: u8, a: Val, b: Val) -> Val {
        if a.s == 0 && b.s == 0 {
            let r = match p { Pred::Eq => a.v == b.v, Pred::Ne => a.v != b.v, Pred::Ult => a.v < b.v, Pred::Ule => a.v <= b.v, Pred::Ugt => a.v > b.v, Pred::Uge => a.v >= b.v,
                Pred::Slt => sx(a.v, w) < sx(b.v, w), Pred::Sle => sx(a.v, w) <= sx(b.v, w), Pred::Sgt => sx(a.v, w) > sx(b.v, w), Pred::Sge => sx(a.v, w) >= sx(b.v, w) };
            return Val::c(r as u64);
        }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let e = match p {
            Pred::Eq => self.cx.bin(Op::Eq, x, y), Pred::Ne => { let t = self.cx.bin(Op::Eq, x, y); self.cx.not(t) }
            Pred::Ult => self.cx.bin(Op::Ult, x, y), Pred::Ule => self.cx.bin(Op::Ule, x, y), Pred::Ugt => self.cx.bin(Op::Ult, y, x), Pred::Uge => self.cx.bin(Op::Ule, y, x),
            Pred::Slt => self.cx.bin(Op::Slt, x, y), Pred::Sle => self.cx.bin(Op::Sle, x, y), Pred::Sgt => self.cx.bin(Op::Slt, y, x), Pred::Sge => self.cx.bin(Op::Sle, y, x),
        };
        self.mkv(e)
    }
    fn sel(&mut self, w: u8, c: Val, a: Val, b: Val) -> Val {
        if c.s == 0 { return if c.v & 1 == 1 { a } else { b } }
        let x = self.ex(a, w); let y = self.ex(b, w); let e = self.cx.ite(c.s, x, y); self.mkv(e)
    }
    fn zx(&mut self, a: Val, t: u8) -> Val { if a.s == 0 { a } else { let e = self.cx.zext(a.s, t); self.mkv(e) } }
    fn ovf(&mut self, op: Op, sg: bool, w: u8, a: Val, b: Val) -> (Val, Val) {
        if a.s == 0 && b.s == 0 {
            let r = cbin(op, w, a.v, b.v);
            let o = if sg { let (x, y) = (sx(a.v, w) as i128, sx(b.v, w) as i128); let z = match op { Op::Add => x + y, Op::Sub => x - y, _ => x * y }; z != sx(r, w) as i128 }
                else { let (x, y) = (a.v as i128, b.v as i128); match op { Op::Add => x + y > mask(w) as i128, Op::Sub => x < y, _ => (a.v as u128 * b.v as u128) > mask(w) as u128 } };
            return (Val::c(r), Val::c(o as u64));
        }
        let x = self.ex(a, w); let y = self.ex(b, w);
        let r = self.cx.bin(op, x, y);
        let o = if !sg {
            match op {
                Op::Add => { let (nx, ny) = (self.cx.n[x as usize].umax, self.cx.n[y as usize].umax); if nx.checked_add(ny).map_or(false, |z| z <= mask(w)) { self.cx.c(1, 0) } else { self.cx.bin(Op::Ult, r, x) } }
                Op::Sub => self.cx.bin(Op::Ult, x, y),
                _ => {
                    let (nx, ny) = (self.cx.n[x as usize].umax, self.cx.n[y as usize].umax);
                    if nx.checked_mul(ny).map_or(false, |z| z <= mask(w)) { self.cx.c(1, 0) }
                    else if let Some(k) = self.cx.cv(y).filter(|k| *k != 0) { let lim = self.cx.c(w, mask(w) / k); self.cx.bin(Op::Ult, lim, x) }
                    else if let Some(k) = self.cx.cv(x).filter(|k| *k != 0) { let lim = self.cx.c(w, mask(w) / k); self.cx.bin(Op::Ult, lim, y) }
                    else { // y != 0 && x > MAX / y
                        let m = self.cx.c(w, mask(w)); let q = self.cx.bin(Op::UDiv, m, y); let gt = self.cx.bin(Op::Ult, q, x); let z = self.cx.eqc(y, 0); let nz = self.cx.not(z); self.cx.bin(Op::And, nz, gt)
                    }
                }
            }
        } else {
            let zero = self.cx.c(w, 0);
            let sxs = self.cx.bin(Op::Slt, x, zero); let sys = self.cx.bin(Op::Slt, y, zero); let srs = self.cx.bin(Op::Slt, r, zero);
            match op {
                Op::Add => { let same = self.cx.bin(Op::Eq, sxs, sys); let d = self.cx.bin(Op::Xor, srs, sxs); self.cx.bin(Op::And, same, d) }
                Op::Sub => { let dif = self.cx.bin(Op::Xor, sxs, sys); let d = self.cx.bin(Op::Xor, srs, sxs); self.cx.bin(Op::And, dif, d) }
                _ => { // r / y != x for y != 0, with the -1 * MIN case
                    let q = self.cx.bin(Op::SDiv, r, y); let e = self.cx.bin(Op::Eq, q, x); let ne = self.cx.not(e); let z = self.cx.eqc(y, 0); let nz = self.cx.not(z);
                    let m1 = self.cx.eqc(y, mask(w)); let mn = self.cx.eqc(x, 1 << (w - 1)); let sp = self.cx.bin(Op::And, m1, mn); let t = self.cx.bin(Op::And, nz, ne); self.cx.bin(Op::Or, t, sp)
                }
            }
        };
        (self.mkv(r), self.mkv(o))
    }
    fn finish(&mut self, s: &mut State, kind: &str, what: String) {
        if kind == "pruned" { self.st.pruned += 1; return }
        self.st.paths += 1; self.st.insts += s.insts;
        *self.st.kinds.entry(kind.to_string()).or_default() += 1;
        for r in &s.reach { *self.st.reach.entry(*r).or_default() += 1 }
        self.st.max_inputs = self.st.max_inputs.max(s.iw.len() as u64);
        let n = self.sh.total_paths.fetch_add(1, Relaxed);
        self.cx.new_gen();
        let want_sample = kind == "ok" && ((n & (n + 1)) == 0 || n % 997 == 0 || (n < 4000 && n % 61 == 0));
        if kind != "ok" || want_sample {
            let obs = { let o = s.obs.clone(); o.iter().map(|v| if v.s == 0 { v.v } else { self.cx.eval(v.s, &s.model) }).collect() };
            let f = Finding { kind: kind.into(), what, inputs: s.model[..s.iw.len()].to_vec(), obs };
            if kind == "ok" { let mut g = self.sh.samples.lock().unwrap(); if g.len() < self.sh.sample_cap { g.push(f) } } else { self.report(f) }
        }
    }
    fn report(&mut self, f: Finding) {
        let mut g = self.sh.findings.lock().unwrap();
        let same = g.iter().filter(|x| x.kind == f.kind && x.what == f.what).count();
        if same < 3 { if self.sh.verbose { eprintln!("finding: {} {} {:?}", f.kind, f.what, f.inputs) } g.push(f) }
        let distinct: HashSet<(String, String)> = g.iter().filter(|x| x.kind != "unsupported").map(|x| (x.kind.clone(), x.what.clone())).collect();
        if g.iter().filter(|x| x.kind != "unsupported").count() >= self.sh.max_find * 3 || distinct.len() >= self.sh.max_find { drop(g); self.note("stopped after findings"); self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all() }
    }
    fn path(&mut self, mut s: State) {
        match self.exec(&mut s) {
            Ok(()) => self.finish(&mut s, "ok", String::new()),
            Err(Stop::End(k, w)) => {
                if k == "limit" || k == "unsupported" || k == "fault" { self.note(&format!("{}: {}", k, w)) }
                self.finish(&mut s, &k, w)
            }
            Err(Stop::Fork) => {}
        }
    }
    fn take_edge(&mut self, s: &mut State, f: &Func, base: usize, e: u32) -> usize {
        let ed = &f.edges[e as usize];
        let sb = unsafe { f.seen.get_unchecked(ed.block as usize) };
        if !sb.load(Relaxed) { sb.store(true, Relaxed) }
        let (b, n) = (ed.cp.0 as usize, ed.cp.1 as usize);
        if n > 0 {
            let cps = &f.copies[b..b + n];
            if ed.safe { for &(d, o) in cps { let v = if o & CONST != 0 { Val::c(f.consts[(o & !CONST) as usize]) } else { s.regs[base + o as usize] }; s.regs[base + d as usize] = v } }
            else {
                self.tmp.clear();
                for &(_, o) in cps { let v = if o & CONST != 0 { Val::c(f.consts[(o & !CONST) as usize]) } else { s.regs[base + o as usize] }; self.tmp.push(v) }
                for (k, &(d, _)) in cps.iter().enumerate() { s.regs[base + d as usize] = self.tmp[k] }
            }
        }
        ed.target as usize
    }
    fn exec(&mut self, s: &mut State) -> R<()> {
        let mut fr = *s.fr.last().unwrap();
        let mut f = self.func(fr.f);
        f.seen[f.entry_block as usize].store(true, Relaxed);
        let mut pc = fr.pc as usize;
        let mut base = fr.base as usize;
        let mut tick = 0u32; s.tick = 0;
        macro_rules! g { ($o:expr) => {{ let o = $o; if o & CONST != 0 { Val::c(unsafe { *f.consts.get_unchecked((o & !CONST) as usize) }) } else { unsafe { *s.regs.get_unchecked(base + o as usize) } } }}; }
        macro_rules! put { ($d:expr, $v:expr) => {{ let v = $v; unsafe { *s.regs.get_unchecked_mut(base + $d as usize) = v } }}; }
        macro_rules! sync { () => {{ s.fr.last_mut().unwrap().pc = pc as u32; if s.tick != tick { s.tick = tick; s.ti = s.rp; s.tvi = s.rv } }}; }
        macro_rules! addr { ($o:expr) => {{ let v = g!($o); if v.s == 0 { v.v } else { sync!(); self.conc(s, v)? } }}; }
        macro_rules! fcheck { () => { if s.mem.err.is_some() { return Err(Stop::End("fault".into(), format!("{} in {}", s.mem.err.take().unwrap(), demangle(&self.sh.m.fns[f.id as usize].name)))) } }; }
        loop {
            tick += 1;
            if tick & 0xfff == 0 {
                s.insts += 4096;
                fcheck!();
                if s.insts > self.sh.max_insts { return Err(Stop::End("limit".into(), format!("instruction limit in {}", demangle(&self.sh.m.fns[f.id as usize].name)))) }
                if tick & 0xfffff == 0 { if self.sh.stop.load(Relaxed) || Instant::now() > self.sh.deadline { self.note("time limit"); return Err(dead("time")) } }
            }
            let ins = unsafe { *f.code.get_unchecked(pc) };
            match ins {
                I::Mov { d, a } => put!(d, g!(a)),
                I::Bin { op, w, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    let v = if x.s == 0 && y.s == 0 { Val::c(cbin(op, w, x.v, y.v)) } else { self.bin(op, w, x, y) };
                    put!(d, v)
                }
                I::Icmp { p, w, d, a, b } => { let (x, y) = (g!(a), g!(b)); let v = self.icmp(p, w, x, y); put!(d, v) }
                I::Sel { w, d, c, a, b } => { let (x, y, z) = (g!(c), g!(a), g!(b)); let v = self.sel(w, x, y, z); put!(d, v) }
                I::Zext { d, a, t, .. } => { let x = g!(a); let v = self.zx(x, t); put!(d, v) }
                I::Sext { d, a, f: fw, t } => { let x = g!(a); let v = if x.s == 0 { Val::c(sx(x.v, fw) as u64 & mask(t)) } else { let e = self.cx.sext(x.s, t); self.mkv(e) }; put!(d, v) }
                I::Trunc { d, a, t, .. } => { let x = g!(a); let v = if x.s == 0 { Val::c(x.v & mask(t)) } else { let e = self.cx.extract(x.s, 0, t); self.mkv(e) }; put!(d, v) }
                I::Load { d, p, off, w } => {
                    let pv = g!(p);
                    let n = (w as usize + 7) / 8;
                    let a = if pv.s == 0 { pv.v } else {
                        sync!();
                        if let Some(v) = self.table_load(s, pv.s, off as u64, n) { let v = if w as usize != n * 8 { Val { v: v.v & mask(w), s: if v.s != 0 { self.cx.extract(v.s, 0, w) } else { 0 } } } else { v }; put!(d, v); pc += 1; continue }
                        self.conc(s, pv)?
                    };
                    let mut v = s.mem.load(&mut self.cx, a + off as u64, n);
                    if w as usize != n * 8 { if v.s == 0 { v.v &= mask(w) } else { let e = self.cx.extract(v.s, 0, w); v = self.mkv(e) } }
                    if s.mem.err.is_some() { fcheck!() }
                    put!(d, v)
                }
                I::Store { v, p, off, w } => {
                    let a = addr!(p); let x = g!(v);
                    s.mem.store(&mut self.cx, a + off as u64, (w as usize + 7) / 8, x);
                    if s.mem.err.is_some() { fcheck!() }
                }
                I::GepC { d, a, off } => { let x = g!(a); let v = if x.s == 0 { Val::c(x.v.wrapping_add(off as u64)) } else { self.bin(Op::Add, 64, x, Val::c(off as u64)) }; put!(d, v) }
                I::GepI { d, a, i, sc, w } => {
                    let (x, y) = (g!(a), g!(i));
                    let v = if x.s == 0 && y.s == 0 { Val::c(x.v.wrapping_add((sx(y.v, w) as u64).wrapping_mul(sc as u64))) } else {
                        let y = if y.s == 0 { Val::c(sx(y.v, w) as u64) } else { let e = self.cx.sext(y.s, 64); self.mkv(e) };
                        let t = self.bin(Op::Mul, 64, y, Val::c(sc as u64)); self.bin(Op::Add, 64, x, t)
                    };
                    put!(d, v)
                }
                I::Alloca { d, sz, n } => {
                    let k = addr!(n);
                    s.sp = (s.sp + 15) & !15; let a = s.sp; s.sp += (sz * k).max(1);
                    if s.sp > SBASE + (1 << 30) { return Err(Stop::End("stack overflow".into(), String::new())) }
                    put!(d, Val::c(a))
                }
                I::Br { e } => { pc = self.take_edge(s, f, base, e); continue }
                I::CBr { c, t, f: fe } => {
                    let x = g!(c);
                    if x.s == 0 { pc = self.take_edge(s, f, base, if x.v & 1 == 1 { t } else { fe }); continue }
                    sync!();
                    let ff = f;
                    let b = self.branch(s, x.s, |me, mut o, side| {
                        let np = me.take_edge(&mut o, ff, base, if side { t } else { fe });
                        o.fr.last_mut().unwrap().pc = np as u32;
                        o.rp = o.trace.len(); o.rv = o.tv.len();
                        me.stack.push(o);
                    })?;
                    pc = self.take_edge(s, f, base, if b { t } else { fe }); continue
                }
                I::Sw { i } => {
                    let sw = &f.sws[i as usize];
                    let x = g!(sw.v);
                    let e = if x.s == 0 { sw.cases.iter().find(|c| c.0 == x.v).map_or(sw.def, |c| c.1) } else {
                        sync!();
                        // choose a target: a symbolic case index, then fixed like any other value
                        let mut idx = self.cx.c(32, 0xffff);
                        for (k, c) in sw.cases.iter().enumerate().rev() { let eq = self.cx.eqc(x.s, c.0); let kk = self.cx.c(32, k as u64); idx = self.cx.ite(eq, kk, idx) }
                        let v = self.mkv(idx);
                        let k = self.conc(s, v)?;
                        if k == 0xffff { sw.def } else { sw.cases[k as usize].1 }
                    };
                    pc = self.take_edge(s, f, base, e); continue
                }
                I::Ret { i } => {
                    let rv = &f.rets[i as usize];
                    s.sp = fr.sp;
                    if s.fr.len() == 1 { s.insts += (tick & 0xfff) as u64; fcheck!(); return Ok(()) }
                    let mut small = [Val::c(0); 4];
                    let big: Vec<Val>;
                    let vals: &[Val] = if rv.len() <= 4 { for (k, o) in rv.iter().enumerate() { small[k] = g!(*o) } &small[..rv.len()] } else { big = rv.iter().map(|o| g!(*o)).collect(); &big };
                    s.regs.truncate(base);
                    s.fr.pop();
                    fr = *s.fr.last().unwrap();
                    f = self.func(fr.f); base = fr.base as usize; pc = fr.pc as usize;
                    let I::Call { i } = f.code[pc] else { unreachable!() };
                    let ct = &f.calls[i as usize];
                    for (k, v) in vals.iter().enumerate() { if (k as u32) < ct.nd { put!(ct.d + k as u32, *v) } }
                    if let Some(e) = ct.edge { pc = self.take_edge(s, f, base, e); continue }
                }
                I::Call { i } => {
                    let ct = &f.calls[i as usize];
                    let id = match ct.callee { Callee::F(id) => id, Callee::Ind(o) => { let a = addr!(o); let k = a.wrapping_sub(FBASE); if k % 16 != 0 || k / 16 >= self.sh.m.fns.len() as u64 { return Err(Stop::End("fault".into(), format!("indirect call to {:#x} in {}", a, demangle(&self.sh.m.fns[f.id as usize].name)))) } (k / 16) as u32 } };
                    let decl = &self.sh.m.fns[id as usize];
                    if decl.bi == Bi::HashWrite && ct.args.len() == 3 && { let l = g!(ct.args[2]); l.s == 0 && l.v == 8 } {
                        if self.sh.hash_skip { if let Some(e) = ct.edge { pc = self.take_edge(s, f, base, e); continue } pc += 1; continue }
                        let p = g!(ct.args[1]); sync!();
                        let v = if p.s == 0 { s.mem.load(&mut self.cx, p.v, 8) } else { Val::c(0) };
                        if v.s != 0 { self.sh.hash_sym.store(true, SeqCst); self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); return Err(dead("hash")) }
                    }
                    if decl.bi != Bi::None && decl.bi != Bi::HashWrite {
                        sync!();
                        let mut av = [Val::c(0); 8];
                        for (k, o) in ct.args.iter().enumerate().take(8) { av[k] = g!(*o) }
                        let (aw, d, nd, edge) = (ct.aw.first().copied().unwrap_or(64), ct.d, ct.nd, ct.edge);
                        let r = self.builtin(s, decl, &av[..ct.args.len().min(8)], aw, f)?;
                        if nd > 0 { put!(d, r.0) }
                        if nd > 1 { put!(d + 1, r.1) }
                        if s.mem.err.is_some() { fcheck!() }
                        if let Some(e) = edge { pc = self.take_edge(s, f, base, e); continue }
                        pc += 1; continue;
                    }
                    sync!();
                    let nf = self.func(id);
                    if s.fr.len() > 4000 { return Err(Stop::End("stack overflow".into(), demangle(&decl.name))) }
                    let nb = s.regs.len();
                    let mut k = 0;
                    s.regs.resize(nb + nf.nregs as usize, Val::c(0));
                    for &(r, n) in &nf.params { for j in 0..n { if k < ct.args.len() { let v = g!(ct.args[k]); s.regs[nb + (r + j) as usize] = v } k += 1 } }
                    fr = Frame { f: id, pc: 0, base: nb as u32, sp: s.sp };
                    s.fr.push(fr);
                    f = nf; base = nb;
                    let sb = &f.seen[f.entry_block as usize]; if !sb.load(Relaxed) { sb.store(true, Relaxed) }
                    pc = 0; continue;
                }
                I::Ovf { op, sg, w, d, a, b } => { let (x, y) = (g!(a), g!(b)); let (r, o) = self.ovf(op, sg, w, x, y); put!(d, r); put!(d + 1, o) }
                I::Sat { op, sg, w, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    let (r, o) = self.ovf(op, sg, w, x, y);
                    let lim = if !sg { if op == Op::Add { Val::c(mask(w)) } else { Val::c(0) } } else {
                        let neg = self.icmp(Pred::Slt, w, x, Val::c(0)); self.sel(w, neg, Val::c(1 << (w - 1)), Val::c(mask(w) >> 1)) };
                    let v = self.sel(w, o, lim, r); put!(d, v)
                }
                I::MinMax { sg, max, w, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    let lt = self.icmp(if sg { Pred::Slt } else { Pred::Ult }, w, x, y);
                    let v = if max { self.sel(w, lt, y, x) } else { self.sel(w, lt, x, y) }; put!(d, v)
                }
                I::Cmp3 { sg, w, rw, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    let lt = self.icmp(if sg { Pred::Slt } else { Pred::Ult }, w, x, y); let eq = self.icmp(Pred::Eq, w, x, y);
                    let t = self.sel(rw, eq, Val::c(0), Val::c(1)); let v = self.sel(rw, lt, Val::c(mask(rw)), t); put!(d, v)
                }
                I::Un { op, w, d, a } => { let x = g!(a); let v = self.un1(op, w, x); put!(d, v) }
                I::Fsh { l, w, d, a, b, c } => {
                    let (x, y, z) = (g!(a), g!(b), g!(c));
                    let v = if x.s == 0 && y.s == 0 && z.s == 0 {
                        let k = (z.v % w as u64) as u32; let t = ((x.v as u128) << w) | y.v as u128;
                        Val::c(if l { ((t << k) >> w) as u64 } else { (t >> k) as u64 } & mask(w))
                    } else {
                        sync!(); let k = self.conc(s, z)? % w as u64;
                        if k == 0 { if l { x } else { y } } else { let k = if l { k } else { w as u64 - k };
                            let hi = self.bin(Op::Shl, w, x, Val::c(k)); let lo = self.bin(Op::LShr, w, y, Val::c(w as u64 - k)); self.bin(Op::Or, w, hi, lo) }
                    };
                    put!(d, v)
                }
                I::MemCpy { d, s: so, n } => { let a = addr!(d); let b = addr!(so); let k = addr!(n); s.mem.copy(a, b, k); s.insts += k / 8; if s.mem.err.is_some() { fcheck!() } }
                I::MemSet { d, v, n } => { let a = addr!(d); let k = addr!(n); let x = g!(v); s.mem.set(&mut self.cx, a, x, k); s.insts += k / 8; if s.mem.err.is_some() { fcheck!() } }
                I::FBin { op, w, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    let v = if x.s == 0 && y.s == 0 { Val::c(fbin(op, w, x.v, y.v)) }
                        else if w == 64 && op < 4 { let o = [Op::FAdd, Op::FSub, Op::FMul, Op::FDiv][op as usize]; self.bin(o, 64, x, y) }
                        else { sync!(); let p = self.conc(s, x)?; let q = self.conc(s, y)?; Val::c(fbin(op, w, p, q)) };
                    put!(d, v)
                }
                I::FCmp { p, w, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    let v = if x.s == 0 && y.s == 0 { Val::c(fcmp(p, w, x.v, y.v)) } else if w == 64 { self.fcmps(p, x, y) }
                        else { sync!(); let m = self.conc(s, x)?; let n = self.conc(s, y)?; Val::c(fcmp(p, w, m, n)) };
                    put!(d, v)
                }
                I::F2I { sg, sat: _, fw, w, d, a } => {
                    let x = g!(a);
                    let v = if x.s == 0 { Val::c(f2i(sg, fw, w, x.v)) } else if fw == 64 {
                        // saturating semantics (also a valid refinement of the unsaturated one)
                        let c = |v: f64| Val::c(v.to_bits());
                        let (lo, hi) = if sg { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                        let e = self.cx.un(if sg { Op::F2S } else { Op::F2U }, x.s, 64); let e = if w < 64 { self.cx.extract(e, 0, w) } else { e }; let e = self.mkv(e);
                        let nan = self.fcmps(FP::Uno, x, x); let le = self.fcmps(FP::Ole, x, c(lo)); let ge = self.fcmps(FP::Oge, x, c(hi));
                        let (lv, hv) = if sg { (1u64 << (w - 1), mask(w) >> 1) } else { (0, mask(w)) };
                        let t = self.sel(w, ge, Val::c(hv), e); let t = self.sel(w, le, Val::c(lv), t); self.sel(w, nan, Val::c(0), t)
                    } else { sync!(); let m = self.conc(s, x)?; Val::c(f2i(sg, fw, w, m)) };
                    put!(d, v)
                }
                I::I2F { sg, w, fw, d, a } => {
                    let x = g!(a);
                    let v = if x.s == 0 { let fl = if sg { sx(x.v, w) as f64 } else { x.v as f64 }; if fw == 64 { Val::c(fl.to_bits()) } else { Val::c((if sg { sx(x.v, w) as f32 } else { x.v as f32 }).to_bits() as u64) } }
                        else if fw == 64 { let e = if sg { self.cx.sext(x.s, 64) } else { self.cx.zext(x.s, 64) }; let e = self.cx.un(if sg { Op::S2F } else { Op::U2F }, e, 64); self.mkv(e) }
                        else { sync!(); let m = self.conc(s, x)?; Val::c((if sg { sx(m, w) as f32 } else { m as f32 }).to_bits() as u64) };
                    put!(d, v)
                }
                I::FExt { d, a } => { let v = addr!(a); put!(d, Val::c((f32::from_bits(v as u32) as f64).to_bits())) }
                I::FTrn { d, a } => { let v = addr!(a); put!(d, Val::c((f64::from_bits(v) as f32).to_bits() as u64)) }
                I::FUn { op, w, d, a } => {
                    let x = g!(a);
                    let v = if x.s != 0 && w == 64 && matches!(op, Fun::Neg | Fun::Abs | Fun::Floor | Fun::Ceil | Fun::Trunc | Fun::Round | Fun::RoundEven) {
                        match op { Fun::Neg => self.bin(Op::Xor, 64, x, Val::c(1 << 63)), Fun::Abs => self.bin(Op::And, 64, x, Val::c(!0 >> 1)),
                            _ => { let o = match op { Fun::Floor => Op::FFloor, Fun::Ceil => Op::FCeil, Fun::Trunc => Op::FTrunc, Fun::Round => Op::FRoundAway, _ => Op::FRoundEven }; let e = self.cx.un(o, x.s, 64); self.mkv(e) } }
                    } else { let c = if x.s == 0 { x.v } else { sync!(); self.conc(s, x)? }; Val::c(fun1(op, w, c)) };
                    put!(d, v)
                }
                I::FClass { m, w, d, a } => { let v = addr!(a); put!(d, Val::c(fclass(m, w, v))) }
                I::Wide { i } => { sync!(); self.wide(s, &f.wides[i as usize], f, base)?; }
                I::Pack { i } => {
                    let pk = &f.packs[i as usize];
                    // pack LSB first into a bit list of parts, then re-slice (total <= 64 bits per target)
                    let mut parts: Vec<(Val, u8)> = pk.from.iter().map(|(o, w)| (g!(*o), *w)).collect();
                    parts.reverse(); // pop from the end = lowest first
                    for &(r, w) in &pk.to {
                        let mut acc: Option<(Val, u8)> = None; let mut need = w;
                        while need > 0 {
                            let (v, pw) = parts.pop().unwrap();
                            let (take, tw) = if pw <= need { (v, pw) } else {
                                let rest = if v.s == 0 { Val::c(v.v >> need) } else { let e = self.cx.extract(v.s, need, pw - need); self.mkv(e) };
                                parts.push((rest, pw - need));
                                (if v.s == 0 { Val::c(v.v & mask(need)) } else { let e = self.cx.extract(v.s, 0, need); self.mkv(e) }, need)
                            };
                            acc = Some(match acc { None => (take, tw), Some((lo, lw)) => {
                                if lo.s == 0 && take.s == 0 { (Val::c(lo.v | (take.v << lw)), lw + tw) } else { let h = self.ex(take, tw); let l = self.ex(lo, lw); let e = self.cx.concat(h, l); (self.mkv(e), lw + tw) } } });
                            need -= tw;
                        }
                        put!(r, acc.unwrap().0)
                    }
                }
                I::ARmw { op, w, d, p, v } => {
                    let a = addr!(p); let x = g!(v); let n = (w as usize + 7) / 8;
                    let old = s.mem.load(&mut self.cx, a, n);
                    let nv = match op { 0 => x, 1 => self.bin(Op::Add, w, old, x), 2 => self.bin(Op::Sub, w, old, x), 3 => self.bin(Op::And, w, old, x), 4 => self.bin(Op::Or, w, old, x), 5 => self.bin(Op::Xor, w, old, x),
                        k => { let lt = self.icmp(Pred::Ult, w, old, x); if k == 6 { self.sel(w, lt, x, old) } else { self.sel(w, lt, old, x) } } };
                    s.mem.store(&mut self.cx, a, n, nv); put!(d, old); fcheck!()
                }
                I::CmpX { w, d, p, c, v } => {
                    let a = addr!(p); let (cv, nv) = (g!(c), g!(v)); let n = (w as usize + 7) / 8;
                    let old = s.mem.load(&mut self.cx, a, n);
                    let eq = self.icmp(Pred::Eq, w, old, cv);
                    let st = self.sel(w, eq, nv, old);
                    s.mem.store(&mut self.cx, a, n, st); put!(d, old); put!(d + 1, eq); fcheck!()
                }
                I::LoadRel { d, p, o } => { let a = addr!(p); let k = addr!(o); let v = s.mem.load(&mut self.cx, a.wrapping_add(k), 4).v; put!(d, Val::c(a.wrapping_add(sx(v, 32) as u64))); fcheck!() }
                I::Assume { .. } => {}
                I::Unreach => { return Err(Stop::End("fault".into(), format!("unreachable executed in {}", demangle(&self.sh.m.fns[f.id as usize].name)))) }
                I::Unsup { i } => return Err(Stop::End("unsupported".into(), f.msgs[i as usize].clone())),
            }
            pc += 1;
        }
    }
    /// Load from a read-only table at a symbolic address: an if-then-else over all feasible entries.
    fn table_load(&mut self, s: &mut State, p: E, off: u64, n: usize) -> Option<Val> {
        let nd = self.cx.n[p as usize];
        if s.replay { // decisions must not depend on the solver here
        }
        if nd.op != Op::Add { return None }
        let base = self.cx.cv(nd.b)?;
        if base >> 32 != KBASE >> 32 { return None }
        let x = self.cx.n[nd.a as usize];
        if x.umax > 2048 { return None }
        let step = if x.op == Op::Concat && self.cx.cv(x.b) == Some(0) { 1u64 << self.cx.w(x.b) } else { 1 };
        let mut acc: Option<E> = None; let w = (n * 8) as u8;
        let cnt = x.umax / step;
        if cnt > 300 { return None }
        for k in (0..=cnt).rev() {
            let a = base + k * step + off;
            if a + n as u64 - KBASE > s.mem.klen { continue }
            let v = s.mem.load(&mut self.cx, a, n).v; let ve = self.cx.c(w, v);
            acc = Some(match acc { None => ve, Some(r) => { let c = self.cx.eqc(nd.a, k * step); self.cx.ite(c, ve, r) } });
        }
        acc.map(|e| self.mkv(e))
    }
    fn fcmps(&mut self, p: FP, x: Val, y: Val) -> Val {
        let un = |me: &mut Self| me.bin(Op::FUno, 64, x, y);
        let not = |me: &mut Self, v: Val| me.bin(Op::Xor, 1, v, Val::c(1));
        let or = |me: &mut Self, a: Val, b: Val| me.bin(Op::Or, 1, a, b);
        match p {
            FP::False => Val::c(0), FP::True => Val::c(1), FP::Uno => un(self), FP::Ord => { let u = un(self); not(self, u) }
            FP::Oeq => self.bin(Op::FEq, 64, x, y), FP::Olt => self.bin(Op::FLt, 64, x, y), FP::Ole => self.bin(Op::FLe, 64, x, y), FP::Ogt => self.bin(Op::FLt, 64, y, x), FP::Oge => self.bin(Op::FLe, 64, y, x),
            FP::Une => { let e = self.bin(Op::FEq, 64, x, y); not(self, e) }
            FP::One => { let e = self.bin(Op::FEq, 64, x, y); let u = un(self); let t = or(self, e, u); not(self, t) }
            FP::Ueq => { let e = self.bin(Op::FEq, 64, x, y); let u = un(self); or(self, e, u) }
            FP::Ult => { let e = self.bin(Op::FLe, 64, y, x); not(self, e) }
            FP::Ule => { let e = self.bin(Op::FLt, 64, y, x); not(self, e) }
            FP::Ugt => { let e = self.bin(Op::FLe, 64, x, y); not(self, e) }
            FP::Uge => { let e = self.bin(Op::FLt, 64, x, y); not(self, e) }
        }
    }
    fn un1(&mut self, op: Un1, w: u8, x: Val) -> Val {
        if x.s == 0 {
            let v = x.v;
            return Val::c(match op {
                Un1::Ctpop => v.count_ones() as u64, Un1::Ctlz => (v.leading_zeros() as u64).saturating_sub(64 - w as u64), Un1::Cttz => (v.trailing_zeros() as u64).min(w as u64),
                Un1::Bswap => v.swap_bytes() >> (64 - w as u32), Un1::Bitrev => v.reverse_bits() >> (64 - w as u32), Un1::Abs => { let k = sx(v, w); (k.wrapping_abs() as u64) & mask(w) }
            });
        }
        let um = self.cx.n[x.s as usize].umax;
        let hb = 64 - um.leading_zeros() as u8;
        let bit = |me: &mut Self, i: u8| { let e = me.cx.extract(x.s, i, 1); me.mkv(e) };
        match op {
            Un1::Ctpop => { let mut acc = Val::c(0); for i in 0..hb { let b = bit(self, i); let z = self.zx(b, w); acc = self.bin(Op::Add, w, acc, z) } acc }
            Un1::Cttz => { let mut acc = Val::c(w as u64); for i in (0..hb).rev() { let b = bit(self, i); acc = self.sel(w, b, Val::c(i as u64), acc) } acc }
            Un1::Ctlz => { let mut acc = Val::c(w as u64); for i in 0..hb { let b = bit(self, i); acc = self.sel(w, b, Val::c((w - 1 - i) as u64), acc) } acc }
            Un1::Bswap => { let mut acc = self.cx.extract(x.s, 0, 8); for i in 1..w / 8 { let b = self.cx.extract(x.s, i * 8, 8); acc = self.cx.concat(acc, b) } self.mkv(acc) }
            Un1::Bitrev => { let mut acc = self.cx.extract(x.s, 0, 1); for i in 1..w { let b = self.cx.extract(x.s, i, 1); acc = self.cx.concat(acc, b) } self.mkv(acc) }
            Un1::Abs => { let n = self.icmp(Pred::Slt, w, x, Val::c(0)); let m = self.bin(Op::Sub, w, Val::c(0), x); self.sel(w, n, m, x) }
        }
    }
    /// Integers wider than 64 bits: (lo, hi) register pairs.
    fn wide(&mut self, s: &mut State, t: &WideT, f: &Func, base: usize) -> R<()> {
        let gv = |s: &State, o: Opd| if o & CONST != 0 { Val::c(f.consts[(o & !CONST) as usize]) } else { s.regs[base + o as usize] };
        let a: Vec<Val> = t.a.iter().map(|o| gv(s, *o)).collect();
        let b: Vec<Val> = t.b.iter().map(|o| gv(s, *o)).collect();
        let c: Vec<Val> = t.c.iter().map(|o| gv(s, *o)).collect();
        let d = base + t.d as usize;
        let any = a.iter().chain(&b).chain(&c).any(|v| v.s != 0);
        let hw = |w: u32| (w - 64).min(64) as u8;
        if any {
            match t.op.as_str() {
                "zext" if a.len() == 1 => { s.regs[d] = self.zx(a[0], 64); s.regs[d + 1] = Val::c(0); return Ok(()) }
                "zext" => { s.regs[d] = a[0]; s.regs[d + 1] = self.zx(a[1], hw(t.w2)); return Ok(()) }
                "trunc" if t.w2 <= 64 => { let e = self.ex(a[0], 64); let e = self.cx.extract(e, 0, t.w2 as u8); s.regs[d] = self.mkv(e); return Ok(()) }
                "and" | "or" | "xor" => { let o = match t.op.as_str() { "and" => Op::And, "or" => Op::Or, _ => Op::Xor }; s.regs[d] = self.bin(o, 64, a[0], b[0]); s.regs[d + 1] = self.bin(o, hw(t.w), a[1], b[1]); return Ok(()) }
                "icmpEq" | "icmpNe" => { let x = self.icmp(Pred::Eq, 64, a[0], b[0]); let y = self.icmp(Pred::Eq, hw(t.w), a[1], b[1]); let r = self.bin(Op::And, 1, x, y); s.regs[d] = if t.op == "icmpEq" { r } else { self.bin(Op::Xor, 1, r, Val::c(1)) }; return Ok(()) }
                "shl" | "lshr" if b[0].s == 0 && t.w == 128 => {
                    let k = b[0].v;
                    let (lo, hi) = (a[0], a[1]);
                    let (nl, nh) = if t.op == "shl" {
                        if k >= 64 { (Val::c(0), self.bin(Op::Shl, 64, lo, Val::c(k - 64))) } else if k == 0 { (lo, hi) } else { let x = self.bin(Op::Shl, 64, hi, Val::c(k)); let y = self.bin(Op::LShr, 64, lo, Val::c(64 - k)); (self.bin(Op::Shl, 64, lo, Val::c(k)), self.bin(Op::Or, 64, x, y)) }
                    } else if k >= 64 { (self.bin(Op::LShr, 64, hi, Val::c(k - 64)), Val::c(0)) } else if k == 0 { (lo, hi) } else { let x = self.bin(Op::LShr, 64, lo, Val::c(k)); let y = self.bin(Op::Shl, 64, hi, Val::c(64 - k)); (self.bin(Op::Or, 64, x, y), self.bin(Op::LShr, 64, hi, Val::c(k))) };
                    s.regs[d] = nl; s.regs[d + 1] = nh; return Ok(());
                }
                _ => {}
            }
        }
        let mut cv = |me: &mut Self, s: &mut State, v: &[Val]| -> R<u128> { let lo = if v.is_empty() { 0 } else { me.conc(s, v[0])? }; let hi = if v.len() > 1 { me.conc(s, v[1])? } else { 0 }; Ok(lo as u128 | (hi as u128) << 64) };
        let x = cv(self, s, &a)?; let y = cv(self, s, &b)?; let z = cv(self, s, &c)?;
        let w = t.w; let m = |w: u32| if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
        let sxx = |v: u128, w: u32| ((v << (128 - w)) as i128) >> (128 - w);
        let r: u128 = match t.op.as_str() {
            "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), "and" => x & y, "or" => x | y, "xor" => x ^ y,
            "udiv" => x / y.max(1), "urem" => x % y.max(1), "sdiv" => sxx(x, w).wrapping_div(if y == 0 { 1 } else { sxx(y, w) }) as u128, "srem" => sxx(x, w).wrapping_rem(if y == 0 { 1 } else { sxx(y, w) }) as u128,
            "shl" => if y >= w as u128 { 0 } else { x << y }, "lshr" => if y >= w as u128 { 0 } else { x >> y }, "ashr" => (sxx(x, w) >> (y.min(w as u128 - 1))) as u128,
            "zext" => x, "sext" => { let r = sxx(x, w) as u128; r } "trunc" => x,
            "umin" => x.min(y), "umax" => x.max(y), "ctpop" => x.count_ones() as u128, "ctlz" => (x.leading_zeros() - (128 - w)) as u128, "cttz" => x.trailing_zeros().min(w) as u128, "bswap" => x.swap_bytes() >> (128 - w),
            "fshl" => { let k = (z % w as u128) as u32; if k == 0 { x } else { (x << k) | (y >> (w - k)) } } "fshr" => { let k = (z % w as u128) as u32; if k == 0 { y } else { (x << (w - k)) | (y >> k) } }
            "ptrtoint" | "inttoptr" => x,
            o if o.starts_with("icmp") => { let (p, q) = (sxx(x, w), sxx(y, w)); (match &o[4..] { "Eq" => x == y, "Ne" => x != y, "Ult" => x < y, "Ule" => x <= y, "Ugt" => x > y, "Uge" => x >= y, "Slt" => p < q, "Sle" => p <= q, "Sgt" => p > q, _ => p >= q }) as u128 }
            o if o.starts_with("ovf.") => {
                let (r, ov) = match &o[4..] { "uadd" => { let r = x.wrapping_add(y) & m(w); (r, r < x) } "usub" => (x.wrapping_sub(y) & m(w), x < y), "umul" => { let (r, ov) = x.overflowing_mul(y); (r & m(w), ov || r & !m(w) != 0) } _ => return Err(Stop::End("unsupported".into(), o.to_string())) };
                s.regs[d] = Val::c(r as u64); s.regs[d + 1] = Val::c((r >> 64) as u64); s.regs[d + 2] = Val::c(ov as u64); return Ok(());
            }
            o => return Err(Stop::End("unsupported".into(), format!("wide {}", o))),
        };
        if t.op.starts_with("icmp") { s.regs[d] = Val::c(r as u64); return Ok(()) }
        let rw = if t.w2 != 0 { t.w2 } else { w };
        let r = r & m(rw);
        s.regs[d] = Val::c(r as u64);
        if rw > 64 { s.regs[d + 1] = Val::c((r >> 64) as u64) }
        Ok(())
    }
    /// Allocation of a symbolic size: sizes above 2^46 bytes fail (the allocator returns null),
    /// sizes above 2^20 are outside the explored bound, the rest is enumerated.
    fn huge(&mut self, s: &mut State, v: Val) -> R<bool> {
        if v.s == 0 || self.cx.cv(v.s).is_some() { return Ok(v.s == 0 && v.v > 1 << 46) }
        for (k, fail) in [(1u64 << 46, true), (1 << 12, false)] {
            let lim = self.cx.c(64, k); let c = self.cx.bin(Op::Ult, lim, v.s);
            let b = self.branch(s, c, |me, mut o, _| { o.again(); me.stack.push(o) })?;
            if b { if fail { return Ok(true) } self.note("symbolic allocation size above 4 KB"); return Err(dead("allocation")) }
        }
        Ok(false)
    }
    fn cstr(&mut self, s: &mut State, a: u64, n: u64) -> String { (0..n.min(400)).map(|k| s.mem.cbyte(a + k).0 as char).collect() }
    fn builtin(&mut self, s: &mut State, decl: &FnDecl, a: &[Val], aw: u8, f: &Func) -> R<(Val, Val)> {
        let ok = |v: u64| Ok((Val::c(v), Val::c(0)));
        match decl.bi {
            Bi::SymInput => {
                let w = a[0].v as u8;
                let k = s.iw.len() as u32;
                s.iw.push(w);
                if s.model.len() <= k as usize { s.model.push(0) }
                let e = self.cx.var(k, w); let e = self.cx.zext(e, 64);
                Ok((self.mkv(e), Val::c(0)))
            }
            Bi::SymAssume => {
                let c = self.ex(a[0], aw); let z = self.cx.eqc(c, 0); let c = self.cx.not(z);
                if let Some(v) = self.cx.cv(c) { return if v == 1 { ok(0) } else { Err(dead("assume")) } }
                if s.replay { s.pc.push(c); return ok(0) }
                if self.eval(s, c) == 1 { s.pc.push(c); return ok(0) }
                match self.query(s, c) { Res::Sat(m) => { self.set_model(s, &m); s.pc.push(c); ok(0) } Res::Unsat => Err(dead("assume")), Res::Unknown => Err(Stop::End("unsupported".into(), "assume undecided".into())) }
            }
            Bi::SymAssert => {
                let id = a[1].v;
                let c = self.ex(a[0], aw); let z = self.cx.eqc(c, 0); let c = self.cx.not(z);
                if s.replay { if self.cx.cv(c).is_none() { s.pc.push(c) } return ok(0) }
                self.st.asserts += 1;
                let what = format!("{}", id);
                if let Some(v) = self.cx.cv(c) { self.st.assert_const += 1; return if v == 1 { ok(0) } else { Err(Stop::End("assert".into(), what)) } }
                let nc = self.cx.not(c);
                if self.sh.smt_cap > 0 { let mut g = self.sh.trace_smt.lock().unwrap(); if g.len() < self.sh.smt_cap { let k = self.slice(s, nc); let t = self.smt.smt2(&self.cx, &k); g.push(t) } }
                let r = if self.eval(s, c) == 0 { Res::Sat(vec![]) } else { self.query_subst(s, nc) };
                match r {
                    Res::Unsat => {}
                    Res::Unknown => {}
                    Res::Sat(m) => {
                        let mut o = s.model.clone(); for (i, v) in &m { if (*i as usize) < o.len() { o[*i as usize] = *v } }
                        let obs = { let ob = s.obs.clone(); self.cx.new_gen(); let r = ob.iter().map(|v| if v.s == 0 { v.v } else { self.cx.eval(v.s, &o) }).collect(); self.cx.new_gen(); r };
                        *self.st.kinds.entry("assert".into()).or_default() += 1;
                        self.report(Finding { kind: "assert".into(), what, inputs: o[..s.iw.len()].to_vec(), obs });
                        // carry on with the inputs that satisfy it, if there are any
                        if self.eval(s, c) == 0 { match self.query(s, c) { Res::Sat(m) => self.set_model(s, &m), _ => return Err(dead("assert")) } }
                        s.pc.push(c);
                    }
                }
                ok(0)
            }
            Bi::SymObserve => { s.obs.push(a[0]); ok(0) }
            Bi::SymReach => { let k = a[0].v as u32; if !s.reach.contains(&k) { s.reach.push(k) } ok(0) }
            Bi::SymConcretize => { let v = self.conc(s, a[0])?; ok(v) }
            Bi::SymIsSym => ok((a[0].s != 0) as u64),
            // all globals are as they were at first, except for those given: a process of its own
            Bi::SymRestart => { s.mem.restart(self.sh.m, a[0].v, a[1].v); ok(0) }
            Bi::SymFail => Err(Stop::End("assert".into(), format!("{}", a[0].v))),
            Bi::Panic => {
                let mut loc = String::new();
                if let Some(v) = a.last() { if v.s == 0 && v.v >> 32 == KBASE >> 32 && (v.v - KBASE) + 24 <= s.mem.klen {
                    let p = s.mem.load(&mut self.cx, v.v, 8).v; let n = s.mem.load(&mut self.cx, v.v + 8, 8).v; let line = s.mem.load(&mut self.cx, v.v + 16, 4).v;
                    if n < 300 { let fl = self.cstr(s, p, n); loc = format!("{}:{}", fl, line) }
                } }
                s.mem.err = None;
                let nm = demangle(&decl.name);
                Err(Stop::End("panic".into(), format!("{} at {} in {}", nm, loc, demangle(&self.sh.m.fns[f.id as usize].name))))
            }
            Bi::Malloc => { if self.huge(s, a[0])? { return ok(0) } let n = self.conc(s, a[0])?; ok(s.mem.malloc(&mut self.cx, n, 16)) }
            Bi::Calloc => { if self.huge(s, a[0])? || self.huge(s, a[1])? { return ok(0) } let n = self.conc(s, a[0])?; let k = self.conc(s, a[1])?; let p = s.mem.malloc(&mut self.cx, n * k, 16); s.mem.set(&mut self.cx, p, Val::c(0), n * k); s.insts += n * k / 8; ok(p) }
            Bi::Realloc => {
                let p = self.conc(s, a[0])?; if self.huge(s, a[1])? { return ok(0) } let n = self.conc(s, a[1])?;
                if p == 0 { return ok(s.mem.malloc(&mut self.cx, n, 16)) }
                let o = s.mem.size_of(&mut self.cx, p); let q = s.mem.malloc(&mut self.cx, n, 16); s.mem.copy(q, p, o.min(n)); s.mem.dealloc(&mut self.cx, p); ok(q)
            }
            Bi::Memalign => { let al = self.conc(s, a[1])?; let n = self.conc(s, a[2])?; let p = s.mem.malloc(&mut self.cx, n, al); let slot = self.conc(s, a[0])?; s.mem.store(&mut self.cx, slot, 8, Val::c(p)); ok(0) }
            Bi::Free => { let p = self.conc(s, a[0])?; s.mem.dealloc(&mut self.cx, p); ok(0) }
            Bi::Memcpy => { let d = self.conc(s, a[0])?; let p = self.conc(s, a[1])?; let n = self.conc(s, a[2])?; s.mem.copy(d, p, n); ok(d) }
            Bi::Memset => { let d = self.conc(s, a[0])?; let n = self.conc(s, a[2])?; let v = if a[1].s == 0 { Val::c(a[1].v & 255) } else { let e = self.cx.extract(a[1].s, 0, 8); self.mkv(e) }; s.mem.set(&mut self.cx, d, v, n); ok(d) }
            Bi::Memcmp => {
                let p = self.conc(s, a[0])?; let q = self.conc(s, a[1])?; let n = self.conc(s, a[2])?;
                s.insts += n / 4;
                let mut r = Val::c(0);
                for k in (0..n).rev() {
                    let x = s.mem.load(&mut self.cx, p + k, 1); let y = s.mem.load(&mut self.cx, q + k, 1);
                    if x.s == 0 && y.s == 0 { if x.v != y.v { r = Val::c(if x.v < y.v { 0xffff_ffff } else { 1 }) } continue }
                    let eq = self.icmp(Pred::Eq, 8, x, y); let lt = self.icmp(Pred::Ult, 8, x, y);
                    let t = self.sel(32, lt, Val::c(0xffff_ffff), Val::c(1)); r = self.sel(32, eq, r, t);
                }
                Ok((r, Val::c(0)))
            }
            Bi::Strlen => { let p = self.conc(s, a[0])?; let mut n = 0; loop { let b = s.mem.load(&mut self.cx, p + n, 1); let b = self.conc(s, b)?; if b == 0 || s.mem.err.is_some() { break } n += 1 } ok(n) }
            Bi::Memchr => {
                let p = self.conc(s, a[0])?; let n = self.conc(s, a[2])?; let c = if a[1].s == 0 { Val::c(a[1].v & 255) } else { let e = self.cx.extract(a[1].s, 0, 8); self.mkv(e) };
                let mut r = Val::c(0);
                for k in (0..n).rev() { let x = s.mem.load(&mut self.cx, p + k, 1); let eq = self.icmp(Pred::Eq, 8, x, c); r = self.sel(64, eq, Val::c(p + k), r) }
                Ok((r, Val::c(0)))
            }
            Bi::HashKeys => Ok((Val::c(0x0706050403020100), Val::c(0x0f0e0d0c0b0a0908))),
            Bi::Getenv | Bi::Backtrace => ok(0),
            Bi::Write => ok(a[2].v),
            Bi::Getrandom => { let p = self.conc(s, a[0])?; let n = self.conc(s, a[1])?; s.mem.set(&mut self.cx, p, Val::c(7), n); ok(n) }
            Bi::Syscall => ok(0),
            Bi::ClockGettime => { let p = self.conc(s, a[1])?; s.mem.store(&mut self.cx, p, 8, Val::c(1_000_000)); s.mem.store(&mut self.cx, p + 8, 8, Val::c(0)); ok(0) }
            Bi::Errno => ok(GBASE + 8),
            Bi::Pow => { let x = self.conc(s, a[0])?; let y = self.conc(s, a[1])?; ok(f64::from_bits(x).powf(f64::from_bits(y)).to_bits()) }
            Bi::Exp => { let x = self.conc(s, a[0])?; ok(f64::from_bits(x).exp().to_bits()) }
            Bi::Log => { let x = self.conc(s, a[0])?; ok(f64::from_bits(x).ln().to_bits()) }
            Bi::Abort => Err(Stop::End("panic".into(), format!("abort in {}", demangle(&self.sh.m.fns[f.id as usize].name)))),
            Bi::Unknown => Err(Stop::End("unsupported".into(), format!("external {}", decl.name))),
            Bi::None | Bi::HashWrite => unreachable!(),
        }
    }
}
fn fbin(op: u8, w: u8, a: u64, b: u64) -> u64 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        return match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, 5 => x.powf(y), 6 => x.powi(b as i32), 7 => x.min(y), 8 => x.max(y), _ => x.copysign(y) }.to_bits() as u64;
    }
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, 5 => x.powf(y), 6 => x.powi(b as i32), 7 => x.min(y), 8 => x.max(y), _ => x.copysign(y) }.to_bits()
}
fn fl(w: u8, a: u64) -> f64 { if w == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a) } }
fn fcmp(p: FP, w: u8, a: u64, b: u64) -> u64 {
    let (x, y) = (fl(w, a), fl(w, b)); let u = x.is_nan() || y.is_nan();
    (match p { FP::False => false, FP::Oeq => x == y, FP::Ogt => x > y, FP::Oge => x >= y, FP::Olt => x < y, FP::Ole => x <= y, FP::One => !u && x != y, FP::Ord => !u, FP::Ueq => u || x == y, FP::Ugt => u || x > y, FP::Uge => u || x >= y, FP::Ult => u || x < y, FP::Ule => u || x <= y, FP::Une => u || x != y, FP::Uno => u, FP::True => true }) as u64
}
fn f2i(sg: bool, fw: u8, w: u8, a: u64) -> u64 {
    let x = fl(fw, a);
    if sg { let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; ((x as i128).clamp(lo, hi) as u64) & mask(w) } else { ((x as u128).min(mask(w) as u128)) as u64 }
}
fn fun1(op: Fun, w: u8, a: u64) -> u64 {
    let x = fl(w, a);
    let r = match op { Fun::Abs => x.abs(), Fun::Neg => -x, Fun::Sqrt => x.sqrt(), Fun::Floor => x.floor(), Fun::Ceil => x.ceil(), Fun::Trunc => x.trunc(), Fun::Round => x.round(), Fun::RoundEven | Fun::Rint => x.round_ties_even(), Fun::Exp => x.exp(), Fun::Log => x.ln(), Fun::Log2 => x.log2(), Fun::Log10 => x.log10(), Fun::Sin => x.sin(), Fun::Cos => x.cos() };
    if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }
}
fn fclass(m: u32, w: u8, a: u64) -> u64 {
    let x = fl(w, a);
    let neg = if w == 32 { a >> 31 & 1 == 1 } else { a >> 63 == 1 };
    use std::num::FpCategory::*;
    let c = if w == 32 { f32::from_bits(a as u32).classify() } else { x.classify() };
    let b = match c { Nan => { let q = if w == 32 { a >> 22 & 1 } else { a >> 51 & 1 }; if q == 1 { 1 } else { 0 } } Infinite => if neg { 2 } else { 9 }, Normal => if neg { 3 } else { 8 }, Subnormal => if neg { 4 } else { 7 }, Zero => if neg { 5 } else { 6 } };
    (m >> b & 1) as u64
}
pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let mut out = vec![]; let b = r.as_bytes(); let mut i = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            let mut k = 0; while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1 }
            if i + k > b.len() { return n.into() }
            out.push(&r[i..i + k]); i += k;
        }
        if out.len() > 1 && out.last().map_or(false, |l| l.len() == 17 && l.starts_with('h')) { out.pop(); }
        return out.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$u7b$", "{").replace("$u7d$", "}").replace("$RF$", "&").replace("$C$", ",").replace("$u5b$", "[").replace("$u5d$", "]").replace("..", "::");
    }
    n.into()
}
