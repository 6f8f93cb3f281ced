//! Hash-consed bit-vector terms, their simplifier, a concrete evaluator and the translation to Z3.
use crate::z3::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Zext, Sext, Extract, Concat, Not,
    FAdd, FSub, FMul, FDiv, FLt, FLe, FEq, FUno, U2F, S2F, F2U, F2S, FCeil, FFloor, FTrunc, FRoundAway, FRoundEven,
}
#[derive(Clone, Copy)]
pub struct Node { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E, pub v: u64, pub umin: u64, pub umax: u64, pub vars: u64 }

#[inline] pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline] pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

/// Concrete semantics of the binary bit-vector operations (total, as in SMT-LIB).
#[inline]
pub fn cbin(op: Op, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u64 & m }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); (if y == 0 { x } else { x.wrapping_rem(y) }) as u64 & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u64 { w as u64 - 1 } else { b }; (sx(a, w) >> s) as u64 & m }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, w) < sx(b, w)) as u64,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u64,
        Op::FAdd => (f64::from_bits(a) + f64::from_bits(b)).to_bits(),
        Op::FSub => (f64::from_bits(a) - f64::from_bits(b)).to_bits(),
        Op::FMul => (f64::from_bits(a) * f64::from_bits(b)).to_bits(),
        Op::FDiv => (f64::from_bits(a) / f64::from_bits(b)).to_bits(),
        Op::FLt => (f64::from_bits(a) < f64::from_bits(b)) as u64,
        Op::FLe => (f64::from_bits(a) <= f64::from_bits(b)) as u64,
        Op::FEq => (f64::from_bits(a) == f64::from_bits(b)) as u64,
        Op::FUno => (f64::from_bits(a).is_nan() || f64::from_bits(b).is_nan()) as u64,
        _ => unreachable!(),
    }
}
pub fn cun(op: Op, a: u64) -> u64 {
    let f = f64::from_bits(a);
    match op {
        Op::U2F => (a as f64).to_bits(),
        Op::S2F => (a as i64 as f64).to_bits(),
        Op::F2U => f as u64,
        Op::F2S => f as i64 as u64,
        Op::FCeil => f.ceil().to_bits(),
        Op::FFloor => f.floor().to_bits(),
        Op::FTrunc => f.trunc().to_bits(),
        Op::FRoundAway => f.round().to_bits(),
        Op::FRoundEven => f.round_ties_even().to_bits(),
        _ => unreachable!(),
    }
}
fn is_pred(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FLt | Op::FLe | Op::FEq | Op::FUno) }
fn is_f(op: Op) -> bool { op as u8 >= Op::FAdd as u8 }

pub struct Ctx2 {
    pub n: Vec<Node>,
    tab: FxMap<(Op, u8, E, E, E, u64), E>,
    memo: Vec<(u64, u32)>,
    gen: u32,
    /// parts of expressions that were pushed down into operands
    parts: FxMap<(E, u8, u8), E>,
}
impl Ctx2 {
    pub fn new() -> Self {
        let z = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, v: 0, umin: 0, umax: 0, vars: 0 };
        Ctx2 { n: vec![z], tab: Default::default(), memo: vec![(0, 0)], gen: 1, parts: Default::default() }
    }
    #[inline] pub fn w(&self, e: E) -> u8 { self.n[e as usize].w }
    #[inline] pub fn vars(&self, e: E) -> u64 { self.n[e as usize].vars }
    #[inline] pub fn cv(&self, e: E) -> Option<u64> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.v) } else { None } }
    fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, v: u64) -> E {
        if let Some(&e) = self.tab.get(&(op, w, a, b, c, v)) { return e }
        let vars = match op { Op::Const => 0, Op::Var => 1u64 << (v % 64), _ => self.n[a as usize].vars | self.n[b as usize].vars | self.n[c as usize].vars };
        let (umin, umax) = self.range(op, w, a, b, c, v);
        let e = self.n.len() as E;
        self.n.push(Node { op, w, a, b, c, v, umin, umax, vars });
        self.memo.push((0, 0));
        self.tab.insert((op, w, a, b, c, v), e);
        e
    }
    fn range(&self, op: Op, w: u8, a: E, b: E, c: E, v: u64) -> (u64, u64) {
        let m = mask(w);
        let r = |e: E| (self.n[e as usize].umin, self.n[e as usize].umax);
        let (al, ah) = r(a); let (bl, bh) = r(b);
        match op {
            Op::Const => (v, v),
            Op::Zext => (al, ah),
            Op::Ite => { let (cl, ch) = r(c); (bl.min(cl), bh.max(ch)) }
            Op::Add => match ah.checked_add(bh) { Some(h) if h <= m => (al + bl, h), _ => (0, m) },
            Op::Sub => if al >= bh { (al - bh, ah - bl) } else { (0, m) },
            Op::Mul => match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) },
            Op::And => (0, ah.min(bh)),
            Op::Or => { let t = ah | bh; let top = if t == 0 { 0 } else { !0u64 >> t.leading_zeros() }; (al.max(bl), top & m) }
            Op::Xor => { let t = ah | bh; (0, if t == 0 { 0 } else { (!0u64 >> t.leading_zeros()) & m }) }
            Op::UDiv => if bl > 0 { (al / bh, ah / bl) } else { (0, m) },
            Op::URem => if bl > 0 { (0, ah.min(bh - 1)) } else { (0, m) },
            Op::LShr => if bl == bh { if bl >= w as u64 { (0, 0) } else { (al >> bl, ah >> bl) } } else { (0, ah) },
            Op::Shl => if bl == bh && bl < w as u64 && ah <= (m >> bl) { (al << bl, ah << bl) } else { (0, m) },
            Op::Concat => { let wb = self.n[b as usize].w; ((al << wb) | bl, (ah << wb) | bh) }
            Op::Extract => if v == 0 && ah <= m { (al, ah) } else if (ah >> v) <= m { (al >> v, ah >> v) } else { (0, m) },
            _ => (0, m),
        }
    }
    pub fn c(&mut self, w: u8, v: u64) -> E { self.mk(Op::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn var(&mut self, idx: u32, w: u8) -> E { self.mk(Op::Var, w, 0, 0, 0, idx as u64) }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        debug_assert_eq!(n.w, 1);
        match n.op {
            Op::Const => self.c(1, n.v ^ 1),
            Op::Not => n.a,
            Op::Ult => self.mk(Op::Ule, 1, n.b, n.a, 0, 0),
            Op::Ule => self.mk(Op::Ult, 1, n.b, n.a, 0, 0),
            Op::Slt => self.mk(Op::Sle, 1, n.b, n.a, 0, 0),
            Op::Sle => self.mk(Op::Slt, 1, n.b, n.a, 0, 0),
            _ => self.mk(Op::Not, 1, a, 0, 0, 0),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a }
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b } }
        let w = self.w(a);
        if self.n[c as usize].op == Op::Not { let d = self.n[c as usize].a; return self.ite(d, b, a) }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, b) }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a) }
                _ => {}
            }
            if a == c { return self.bin(Op::Or, c, b) }
            if b == c { return self.bin(Op::And, c, a) }
        } else if let (Some(1), Some(0)) = (self.cv(a), self.cv(b)) { return self.zext(c, w) }
        // ite(c, ite(c,x,y), z) -> ite(c,x,z)
        let na = self.n[a as usize]; if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b) }
        let nb = self.n[b as usize]; if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c) }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a }
        match n.op { Op::Const => self.c(w, n.v), Op::Zext => self.mk(Op::Zext, w, n.a, 0, 0, 0), _ => self.mk(Op::Zext, w, a, 0, 0, 0) }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a }
        match n.op {
            Op::Const => self.c(w, sx(n.v, n.w) as u64),
            Op::Zext => self.mk(Op::Zext, w, n.a, 0, 0, 0),
            _ if n.w == 1 => { let x = self.c(w, !0); let y = self.c(w, 0); self.mk(Op::Ite, w, a, x, y, 0) }
            _ => self.mk(Op::Sext, w, a, 0, 0, 0),
        }
    }
    /// bits [lo, lo+w) of a
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n[a as usize];
        if lo == 0 && n.w == w { return a }
        if !matches!(n.op, Op::Ite | Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul) { return self.extract1(a, lo, w) }
        if let Some(&r) = self.parts.get(&(a, lo, w)) { return r }
        let r = self.extract1(a, lo, w);
        self.parts.insert((a, lo, w), r); r
    }
    fn extract1(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => return self.c(w, n.v >> lo),
            Op::Extract => return self.extract(n.a, n.v as u8 + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb { return self.extract(n.b, lo, w) }
                if lo >= wb { return self.extract(n.a, lo - wb, w) }
            }
            Op::Zext => {
                let wa = self.w(n.a);
                if lo >= wa { return self.c(w, 0) }
                if lo + w <= wa { return self.extract(n.a, lo, w) }
                let x = if lo == 0 { n.a } else { self.extract(n.a, lo, wa - lo) };
                return self.zext(x, w);
            }
            Op::Sext => { let wa = self.w(n.a); if lo + w <= wa { return self.extract(n.a, lo, w) } }
            Op::Ite => {
                let (ca, cb) = (self.cv(n.b), self.cv(n.c));
                if ca.is_some() || cb.is_some() { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y) }
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y) }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                if self.cv(n.b).is_some() || self.cv(n.a).is_some() { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y) }
            }
            Op::LShr => if let Some(k) = self.cv(n.b) { if k + lo as u64 + w as u64 <= n.w as u64 { return self.extract(n.a, lo + k as u8, w) } },
            Op::Shl => if let Some(k) = self.cv(n.b) {
                if lo as u64 >= k { return self.extract_shl(n.a, lo - k as u8, w, n.w) }
                if (lo + w) as u64 <= k { return self.c(w, 0) }
            },
            _ => {}
        }
        if (n.umax >> lo) == 0 { return self.c(w, 0) }
        self.mk(Op::Extract, w, a, 0, 0, lo as u64)
    }
    fn extract_shl(&mut self, a: E, lo: u8, w: u8, _full: u8) -> E { self.extract(a, lo, w) }
    /// a is the high part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w + nb.w;
        if na.op == Op::Const && nb.op == Op::Const { return self.c(w, (na.v << nb.w) | nb.v) }
        if na.op == Op::Const && na.v == 0 { return self.zext(b, w) }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.v == nb.v + nb.w as u64 { return self.extract(na.a, nb.v as u8, w) }
        if na.op == Op::Zext && nb.op == Op::Extract {
            // zext(extract(x, lo..)) ++ extract(x, ..lo)
            let ni = self.n[na.a as usize];
            if ni.op == Op::Extract && ni.a == nb.a && ni.v == nb.v + nb.w as u64 { let x = self.extract(nb.a, nb.v as u8, nb.w + ni.w); return self.zext(x, w) }
        }
        // (x ++ y) ++ b where y,b adjacent
        if na.op == Op::Concat && nb.op == Op::Extract {
            let y = self.n[na.b as usize];
            if y.op == Op::Extract && y.a == nb.a && y.v == nb.v + nb.w as u64 { let m = self.extract(nb.a, nb.v as u8, y.w + nb.w); return self.concat(na.a, m) }
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn un(&mut self, op: Op, a: E, w: u8) -> E {
        if let Some(v) = self.cv(a) { return self.c(w, cun(op, v)) }
        self.mk(op, w, a, 0, 0, 0)
    }
    pub fn eqc(&mut self, a: E, v: u64) -> E { let w = self.w(a); let k = self.c(w, v); self.bin(Op::Eq, a, k) }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        let rw = if is_pred(op) { 1 } else { w };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.c(rw, cbin(op, w, x, y)) }
        if is_f(op) { return self.mk(op, rw, a, b, 0, 0) }
        let m = mask(w);
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) { std::mem::swap(&mut a, &mut b) }
        let (ca, cb) = (self.cv(a), self.cv(b));
        let na = self.n[a as usize]; let nb = self.n[b as usize];
        match op {
            Op::Add => {
                if cb == Some(0) { return a }
                if w == 1 { return self.bin(Op::Xor, a, b) }
                if let Some(y) = cb { if na.op == Op::Add { if let Some(x) = self.cv(na.b) { let k = self.c(w, x.wrapping_add(y)); return self.bin(Op::Add, na.a, k) } } }
                if na.op == Op::Sub && na.b == b { return na.a }
            }
            Op::Sub => {
                if a == b { return self.c(w, 0) }
                if let Some(y) = cb { let k = self.c(w, y.wrapping_neg()); return self.bin(Op::Add, a, k) }
                if w == 1 { return self.bin(Op::Xor, a, b) }
                if na.op == Op::Add && na.b == b { return na.a }
                if na.op == Op::Add && na.a == b { return na.b }
            }
            Op::Mul => { if cb == Some(0) { return b } if cb == Some(1) { return a }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u64); return self.bin(Op::Shl, a, k) } } }
            Op::UDiv => { if cb == Some(1) { return a } if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u64); return self.bin(Op::LShr, a, k) } } }
            Op::URem => { if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y - 1); return self.bin(Op::And, a, k) } if na.umax < y { return a } } }
            Op::And => {
                if a == b { return a }
                if cb == Some(0) { return b }
                if cb == Some(m) { return a }
                if w == 1 { if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.c(1, 0) } }
                if let Some(y) = cb {
                    if y.wrapping_add(1).is_power_of_two() && na.umax <= y { return a }
                    if na.op == Op::And { if let Some(x) = self.cv(na.b) { let k = self.c(w, x & y); return self.bin(Op::And, na.a, k) } }
                    if na.op == Op::Zext { let wa = self.w(na.a); let k = self.c(wa, y); let t = self.bin(Op::And, na.a, k); return self.zext(t, w) }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() { let x = self.bin(op, na.b, b); let z = self.bin(op, na.c, b); return self.ite(na.a, x, z) }
                    if y == 1 && w > 1 { let t = self.extract(a, 0, 1); return self.zext(t, w) }
                } else if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { let t = self.bin(op, na.a, nb.a); return self.zext(t, w) }
            }
            Op::Or => {
                if a == b { return a }
                if cb == Some(0) { return a }
                if cb == Some(m) { return b }
                if w == 1 { if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.c(1, 1) } }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { let t = self.bin(op, na.a, nb.a); return self.zext(t, w) }
            }
            Op::Xor => {
                if a == b { return self.c(w, 0) }
                if cb == Some(0) { return a }
                if w == 1 && cb == Some(1) { return self.not(a) }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { let t = self.bin(op, na.a, nb.a); return self.zext(t, w) }
                if let Some(y) = cb { if na.op == Op::Zext && self.w(na.a) == 1 && y == 1 { let t = self.not(na.a); return self.zext(t, w) }
                    if na.op == Op::Xor { if let Some(x) = self.cv(na.b) { let k = self.c(w, x ^ y); return self.bin(Op::Xor, na.a, k) } } }
            }
            Op::Shl | Op::LShr => {
                if cb == Some(0) { return a }
                if ca == Some(0) { return a }
                if let Some(y) = cb {
                    if y >= w as u64 { return self.c(w, 0) }
                    if op == Op::LShr { let t = self.extract(a, y as u8, w - y as u8); return self.zext(t, w) }
                    if op == Op::Shl { let t = self.extract(a, 0, w - y as u8); let z = self.c(y as u8, 0); return self.concat(t, z) }
                }
            }
            Op::AShr => { if cb == Some(0) { return a } if ca == Some(0) { return a } if na.umax <= m >> 1 { return self.bin(Op::LShr, a, b) } }
            Op::Eq => {
                if a == b { return self.c(1, 1) }
                if na.umax < nb.umin || nb.umax < na.umin { return self.c(1, 0) }
                if let Some(y) = cb {
                    if w == 1 { return if y == 1 { a } else { self.not(a) } }
                    match na.op {
                        Op::Zext => { let wa = self.w(na.a); let k = self.c(wa, y); return self.bin(Op::Eq, na.a, k) }
                        Op::Ite => { if self.cv(na.b).is_some() || self.cv(na.c).is_some() { let x = self.bin(Op::Eq, na.b, b); let z = self.bin(Op::Eq, na.c, b); return self.ite(na.a, x, z) } }
                        Op::Add => if let Some(x) = self.cv(na.b) { let k = self.c(w, y.wrapping_sub(x)); return self.bin(Op::Eq, na.a, k) },
                        Op::Xor => if let Some(x) = self.cv(na.b) { let k = self.c(w, y ^ x); return self.bin(Op::Eq, na.a, k) },
                        Op::Concat => {
                            let wb = self.w(na.b); let wa = self.w(na.a);
                            let k1 = self.c(wa, y >> wb); let k2 = self.c(wb, y);
                            let x = self.bin(Op::Eq, na.a, k1); let z = self.bin(Op::Eq, na.b, k2);
                            return self.bin(Op::And, x, z);
                        }
                        Op::Or if y == 0 => { let z = self.c(w, 0); let x = self.bin(Op::Eq, na.a, z); let t = self.bin(Op::Eq, na.b, z); return self.bin(Op::And, x, t) }
                        _ => {}
                    }
                }
                if w == 1 { if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.c(1, 0) } }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a) }
            }
            Op::Ult => {
                if a == b { return self.c(1, 0) }
                if na.umax < nb.umin { return self.c(1, 1) }
                if na.umin >= nb.umax { return self.c(1, 0) }
                if cb == Some(1) { return self.eqc(a, 0) }
                if ca == Some(0) { let t = self.eqc(b, 0); return self.not(t) }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a) }
                if let (Op::Zext, Some(y)) = (na.op, cb) { let wa = self.w(na.a); if y <= mask(wa) { let k = self.c(wa, y); return self.bin(op, na.a, k) } }
                if let (Op::Zext, Some(x)) = (nb.op, ca) { let wb = self.w(nb.a); if x <= mask(wb) { let k = self.c(wb, x); return self.bin(op, k, nb.a) } }
                if w == 1 { let na_ = self.not(a); return self.bin(Op::And, na_, b) }
            }
            Op::Ule => {
                if a == b { return self.c(1, 1) }
                if na.umax <= nb.umin { return self.c(1, 1) }
                if na.umin > nb.umax { return self.c(1, 0) }
                if cb == Some(0) { return self.eqc(a, 0) }
                if ca == Some(1) { let t = self.eqc(b, 0); return self.not(t) }
                if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a) }
                if let (Op::Zext, Some(y)) = (na.op, cb) { let wa = self.w(na.a); if y <= mask(wa) { let k = self.c(wa, y); return self.bin(op, na.a, k) } }
                if let (Op::Zext, Some(x)) = (nb.op, ca) { let wb = self.w(nb.a); if x <= mask(wb) { let k = self.c(wb, x); return self.bin(op, k, nb.a) } }
                if w == 1 { let na_ = self.not(a); return self.bin(Op::Or, na_, b) }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c(1, (op == Op::Sle) as u64) }
                let h = m >> 1;
                if na.umax <= h && nb.umax <= h { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b) }
                // sign test
                if op == Op::Slt && cb == Some(0) { return self.extract(a, w - 1, 1) }
                if op == Op::Sle && ca == Some(0) { let t = self.extract(b, w - 1, 1); return self.not(t) }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    /// Rebuild `e` with some inputs replaced by the constants the path condition gives them.
    pub fn subst(&mut self, e: E, map: &FxMap<E, E>, mv: u64, memo: &mut FxMap<E, E>) -> E {
        let n = self.n[e as usize];
        if n.vars & mv == 0 { return e }
        if n.op == Op::Var { return map.get(&e).copied().unwrap_or(e) }
        if let Some(&r) = memo.get(&e) { return r }
        let r = match n.op {
            Op::Ite => { let c = self.subst(n.a, map, mv, memo); match self.cv(c) { Some(1) => self.subst(n.b, map, mv, memo), Some(_) => self.subst(n.c, map, mv, memo), None => { let a = self.subst(n.b, map, mv, memo); let b = self.subst(n.c, map, mv, memo); self.ite(c, a, b) } } }
            Op::Zext => { let a = self.subst(n.a, map, mv, memo); self.zext(a, n.w) }
            Op::Sext => { let a = self.subst(n.a, map, mv, memo); self.sext(a, n.w) }
            Op::Extract => { let a = self.subst(n.a, map, mv, memo); self.extract(a, n.v as u8, n.w) }
            Op::Concat => { let a = self.subst(n.a, map, mv, memo); let b = self.subst(n.b, map, mv, memo); self.concat(a, b) }
            Op::Not => { let a = self.subst(n.a, map, mv, memo); self.not(a) }
            Op::U2F | Op::S2F | Op::F2U | Op::F2S | Op::FCeil | Op::FFloor | Op::FTrunc | Op::FRoundAway | Op::FRoundEven => { let a = self.subst(n.a, map, mv, memo); self.un(n.op, a, n.w) }
            _ => { let a = self.subst(n.a, map, mv, memo); let b = self.subst(n.b, map, mv, memo); self.bin(n.op, a, b) }
        };
        memo.insert(e, r);
        r
    }
    pub fn new_gen(&mut self) { self.gen = self.gen.wrapping_add(1); if self.gen == 0 { self.gen = 1; for m in &mut self.memo { m.1 = 0 } } }
    /// Evaluate under an assignment of the inputs. Call new_gen() whenever the assignment changes.
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        let (v, g) = self.memo[e as usize];
        if g == self.gen { return v }
        let n = self.n[e as usize];
        let r = match n.op {
            Op::Const => n.v,
            Op::Var => model.get(n.v as usize).copied().unwrap_or(0) & mask(n.w),
            Op::Ite => if self.eval(n.a, model) == 1 { self.eval(n.b, model) } else { self.eval(n.c, model) },
            Op::Zext => self.eval(n.a, model),
            Op::Sext => { let w = self.w(n.a); sx(self.eval(n.a, model), w) as u64 & mask(n.w) }
            Op::Extract => (self.eval(n.a, model) >> n.v) & mask(n.w),
            Op::Concat => { let wb = self.w(n.b); (self.eval(n.a, model) << wb) | self.eval(n.b, model) }
            Op::Not => self.eval(n.a, model) ^ 1,
            Op::U2F | Op::S2F | Op::F2U | Op::F2S | Op::FCeil | Op::FFloor | Op::FTrunc | Op::FRoundAway | Op::FRoundEven => { let v = self.eval(n.a, model); cun(n.op, v) }
            _ => { let x = self.eval(n.a, model); let y = self.eval(n.b, model); let w = self.w(n.a); cbin(n.op, w, x, y) }
        };
        self.memo[e as usize] = (r, self.gen);
        r
    }
    pub fn collect_vars(&self, e: E, seen: &mut FxMap<E, ()>, out: &mut Vec<E>) {
        if e == 0 || self.n[e as usize].vars == 0 || seen.insert(e, ()).is_some() { return }
        let n = self.n[e as usize];
        if n.op == Op::Var { out.push(e); return }
        self.collect_vars(n.a, seen, out); self.collect_vars(n.b, seen, out); self.collect_vars(n.c, seen, out);
    }
}

#[derive(Clone, PartialEq)]
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Smt {
    cx: Ctx, solver: Solver, params: Params, fptac: *mut std::os::raw::c_void, ast: Vec<Ast>, fpast: FxMap<E, Ast>, isf: FxMap<E, bool>, bsort: Sort, timeout_ms: u32,
    cache: FxMap<Box<[E]>, Res>,
    pub queries: u64, pub hits: u64, pub time: f64, pub unknown: u64, pub sat: u64, pub unsat: u64,
}
extern "C" fn onerr(c: Ctx, e: i32) { unsafe { eprintln!("z3 error: {:?}", std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e))); } }
/// cvc5 is faster at refuting floating-point queries; whatever it does not refute goes to z3
fn cvc5_unsat(text: &str, timeout_ms: u32) -> bool {
    use std::io::Write;
    use std::process::*;
    let Ok(mut p) = Command::new("cvc5").args(["--lang", "smt2", "--tlimit", &timeout_ms.to_string(), "-"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { return false };
    let t = format!("(set-logic QF_BVFP)\n{}\n(check-sat)\n", text);
    if let Some(mut i) = p.stdin.take() { let _ = i.write_all(t.as_bytes()); }
    p.wait_with_output().map_or(false, |o| o.stdout.starts_with(b"unsat"))
}
pub fn z3_version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
impl Smt {
    pub fn new(timeout_ms: u32) -> Self { unsafe {
        let cfg = Z3_mk_config();
        let cx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(cx, onerr);
        let solver = Z3_mk_simple_solver(cx);
        Z3_solver_inc_ref(cx, solver);
        let p = Z3_mk_params(cx); Z3_params_inc_ref(cx, p);
        Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, b"timeout\0".as_ptr() as *const _), timeout_ms);
        Z3_solver_set_params(cx, solver, p);
        let bsort = Z3_mk_bool_sort(cx);
        let fptac = Z3_mk_tactic(cx, b"qffpbv\0".as_ptr() as *const _); Z3_tactic_inc_ref(cx, fptac);
        Smt { cx, solver, params: p, fptac, ast: vec![], fpast: Default::default(), isf: Default::default(), bsort, timeout_ms, cache: Default::default(), queries: 0, hits: 0, time: 0.0, unknown: 0, sat: 0, unsat: 0 }
    } }
    fn bv(&mut self, x: &Ctx2, e: E) -> Ast { unsafe {
        let a = self.tr(x, e);
        if x.w(e) == 1 { let s = Z3_mk_bv_sort(self.cx, 1); let o = Z3_mk_unsigned_int64(self.cx, 1, s); let z = Z3_mk_unsigned_int64(self.cx, 0, s); Z3_mk_ite(self.cx, a, o, z) } else { a }
    } }
    /// a 64-bit term as a floating-point number
    fn fp(&mut self, x: &Ctx2, e: E) -> Ast { unsafe {
        if let Some(&a) = self.fpast.get(&e) { return a }
        let c = self.cx; let n = x.n[e as usize];
        let fs = Z3_mk_fpa_sort_64(c); let rne = Z3_mk_fpa_round_nearest_ties_to_even(c);
        let r = match n.op {
            Op::U2F => { let a = self.bv(x, n.a); Z3_mk_fpa_to_fp_unsigned(c, rne, a, fs) }
            Op::S2F => { let a = self.bv(x, n.a); Z3_mk_fpa_to_fp_signed(c, rne, a, fs) }
            Op::FCeil | Op::FFloor | Op::FTrunc | Op::FRoundAway | Op::FRoundEven => {
                let a = self.fp(x, n.a);
                let rm = match n.op { Op::FCeil => Z3_mk_fpa_round_toward_positive(c), Op::FFloor => Z3_mk_fpa_round_toward_negative(c), Op::FTrunc => Z3_mk_fpa_round_toward_zero(c), Op::FRoundAway => Z3_mk_fpa_round_nearest_ties_to_away(c), _ => rne };
                Z3_mk_fpa_round_to_integral(c, rm, a)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let a = self.fp(x, n.a); let b = self.fp(x, n.b);
                match n.op { Op::FAdd => Z3_mk_fpa_add(c, rne, a, b), Op::FSub => Z3_mk_fpa_sub(c, rne, a, b), Op::FMul => Z3_mk_fpa_mul(c, rne, a, b), _ => Z3_mk_fpa_div(c, rne, a, b) }
            }
            _ => { let a = self.tr(x, e); Z3_mk_fpa_to_fp_bv(c, a, fs) }
        };
        Z3_inc_ref(c, r);
        self.fpast.insert(e, r);
        r
    } }
    /// does the term compute with floating-point numbers?
    fn floats(&mut self, x: &Ctx2, e: E) -> bool {
        if e == 0 { return false }
        let n = x.n[e as usize];
        if n.vars == 0 || n.op == Op::Var { return false }
        if is_f(n.op) { return true }
        if let Some(&r) = self.isf.get(&e) { return r }
        let r = self.floats(x, n.a) || !matches!(n.op, Op::Extract | Op::Zext | Op::Sext | Op::Not) && (self.floats(x, n.b) || self.floats(x, n.c));
        self.isf.insert(e, r);
        r
    }
    /// width-1 terms are translated to Bool, everything else to BitVec
    fn tr(&mut self, x: &Ctx2, e: E) -> Ast { unsafe {
        if (e as usize) < self.ast.len() { let a = self.ast[e as usize]; if !a.is_null() { return a } }
        let c = self.cx;
        let n = x.n[e as usize];
        let b1 = n.w == 1;
        let bvs = |w: u8| Z3_mk_bv_sort(c, w as u32);
        let r = match n.op {
            Op::Const => if b1 { if n.v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { Z3_mk_unsigned_int64(c, n.v, bvs(n.w)) },
            Op::Var => { let s = Z3_mk_int_symbol(c, n.v as i32 * 128 + n.w as i32); Z3_mk_const(c, s, if b1 { self.bsort } else { bvs(n.w) }) }
            Op::Not => { let a = self.tr(x, n.a); Z3_mk_not(c, a) }
            Op::Ite => { let p = self.tr(x, n.a); let a = self.tr(x, n.b); let b = self.tr(x, n.c); Z3_mk_ite(c, p, a, b) }
            Op::Zext => {
                let wa = x.w(n.a);
                if wa == 1 { let p = self.tr(x, n.a); let o = Z3_mk_unsigned_int64(c, 1, bvs(n.w)); let z = Z3_mk_unsigned_int64(c, 0, bvs(n.w)); Z3_mk_ite(c, p, o, z) }
                else { let a = self.tr(x, n.a); Z3_mk_zero_ext(c, (n.w - wa) as u32, a) }
            }
            Op::Sext => { let a = self.bv(x, n.a); Z3_mk_sign_ext(c, (n.w - x.w(n.a)) as u32, a) }
            Op::Extract => {
                let a = self.tr(x, n.a);
                let r = Z3_mk_extract(c, n.v as u32 + n.w as u32 - 1, n.v as u32, a);
                if b1 { Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, bvs(1))) } else { r }
            }
            Op::Concat => { let a = self.bv(x, n.a); let b = self.bv(x, n.b); Z3_mk_concat(c, a, b) }
            Op::And | Op::Or | Op::Xor if b1 => {
                let a = self.tr(x, n.a); let b = self.tr(x, n.b); let v = [a, b];
                match n.op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, a, b) }
            }
            Op::F2U | Op::F2S => { let a = self.fp(x, n.a); let rtz = Z3_mk_fpa_round_toward_zero(c); if n.op == Op::F2U { Z3_mk_fpa_to_ubv(c, rtz, a, 64) } else { Z3_mk_fpa_to_sbv(c, rtz, a, 64) } }
            Op::FLt | Op::FLe | Op::FEq | Op::FUno => {
                let a = self.fp(x, n.a); let b = self.fp(x, n.b);
                match n.op { Op::FLt => Z3_mk_fpa_lt(c, a, b), Op::FLe => Z3_mk_fpa_leq(c, a, b), Op::FEq => Z3_mk_fpa_eq(c, a, b), _ => { let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)]; Z3_mk_or(c, 2, v.as_ptr()) } }
            }
            op if is_f(op) => { let a = self.fp(x, e); Z3_mk_fpa_to_ieee_bv(c, a) }
            op => {
                let a = if op == Op::Eq { self.tr(x, n.a) } else { self.bv(x, n.a) };
                let b = if op == Op::Eq { self.tr(x, n.b) } else { self.bv(x, n.b) };
                let r = match op {
                    Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Eq => Z3_mk_eq(c, a, b), Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b), Op::Sle => Z3_mk_bvsle(c, a, b),
                    _ => unreachable!(),
                };
                if b1 && !is_pred(op) { Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, bvs(1))) } else { r }
            }
        };
        Z3_inc_ref(c, r);
        if self.ast.len() <= e as usize { self.ast.resize(x.n.len().max(e as usize + 1), std::ptr::null_mut()) }
        self.ast[e as usize] = r;
        r
    } }
    /// Is the conjunction of `cs` satisfiable? `cs` must be sorted (it is the cache key).
    pub fn check(&mut self, x: &Ctx2, cs: &[E]) -> Res { unsafe {
        if let Some(r) = self.cache.get(cs) { self.hits += 1; return r.clone() }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        // floating-point arithmetic goes to a solver of its own that bit-blasts the whole query
        let mut f = false; for &e in cs { f |= self.floats(x, e) }
        let solver = if f { let s = Z3_mk_solver_from_tactic(self.cx, self.fptac); Z3_solver_inc_ref(self.cx, s); Z3_solver_set_params(self.cx, s, self.params); s } else { Z3_solver_push(self.cx, self.solver); self.solver };
        for &e in cs { let a = self.tr(x, e); Z3_solver_assert(self.cx, solver, a) }
        let r = if f && cvc5_unsat(&std::ffi::CStr::from_ptr(Z3_solver_to_string(self.cx, solver)).to_string_lossy(), self.timeout_ms) { -1 } else { Z3_solver_check(self.cx, solver) };
        let res = if r == 1 {
            self.sat += 1;
            let m = Z3_solver_get_model(self.cx, solver);
            Z3_model_inc_ref(self.cx, m);
            let mut seen = Default::default(); let mut vs = vec![];
            for &e in cs { x.collect_vars(e, &mut seen, &mut vs) }
            let mut out = vec![];
            for v in vs {
                let a = self.tr(x, v);
                let mut o: Ast = std::ptr::null_mut();
                if Z3_model_eval(self.cx, m, a, true, &mut o) {
                    let n = x.n[v as usize];
                    let mut val = 0u64;
                    if n.w == 1 { val = (Z3_get_bool_value(self.cx, o) == 1) as u64 } else { Z3_get_numeral_uint64(self.cx, o, &mut val); }
                    out.push((n.v as u32, val));
                }
            }
            Z3_model_dec_ref(self.cx, m);
            Res::Sat(out)
        } else if r == -1 { self.unsat += 1; Res::Unsat } else { self.unknown += 1; Res::Unknown };
        if f { Z3_solver_dec_ref(self.cx, solver) } else { Z3_solver_pop(self.cx, self.solver, 1) }
        self.time += t0.elapsed().as_secs_f64();
        self.cache.insert(cs.into(), res.clone());
        res
    } }
    pub fn smt2(&mut self, x: &Ctx2, cs: &[E]) -> String { unsafe {
        Z3_solver_push(self.cx, self.solver);
        for &e in cs { let a = self.tr(x, e); Z3_solver_assert(self.cx, self.solver, a) }
        let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.cx, self.solver)).to_string_lossy().into_owned();
        Z3_solver_pop(self.cx, self.solver, 1);
        s
    } }
    pub fn cache_len(&self) -> usize { self.cache.len() }
}
impl Drop for Smt { fn drop(&mut self) { unsafe { Z3_del_context(self.cx) } } }
