//! Byte-addressed copy-on-write memory with optional symbolic shadow bytes.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub const PS: usize = 1024;
const PB: u32 = 10;
#[derive(Clone)]
pub struct Shadow { e: [E; PS], i: [u8; PS] }
#[derive(Clone)]
pub struct Page { d: [u8; PS], sh: Option<Box<Shadow>> }
#[derive(Clone, Copy, Debug)]
pub struct Val { pub v: u64, pub s: E }
impl Val { #[inline] pub fn c(v: u64) -> Val { Val { v, s: 0 } } }

#[derive(Clone)]
pub struct Mem {
    reg: [Vec<Option<Rc<Page>>>; 3], // globals, stack, heap
    pub kimg: *const u8, pub klen: u64,
    pub hp: u64,
    free: Vec<Vec<u64>>,
    pub err: Option<String>,
}
impl Mem {
    pub fn new(m: &Module) -> Mem {
        let mut me = Mem { reg: [vec![], vec![], vec![]], kimg: m.kimg.as_ptr(), klen: m.kimg.len() as u64, hp: HBASE + 64, free: vec![vec![]; 40], err: None };
        me.globals(m);
        me
    }
    fn globals(&mut self, m: &Module) {
        self.reg[0] = m.gimg.chunks(PS).map(|ch| { let mut p = Page { d: [0; PS], sh: None }; p.d[..ch.len()].copy_from_slice(ch); Some(Rc::new(p)) }).collect()
    }
    pub fn restart(&mut self, m: &Module, keep: u64, n: u64) {
        let kept: Vec<(u8, E, u8)> = (keep..keep + n).map(|a| self.byte(a)).collect();
        self.globals(m);
        for (k, b) in kept.iter().enumerate() {
            let a = keep + k as u64;
            if b.1 != 0 { self.err = Some("a symbolic value survives a restart".into()); continue }
            match self.page_mut(a) { Some(p) => p.d[(a & (PS as u64 - 1)) as usize] = b.0, None => self.fault(a) }
        }
    }
    #[inline]
    fn slot(&self, a: u64) -> Option<(usize, usize)> {
        let r = (a >> 32) as usize;
        if r >= 1 && r <= 3 { Some((r - 1, ((a & 0xffff_ffff) >> PB) as usize)) } else { None }
    }
    fn fault(&mut self, a: u64) { if self.err.is_none() { self.err = Some(format!("invalid memory access at {:#x}", a)) } }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> { let (r, p) = self.slot(a)?; self.reg[r].get(p).and_then(|x| x.as_deref()) }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let (r, p) = self.slot(a)?;
        let v = &mut self.reg[r];
        if p >= v.len() { if p > 2_000_000 { return None } v.resize(p + 1, None) }
        let s = &mut v[p];
        if s.is_none() { if r == 0 { return None } *s = Some(Rc::new(Page { d: [0; PS], sh: None })) }
        Some(Rc::make_mut(s.as_mut().unwrap()))
    }
    #[inline]
    pub fn load(&mut self, cx: &mut Ctx2, a: u64, n: usize) -> Val {
        if a >> 32 == KBASE >> 32 {
            let o = a - KBASE;
            if o + n as u64 > self.klen { self.fault(a); return Val::c(0) }
            let mut b = [0u8; 8];
            unsafe { std::ptr::copy_nonoverlapping(self.kimg.add(o as usize), b.as_mut_ptr(), n) }
            return Val::c(u64::from_le_bytes(b));
        }
        let o = (a & (PS as u64 - 1)) as usize;
        if o + n <= PS {
            if let Some(p) = self.page(a) {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&p.d[o..o + n]);
                match &p.sh {
                    None => return Val::c(u64::from_le_bytes(b)),
                    Some(sh) => {
                        if sh.e[o..o + n].iter().all(|e| *e == 0) { return Val::c(u64::from_le_bytes(b)) }
                        let e0 = sh.e[o];
                        if e0 != 0 && cx.w(e0) as usize == n * 8 && (0..n).all(|k| sh.e[o + k] == e0 && sh.i[o + k] as usize == k) { return Val { v: 0, s: e0 } }
                    }
                }
            } else if self.slot(a).map_or(true, |(r, p)| r == 0 || p > 2_000_000) { self.fault(a); return Val::c(0) } else { return Val::c(0) }
        }
        // general path
        let mut acc: Option<E> = None; let mut any = false; let mut cv = 0u64;
        let bytes: Vec<(u8, E, u8)> = (0..n).map(|k| self.byte(a + k as u64)).collect();
        for (k, b) in bytes.iter().enumerate() { if b.1 != 0 { any = true } else { cv |= (b.0 as u64) << (8 * k) } }
        if !any { return Val::c(cv) }
        // group runs of the same expression
        let mut k = 0;
        while k < n {
            let (cb, e, i) = bytes[k];
            let (part, len) = if e == 0 { (cx.c(8, cb as u64), 1) } else {
                let mut l = 1;
                while k + l < n && bytes[k + l].1 == e && bytes[k + l].2 as usize == i as usize + l { l += 1 }
                (cx.extract(e, i * 8, (l * 8) as u8), l)
            };
            acc = Some(match acc { None => part, Some(x) => cx.concat(part, x) });
            k += len;
        }
        let e = acc.unwrap();
        match cx.cv(e) { Some(v) => Val::c(v), None => Val { v: 0, s: e } }
    }
    fn byte(&mut self, a: u64) -> (u8, E, u8) {
        if a >> 32 == KBASE >> 32 { let o = a - KBASE; if o >= self.klen { self.fault(a); return (0, 0, 0) } return (unsafe { *self.kimg.add(o as usize) }, 0, 0) }
        let o = (a & (PS as u64 - 1)) as usize;
        match self.page(a) { Some(p) => match &p.sh { Some(s) if s.e[o] != 0 => (0, s.e[o], s.i[o]), _ => (p.d[o], 0, 0) }, None => { if self.slot(a).map_or(true, |(r, _)| r == 0) { self.fault(a) } (0, 0, 0) } }
    }
    #[inline]
    pub fn store(&mut self, cx: &mut Ctx2, a: u64, n: usize, v: Val) {
        let o = (a & (PS as u64 - 1)) as usize;
        if v.s == 0 && o + n <= PS {
            match self.page_mut(a) {
                None => self.fault(a),
                Some(p) => {
                    p.d[o..o + n].copy_from_slice(&v.v.to_le_bytes()[..n]);
                    if let Some(s) = &mut p.sh { for x in &mut s.e[o..o + n] { *x = 0 } }
                }
            }
            return;
        }
        let e = if v.s == 0 { 0 } else { let w = cx.w(v.s); if (w as usize) < n * 8 { cx.zext(v.s, (n * 8) as u8) } else { v.s } };
        for k in 0..n {
            let b = if e == 0 { ((v.v >> (8 * k)) as u8, 0, 0) } else { (0, e, k as u8) };
            self.set_byte(a + k as u64, b)
        }
    }
    fn set_byte(&mut self, a: u64, b: (u8, E, u8)) {
        let o = (a & (PS as u64 - 1)) as usize;
        match self.page_mut(a) {
            None => self.fault(a),
            Some(p) => {
                p.d[o] = b.0;
                if b.1 != 0 { let s = p.sh.get_or_insert_with(|| Box::new(Shadow { e: [0; PS], i: [0; PS] })); s.e[o] = b.1; s.i[o] = b.2 }
                else if let Some(s) = &mut p.sh { s.e[o] = 0 }
            }
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return }
        if n > 64 << 20 { self.fault(d); return }
        // fast path: concrete chunks
        let n = n as usize;
        let mut buf = vec![0u8; n]; let mut sym: Vec<(usize, E, u8)> = vec![];
        let mut k = 0;
        while k < n {
            let a = s + k as u64;
            let o = (a & (PS as u64 - 1)) as usize;
            let l = (PS - o).min(n - k);
            if a >> 32 == KBASE >> 32 {
                let ko = a - KBASE; if ko + l as u64 > self.klen { self.fault(a); return }
                unsafe { std::ptr::copy_nonoverlapping(self.kimg.add(ko as usize), buf[k..].as_mut_ptr(), l) }
            } else if let Some(p) = self.page(a) {
                buf[k..k + l].copy_from_slice(&p.d[o..o + l]);
                if let Some(sh) = &p.sh { for j in 0..l { if sh.e[o + j] != 0 { sym.push((k + j, sh.e[o + j], sh.i[o + j])) } } }
            } else if self.slot(a).map_or(true, |(r, _)| r == 0) { self.fault(a); return }
            k += l;
        }
        self.write(d, &buf);
        for (k, e, i) in sym { self.set_byte(d + k as u64, (0, e, i)) }
    }
    pub fn write(&mut self, d: u64, buf: &[u8]) {
        let n = buf.len(); let mut k = 0;
        while k < n {
            let a = d + k as u64; let o = (a & (PS as u64 - 1)) as usize; let l = (PS - o).min(n - k);
            match self.page_mut(a) { None => { self.fault(a); return } Some(p) => { p.d[o..o + l].copy_from_slice(&buf[k..k + l]); if let Some(s) = &mut p.sh { for x in &mut s.e[o..o + l] { *x = 0 } } } }
            k += l;
        }
    }
    pub fn set(&mut self, cx: &mut Ctx2, d: u64, v: Val, n: u64) {
        if n == 0 { return }
        if n > 64 << 20 { self.fault(d); return }
        if v.s == 0 { let b = vec![v.v as u8; n as usize]; self.write(d, &b) } else { let _ = cx; for k in 0..n { self.set_byte(d + k, (0, v.s, 0)) } }
    }
    pub fn cbyte(&mut self, a: u64) -> (u8, E, u8) { self.byte(a) }
    fn class(n: u64) -> (usize, u64) { let s = n.max(16).next_power_of_two(); (s.trailing_zeros() as usize, s) }
    /// allocate; the 16 bytes below the returned address hold the requested size
    pub fn malloc(&mut self, cx: &mut Ctx2, n: u64, align: u64) -> u64 {
        if n > 1 << 30 { return 0 }
        let (c, s) = Self::class(n);
        let a = if align <= 16 { if let Some(a) = self.free[c].pop() { a } else { let a = (self.hp + 16 + 15) & !15; self.hp = a + s; a } }
            else { let a = (self.hp + 16 + align - 1) & !(align - 1); self.hp = a + s; a };
        self.store(cx, a - 8, 8, Val::c(n));
        a
    }
    pub fn size_of(&mut self, cx: &mut Ctx2, a: u64) -> u64 { self.load(cx, a - 8, 8).v }
    pub fn dealloc(&mut self, cx: &mut Ctx2, a: u64) { if a == 0 { return } let n = self.size_of(cx, a); let (c, _) = Self::class(n); self.free[c].push(a) }
}
