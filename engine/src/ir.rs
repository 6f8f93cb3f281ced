//! Parser for the textual LLVM IR rustc emits, lowered to a flat scalar micro-instruction form.
//! First-class aggregates and vectors are flattened into consecutive scalar registers.
use crate::expr::Op as B;
use std::collections::HashMap;
use std::sync::atomic::AtomicBool;
use std::sync::OnceLock;

pub type Opd = u32; // register index, or CONST|index
pub const CONST: u32 = 0x8000_0000;
pub type R = u32;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FP { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Un1 { Ctpop, Ctlz, Cttz, Bswap, Bitrev, Abs }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fun { Abs, Neg, Sqrt, Floor, Ceil, Trunc, Round, RoundEven, Rint, Exp, Log, Log2, Log10, Sin, Cos }

#[derive(Clone, Copy, Debug)]
pub enum I {
    Mov { d: R, a: Opd },
    Bin { op: B, w: u8, d: R, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, d: R, a: Opd, b: Opd },
    Sel { w: u8, d: R, c: Opd, a: Opd, b: Opd },
    Zext { d: R, a: Opd, f: u8, t: u8 },
    Sext { d: R, a: Opd, f: u8, t: u8 },
    Trunc { d: R, a: Opd, f: u8, t: u8 },
    Load { d: R, p: Opd, off: u32, w: u8 },
    Store { v: Opd, p: Opd, off: u32, w: u8 },
    GepC { d: R, a: Opd, off: i64 },
    GepI { d: R, a: Opd, i: Opd, sc: u32, w: u8 },
    Alloca { d: R, sz: u64, n: Opd },
    Br { e: u32 },
    CBr { c: Opd, t: u32, f: u32 },
    Sw { i: u32 },
    Ret { i: u32 },
    Call { i: u32 },
    Ovf { op: B, sg: bool, w: u8, d: R, a: Opd, b: Opd },
    Sat { op: B, sg: bool, w: u8, d: R, a: Opd, b: Opd },
    MinMax { sg: bool, max: bool, w: u8, d: R, a: Opd, b: Opd },
    Cmp3 { sg: bool, w: u8, rw: u8, d: R, a: Opd, b: Opd },
    Un { op: Un1, w: u8, d: R, a: Opd },
    Fsh { l: bool, w: u8, d: R, a: Opd, b: Opd, c: Opd },
    MemCpy { d: Opd, s: Opd, n: Opd },
    MemSet { d: Opd, v: Opd, n: Opd },
    FBin { op: u8, w: u8, d: R, a: Opd, b: Opd },
    FCmp { p: FP, w: u8, d: R, a: Opd, b: Opd },
    F2I { sg: bool, sat: bool, fw: u8, w: u8, d: R, a: Opd },
    I2F { sg: bool, w: u8, fw: u8, d: R, a: Opd },
    FExt { d: R, a: Opd },
    FTrn { d: R, a: Opd },
    FUn { op: Fun, w: u8, d: R, a: Opd },
    FClass { m: u32, w: u8, d: R, a: Opd },
    Wide { i: u32 },
    Pack { i: u32 },
    ARmw { op: u8, w: u8, d: R, p: Opd, v: Opd },
    CmpX { w: u8, d: R, p: Opd, c: Opd, v: Opd },
    LoadRel { d: R, p: Opd, o: Opd },
    Assume { c: Opd },
    Unreach,
    Unsup { i: u32 },
}
#[derive(Clone, Debug)]
pub struct Edge { pub block: u32, pub from: u32, pub target: u32, pub cp: (u32, u32), pub safe: bool }
#[derive(Clone, Debug)]
pub struct CallT { pub callee: Callee, pub args: Vec<Opd>, pub d: R, pub nd: u32, pub edge: Option<u32>, pub aw: Vec<u8> }
#[derive(Clone, Copy, Debug)]
pub enum Callee { F(u32), Ind(Opd) }
#[derive(Clone, Debug)]
pub struct SwT { pub v: Opd, pub w: u8, pub cases: Vec<(u64, u32)>, pub def: u32 }
#[derive(Clone, Debug)]
pub struct WideT { pub op: String, pub w: u32, pub w2: u32, pub d: R, pub a: Vec<Opd>, pub b: Vec<Opd>, pub c: Vec<Opd> }
/// repack scalars of given widths into scalars of other widths (bitcast between vector/int)
#[derive(Clone, Debug)]
pub struct PackT { pub from: Vec<(Opd, u8)>, pub to: Vec<(R, u8)> }

pub struct Func {
    pub id: u32, pub nregs: u32, pub params: Vec<(R, u32)>, pub code: Vec<I>, pub consts: Vec<u64>,
    pub edges: Vec<Edge>, pub copies: Vec<(R, Opd)>, pub sws: Vec<SwT>, pub calls: Vec<CallT>, pub rets: Vec<Vec<Opd>>,
    pub wides: Vec<WideT>, pub packs: Vec<PackT>, pub msgs: Vec<String>,
    pub seen: Vec<AtomicBool>, pub dbg: Vec<Vec<u32>>, pub entry_block: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    None, Panic, Malloc, Calloc, Realloc, Free, Memalign, Memcmp, Strlen, Memchr, HashKeys, Getenv, Write, Getrandom, Syscall, ClockGettime, Abort, Errno,
    SymInput, SymAssume, SymAssert, SymObserve, SymReach, SymConcretize, SymFail, SymIsSym, SymRestart, Memcpy, Memset, Unknown, Pow, Exp, Log, Backtrace, HashWrite,
}
pub struct FnDecl { pub name: String, pub body: Option<(usize, usize)>, pub bi: Bi, pub func: OnceLock<Box<Func>> }
pub struct Global { pub addr: u64, pub size: u64, pub konst: bool, pub init: (usize, usize), pub tystart: usize, pub ext: bool, pub align: u64 }
pub struct Module {
    pub text: String, pub fns: Vec<FnDecl>, pub fnidx: HashMap<String, u32>, pub globs: HashMap<String, u32>, pub gl: Vec<Global>,
    pub types: HashMap<String, (usize, usize)>, pub kimg: Vec<u8>, pub gimg: Vec<u8>,
    pub meta: OnceLock<HashMap<u32, (usize, usize)>>,
}
pub const GBASE: u64 = 0x1_0000_0000;
pub const SBASE: u64 = 0x2_0000_0000;
pub const HBASE: u64 = 0x3_0000_0000;
pub const FBASE: u64 = 0x4_0000_0000;
pub const KBASE: u64 = 0x5_0000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Int(u32), Ptr, F32, F64, Vec(u32, Box<Ty>), Arr(u64, Box<Ty>), St(bool, Vec<Ty>), Void, Meta, Other }
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; if *w <= 8 { 1 } else { let a = self.align(); (b + a - 1) / a * a } }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, t) => { let bits = *n as u64 * t.bits(); (bits + 7) / 8 }
            Ty::Arr(n, t) => n * t.size(),
            Ty::St(..) => self.fields().1,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u64 { match self { Ty::Int(w) => *w as u64, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, t => t.size() * 8 } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::St(p, f) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn fields(&self) -> (Vec<u64>, u64) {
        if let Ty::St(p, f) = self {
            let mut o = 0u64; let mut v = vec![];
            for t in f { if !*p { let a = t.align(); o = (o + a - 1) / a * a } v.push(o); o += t.size() }
            if !*p { let a = self.align(); o = (o + a - 1) / a * a }
            (v, o)
        } else { (vec![], 0) }
    }
    /// scalar leaves: (byte offset, width in bits)
    pub fn leaves(&self) -> Vec<(u64, u8)> { let mut v = vec![]; self.lv(0, &mut v); v }
    fn lv(&self, o: u64, v: &mut Vec<(u64, u8)>) {
        match self {
            Ty::Int(w) => { if *w <= 64 { v.push((o, *w as u8)) } else { v.push((o, 64)); v.push((o + 8, (*w - 64).min(64) as u8)) } }
            Ty::Ptr | Ty::F64 => v.push((o, 64)), Ty::F32 => v.push((o, 32)),
            Ty::Vec(n, t) => { let s = t.bits() / 8; for i in 0..*n { t.lv(o + i as u64 * s, v) } }
            Ty::Arr(n, t) => { let s = t.size(); for i in 0..*n { t.lv(o + i * s, v) } }
            Ty::St(..) => { if let Ty::St(_, f) = self { let fo = self.fields().0; for (t, x) in f.iter().zip(fo) { t.lv(o + x, v) } } }
            _ => {}
        }
    }
    pub fn nregs(&self) -> u32 {
        match self { Ty::Int(w) => if *w <= 64 { 1 } else { 2 }, Ty::Ptr | Ty::F32 | Ty::F64 => 1, Ty::Vec(n, t) => n * t.nregs(), Ty::Arr(n, t) => *n as u32 * t.nregs(), Ty::St(_, f) => f.iter().map(|t| t.nregs()).sum(), _ => 0 }
    }
}

pub struct P<'a> { pub s: &'a [u8], pub i: usize, pub m: &'a Module }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
type Res<T> = Result<T, String>;
impl<'a> P<'a> {
    pub fn new(m: &'a Module, r: (usize, usize)) -> Self { P { s: &m.text.as_bytes()[..r.1], i: r.0, m } }
    fn pk(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1 } }
    fn wsn(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1 } }
    fn eat(&mut self, c: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(c.as_bytes()) { self.i += c.len(); true } else { false } }
    fn need(&mut self, c: &str) -> Res<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected {:?} at {:?}", c, self.rest())) } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 120)]).into_owned() }
    fn word(&mut self) -> &'a str { self.ws(); let b = self.i; while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1 } std::str::from_utf8(&self.s[b..self.i]).unwrap() }
    fn peekw(&mut self) -> &'a str { let b = { self.ws(); self.i }; let w = self.word(); self.i = b; w }
    /// %name or @name (after the sigil), quotes removed
    fn name(&mut self) -> &'a str {
        if self.pk() == b'"' { let b = self.i + 1; self.i += 1; while self.pk() != b'"' { self.i += 1 } let r = std::str::from_utf8(&self.s[b..self.i]).unwrap(); self.i += 1; r }
        else { let b = self.i; while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1 } std::str::from_utf8(&self.s[b..self.i]).unwrap() }
    }
    fn skip_paren(&mut self) { // at '('
        let mut d = 0;
        loop { let c = self.pk(); self.i += 1; if c == b'"' { while self.pk() != b'"' { self.i += 1 } self.i += 1 } else if c == b'(' { d += 1 } else if c == b')' { d -= 1; if d == 0 { break } } else if c == 0 { break } }
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        match self.pk() {
            b'{' | b'[' | b'<' => true,
            b'%' => true,
            b'i' => self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit()),
            _ => matches!(self.peekw(), "ptr" | "void" | "float" | "double" | "metadata" | "half" | "token" | "label" | "fp128" | "x86_fp80" | "bfloat"),
        }
    }
    pub fn ty(&mut self) -> Res<Ty> {
        self.ws();
        let t = match self.pk() {
            b'{' => { self.i += 1; Ty::St(false, self.tylist("}")?) }
            b'<' => {
                self.i += 1; self.ws();
                if self.pk() == b'{' { self.i += 1; let v = self.tylist("}")?; self.need(">")?; Ty::St(true, v) }
                else { let n: u32 = self.word().parse().map_err(|_| format!("vec {}", self.rest()))?; self.need("x")?; let t = self.ty()?; self.need(">")?; Ty::Vec(n, Box::new(t)) }
            }
            b'[' => { self.i += 1; let n: u64 = self.word().parse().map_err(|_| format!("arr {}", self.rest()))?; self.need("x")?; let t = self.ty()?; self.need("]")?; Ty::Arr(n, Box::new(t)) }
            b'%' => {
                self.i += 1; let n = self.name();
                let r = *self.m.types.get(n).ok_or_else(|| format!("type %{}", n))?;
                let mut p = P::new(self.m, r); p.ty()?
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => { if self.eat("addrspace") { self.ws(); self.skip_paren() } Ty::Ptr }
                    "float" => Ty::F32, "double" => Ty::F64, "void" => Ty::Void, "metadata" => Ty::Meta,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => Ty::Other,
                }
            }
        };
        Ok(t)
    }
    fn tylist(&mut self, end: &str) -> Res<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v) }
        loop { v.push(self.ty()?); if self.eat(",") { continue } self.need(end)?; return Ok(v) }
    }
    /// Constant of type t flattened to scalar leaves.
    pub fn konst(&mut self, t: &Ty) -> Res<Vec<u64>> {
        self.ws();
        let z = |t: &Ty| vec![0u64; t.nregs() as usize];
        let c = self.pk();
        if c == b'@' {
            self.i += 1; let n = self.name();
            return Ok(vec![self.m.addr_of(n).ok_or_else(|| format!("global @{}", n))?]);
        }
        if c == b'-' || c.is_ascii_digit() {
            let b = self.i; self.i += 1;
            while { let c = self.pk(); c.is_ascii_alphanumeric() || c == b'.' || c == b'+' || (c == b'-' && self.s[self.i - 1] == b'e') } { self.i += 1 }
            let s = std::str::from_utf8(&self.s[b..self.i]).unwrap();
            return match t {
                Ty::F64 => Ok(vec![if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { s.parse::<f64>().map_err(|e| e.to_string())?.to_bits() }]),
                Ty::F32 => Ok(vec![(if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) as f32 } else { s.parse::<f32>().map_err(|e| e.to_string())? }).to_bits() as u64]),
                Ty::Int(w) => {
                    let v: u128 = if s.starts_with('-') { s.parse::<i128>().map_err(|e| format!("{} {}", s, e))? as u128 } else { s.parse::<u128>().map_err(|e| format!("{} {}", s, e))? };
                    if *w <= 64 { Ok(vec![v as u64 & crate::expr::mask(*w as u8)]) } else { Ok(vec![v as u64, (v >> 64) as u64 & crate::expr::mask((*w - 64).min(64) as u8)]) }
                }
                _ => Err(format!("num const for {:?}", t)),
            };
        }
        if c == b'c' && self.s.get(self.i + 1) == Some(&b'"') { self.i += 1; return Ok(self.cstr().into_iter().map(|b| b as u64).collect()) }
        if c == b'{' || c == b'[' || c == b'<' {
            self.i += 1;
            let mut close = match c { b'{' => "}", b'[' => "]", _ => ">" };
            if c == b'<' { self.ws(); if self.pk() == b'{' { self.i += 1; close = "}>" } }
            let mut v = vec![];
            if self.eat(close) { return Ok(v) }
            loop { let et = self.ty()?; v.extend(self.konst(&et)?); if self.eat(",") { continue } self.need(close)?; return Ok(v) }
        }
        let w = self.word();
        match w {
            "null" | "false" | "none" => Ok(vec![0]),
            "true" => Ok(vec![1]),
            "undef" | "poison" | "zeroinitializer" => Ok(z(t)),
            "splat" => { self.need("(")?; let et = self.ty()?; let v = self.konst(&et)?; self.need(")")?; let n = t.nregs() as usize / v.len(); Ok((0..n).flat_map(|_| v.clone()).collect()) }
            "getelementptr" => {
                while !self.eat("(") { let w = self.word(); if w.is_empty() { return Err("gep".into()) } if self.pk() == b'(' && w == "inrange" { self.skip_paren() } }
                let bt = self.ty()?; self.need(",")?; let pt = self.ty()?; let mut a = self.konst(&pt)?[0];
                let mut cur = bt; let mut first = true;
                while self.eat(",") { self.eat("inrange"); let it = self.ty()?; let iv = self.konst(&it)?[0]; let iv = if let Ty::Int(w) = it { crate::expr::sx(iv, w as u8) } else { iv as i64 };
                    if first { a = a.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false }
                    else { let (o, nt) = step(&cur, iv)?; a = a.wrapping_add(o as u64); cur = nt } }
                self.need(")")?;
                Ok(vec![a])
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                self.eat("nuw"); self.eat("nsw");
                self.need("(")?; let ft = self.ty()?; let v = self.konst(&ft)?; self.need("to")?; let tt = self.ty()?; self.need(")")?;
                let tw = tt.bits() as u8;
                Ok(vec![if w == "sext" { crate::expr::sx(v[0], ft.bits() as u8) as u64 } else { v[0] } & crate::expr::mask(tw)])
            }
            "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" => {
                while !self.eat("(") { if self.word().is_empty() { return Err("cexpr".into()) } }
                let t1 = self.ty()?; let a = self.konst(&t1)?[0]; self.need(",")?; let t2 = self.ty()?; let b = self.konst(&t2)?[0]; self.need(")")?;
                let op = match w { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "and" => B::And, "or" => B::Or, "xor" => B::Xor, _ => B::Shl };
                Ok(vec![crate::expr::cbin(op, t1.bits() as u8, a, b)])
            }
            "dso_local_equivalent" | "no_cfi" => self.konst(t),
            _ => Err(format!("const {:?} {:?}", w, self.rest())),
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.i += 1; let mut v = vec![];
        loop {
            let c = self.pk(); self.i += 1;
            if c == b'"' { return v }
            if c == b'\\' && self.pk() == b'\\' { v.push(c); self.i += 1 } else if c == b'\\' { let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap(); v.push(u8::from_str_radix(h, 16).unwrap()); self.i += 2 } else { v.push(c) }
        }
    }
}
fn step(t: &Ty, i: i64) -> Res<(i64, Ty)> {
    match t {
        Ty::Arr(_, e) => Ok((i * e.size() as i64, (**e).clone())),
        Ty::Vec(_, e) => Ok((i * (e.bits() / 8) as i64, (**e).clone())),
        Ty::St(_, f) => Ok((t.fields().0[i as usize] as i64, f[i as usize].clone())),
        _ => Err("gep step".into()),
    }
}
fn skip_line(s: &[u8], mut i: usize) -> usize { while i < s.len() && s[i] != b'\n' { i += 1 } i + 1 }

impl Module {
    pub fn addr_of(&self, n: &str) -> Option<u64> {
        if let Some(&g) = self.globs.get(n) { return Some(self.gl[g as usize].addr) }
        self.fnidx.get(n).map(|&f| FBASE + f as u64 * 16)
    }
    pub fn load(text: String) -> Res<Module> {
        let mut m = Module { text, fns: vec![], fnidx: Default::default(), globs: Default::default(), gl: vec![], types: Default::default(), kimg: vec![], gimg: vec![], meta: OnceLock::new() };
        let txt = std::mem::take(&mut m.text);
        let s = txt.as_bytes();
        let mut i = 0;
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        struct GD { name: String, konst: bool, b: usize, e: usize }
        let mut gds: Vec<GD> = vec![];
        while i < s.len() {
            let e = skip_line(s, i);
            let line = &txt[i..(e - 1).min(s.len())];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let at = find_fn_name(line).ok_or("fn name")?;
                let name = at.0.to_string();
                let def = line.starts_with("define ");
                let idx = m.fns.len() as u32;
                let mut body = None;
                let mut end = e;
                if def { // to "\n}\n"
                    let k = txt[i..].find("\n}").ok_or("fn end")?;
                    body = Some((i, i + k + 1)); end = skip_line(s, i + k + 1);
                }
                let bi = builtin(&name, def);
                m.fnidx.insert(name.clone(), idx);
                m.fns.push(FnDecl { name, body, bi, func: OnceLock::new() });
                i = end; continue;
            } else if line.starts_with('@') {
                let mut q = P { s: &s[..e - 1], i: i + 1, m: &m };
                let name = q.name().to_string();
                q.need("=")?;
                let mut konst = false; let mut ext = false; let mut is_alias = false;
                loop {
                    let w = q.word();
                    match w { "global" => break, "constant" => { konst = true; break } "alias" => { is_alias = true; break } "external" | "extern_weak" => ext = true, "" => return Err(format!("glob {}", line)), _ => { if q.pk() == b'(' { q.skip_paren() } } }
                    if matches!(w, "alias") { break }
                }
                let b = q.i;
                if is_alias { aliases.push((name, b, e - 1)) } else {
                    m.globs.insert(name.clone(), m.gl.len() as u32);
                    m.gl.push(Global { addr: 0, size: 0, konst, init: (b, e - 1), tystart: b, ext, align: 16 });
                    gds.push(GD { name, konst, b, e: e - 1 });
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let mut q = P { s: &s[..e - 1], i: i + 1, m: &m };
                let name = q.name().to_string(); q.need("=")?; q.need("type")?; let b = q.i;
                m.types.insert(name, (b, e - 1));
            }
            i = e;
        }
        m.text = txt;
        // layout
        let (mut ka, mut ga) = (KBASE + 64, GBASE + 64);
        for k in 0..m.gl.len() {
            let (sz, al);
            {
                let g = &m.gl[k];
                let mut q = P::new(&m, g.init);
                let t = q.ty()?;
                sz = t.size();
                let line = &m.text[g.init.0..g.init.1];
                al = line.rfind(", align ").and_then(|p| line[p + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse::<u64>().ok())).unwrap_or(t.align()).max(1);
            }
            let g = &mut m.gl[k];
            let a = if g.konst { &mut ka } else { &mut ga };
            *a = (*a + al - 1) / al * al;
            g.addr = if g.ext { 0 } else { *a };
            g.size = sz;
            *a += sz.max(1);
        }
        // images
        let mut kimg = vec![0u8; (ka - KBASE) as usize + 64];
        let mut gimg = vec![0u8; (ga - GBASE) as usize + 64];
        for k in 0..aliases.len() {
            let (n, b, e) = aliases[k].clone();
            let v = { let mut q = P::new(&m, (b, e)); let _ = q.ty()?; q.need(",")?; let pt = q.ty()?; q.konst(&pt)?[0] };
            if v >= FBASE && v < KBASE { m.fnidx.insert(n, ((v - FBASE) / 16) as u32); } else {
                m.globs.insert(n, m.gl.len() as u32);
                m.gl.push(Global { addr: v, size: 0, konst: true, init: (b, b), tystart: b, ext: true, align: 1 });
            }
        }
        for k in 0..m.gl.len() {
            let g = &m.gl[k];
            if g.ext { continue }
            let mut q = P::new(&m, g.init);
            let t = q.ty()?;
            let v = q.konst(&t).map_err(|e| format!("{} in global {}", e, &m.text[g.init.0..g.init.1.min(g.init.0 + 200)]))?;
            let lv = t.leaves();
            let (img, base) = if g.konst { (&mut kimg, KBASE) } else { (&mut gimg, GBASE) };
            let o = (g.addr - base) as usize;
            if lv.len() != v.len() { return Err(format!("init len {} {} {:?}", lv.len(), v.len(), t)) }
            for ((off, w), x) in lv.iter().zip(v) { let nb = (*w as usize + 7) / 8; img[o + *off as usize..o + *off as usize + nb].copy_from_slice(&x.to_le_bytes()[..nb]) }
        }
        m.kimg = kimg; m.gimg = gimg;
        Ok(m)
    }
    pub fn func(&self, id: u32) -> &Func {
        self.fns[id as usize].func.get_or_init(|| Box::new(FB::build(self, id)))
    }
    pub fn metadata(&self) -> &HashMap<u32, (usize, usize)> {
        self.meta.get_or_init(|| {
            let mut h = HashMap::new();
            let s = self.text.as_bytes(); let mut i = 0;
            while i < s.len() { let e = skip_line(s, i); if s[i] == b'!' && i + 1 < s.len() && s[i + 1].is_ascii_digit() { let l = &self.text[i..(e - 1).min(s.len())]; if let Some(p) = l.find(" = ") { if let Ok(n) = l[1..p].parse() { h.insert(n, (i + p + 3, e - 1)); } } } i = e }
            h
        })
    }
    /// (function name, file, line) of a DILocation
    pub fn loc(&self, id: u32) -> Option<(String, String, u32)> {
        let md = self.metadata();
        let f = |id: u32| md.get(&id).map(|&(a, b)| &self.text[a..b]);
        fn field<'t>(l: &'t str, k: &str) -> Option<&'t str> { let p = l.find(&format!("{}: ", k))? + k.len() + 2; let r = &l[p..]; if let Some(q) = r.strip_prefix('"') { return q.split('"').next() } Some(r.split(|c| c == ',' || c == ')').next()?) }
        fn id_of(l: &str) -> Option<u32> { l.strip_prefix('!')?.parse().ok() }
        let l = f(id)?;
        let line = field(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut sc = id_of(field(l, "scope")?)?;
        let mut file = None;
        for _ in 0..50 {
            let t = f(sc)?;
            if file.is_none() { if let Some(fl) = field(t, "file").and_then(id_of) { if let Some(ft) = f(fl) { file = field(ft, "filename").map(|x| { if x.starts_with('/') { x.to_string() } else { format!("{}/{}", field(ft, "directory").unwrap_or(""), x) } }) } } }
            if t.contains("DISubprogram(") { let n = field(t, "linkageName").or(field(t, "name"))?.to_string(); return Some((n, file.unwrap_or_default(), line)) }
            sc = id_of(field(t, "scope")?)?;
        }
        None
    }
}
fn find_fn_name(line: &str) -> Option<(&str, usize)> {
    // first '@' outside parentheses (return attributes may hold parentheses)
    let b = line.as_bytes(); let mut d = 0; let mut i = 0;
    while i < b.len() {
        match b[i] { b'(' => d += 1, b')' => d -= 1, b'"' => { i += 1; while b[i] != b'"' { i += 1 } }
            b'@' if d == 0 => { let st = i + 1; if b[st] == b'"' { let e = line[st + 1..].find('"')? + st + 1; return Some((&line[st + 1..e], e + 1)) } let mut e = st; while e < b.len() && idc(b[e]) { e += 1 } return Some((&line[st..e], e)) }
            _ => {} }
        i += 1;
    }
    None
}
fn builtin(n: &str, def: bool) -> Bi {
    if n.contains("hashmap_random_keys") { return Bi::HashKeys }
    if def {
        if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("3std9panicking11begin_panic") || n.contains("20rust_panic_with_hook") || n.contains("9panicking19begin_panic_handler") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("3std7process5abort") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("5slice5index") && n.ends_with("_fail") || n.contains("len_mismatch_fail") {
            return Bi::Panic;
        }
        if n.contains("4core4hash3sip") && n.contains("5write17h") || n.contains("core..hash..sip..Hasher") && n.contains("Hasher$GT$5write17h") { return Bi::HashWrite }
        return Bi::None;
    }
    match n {
        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free, "posix_memalign" => Bi::Memalign,
        "memcmp" | "bcmp" => Bi::Memcmp, "strlen" => Bi::Strlen, "memchr" => Bi::Memchr, "getenv" | "secure_getenv" => Bi::Getenv, "write" | "writev" => Bi::Write,
        "getrandom" => Bi::Getrandom, "syscall" => Bi::Syscall, "clock_gettime" => Bi::ClockGettime, "abort" | "_exit" | "exit" => Bi::Abort, "__errno_location" => Bi::Errno,
        "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset, "pow" => Bi::Pow, "exp" => Bi::Exp, "log" => Bi::Log, "_Unwind_Backtrace" => Bi::Backtrace,
        "__sym_input" => Bi::SymInput, "__sym_assume" => Bi::SymAssume, "__sym_assert" => Bi::SymAssert, "__sym_observe" => Bi::SymObserve, "__sym_reach" => Bi::SymReach, "__sym_concretize" => Bi::SymConcretize, "__sym_fail" => Bi::SymFail, "__sym_restart" => Bi::SymRestart, "__sym_is_symbolic" => Bi::SymIsSym,
        _ => Bi::Unknown,
    }
}

/// Function builder
struct FB<'a> {
    m: &'a Module, regs: HashMap<&'a str, (R, u32)>, nregs: u32, code: Vec<I>, consts: Vec<u64>, cmap: HashMap<u64, u32>,
    blocks: HashMap<&'a str, u32>, bpc: Vec<u32>, phis: Vec<Vec<(R, u32, Vec<(u32, Vec<Opd>)>)>>,
    edges: Vec<Edge>, sws: Vec<SwT>, calls: Vec<CallT>, rets: Vec<Vec<Opd>>, wides: Vec<WideT>, packs: Vec<PackT>, msgs: Vec<String>, dbg: Vec<Vec<u32>>,
    cur: u32,
}
impl<'a> FB<'a> {
    fn build(m: &'a Module, id: u32) -> Func {
        let d = &m.fns[id as usize];
        let body = d.body.expect("no body");
        let mut fb = FB { m, regs: Default::default(), nregs: 0, code: vec![], consts: vec![], cmap: Default::default(), blocks: Default::default(), bpc: vec![], phis: vec![], edges: vec![], sws: vec![], calls: vec![], rets: vec![], wides: vec![], packs: vec![], msgs: vec![], dbg: vec![], cur: 0 };
        let text = &m.text[body.0..body.1];
        let hl_end = text.find('\n').unwrap();
        let header = &m.text[body.0..body.0 + hl_end];
        let (_, ne) = find_fn_name(header).unwrap();
        let mut p = P { s: &m.text.as_bytes()[..body.0 + hl_end], i: body.0 + ne, m };
        let mut params = vec![];
        p.need("(").unwrap();
        if !p.eat(")") {
            loop {
                p.ws();
                if p.eat("...") { break }
                let t = p.ty().unwrap();
                loop { p.ws(); if p.pk() == b'%' { break } let w = p.word(); if w.is_empty() { if p.pk() == b'(' { p.skip_paren(); continue } if p.pk() == b',' || p.pk() == b')' { break } p.i += 1; } }
                if p.pk() == b'%' { p.i += 1; let n = p.name(); let r = fb.reg(n, &t); params.push((r, t.nregs())) }
                if p.eat(",") { continue }
                break;
            }
        }
        let mut pos = body.0 + hl_end + 1;
        let s = m.text.as_bytes();
        // block labels get ids on first mention; entry label may be implicit
        let mut first = true;
        let mut entry = 0;
        while pos < body.1 {
            let mut e = skip_line(s, pos);
            if s[pos] == b' ' {
                if first { let k = { let mut n = 0; while fb.regs.contains_key(n.to_string().as_str()) { n += 1 } n }; entry = fb.block(Box::leak(k.to_string().into_boxed_str())); fb.start(entry); first = false }
                // switch and invoke/landingpad span lines
                let l = &m.text[pos..e - 1];
                let lt = l.trim_start();
                if lt.starts_with("switch ") { while !m.text[pos..e].contains("\n  ]") && !m.text[pos..e - 1].trim_end().ends_with(']') && !m.text[pos..e].contains("  ], ") { e = skip_line(s, e) } }
                else if lt.starts_with("invoke ") || lt.contains("= invoke ") { while !m.text[pos..e].contains(" unwind label ") { e = skip_line(s, e) } }
                else if lt.contains("= landingpad") { while s[e..].starts_with(b"          ") { e = skip_line(s, e) } }
                else if lt.starts_with('#') { pos = e; continue }
                if let Some(k) = m.text[pos..e].rfind("!dbg !") { let num: String = m.text[pos + k + 6..e].chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(n) = num.parse() { let c = fb.cur as usize; fb.dbg[c].push(n) } }
                let mut p = P { s: &s[..e - 1], i: pos, m };
                if let Err(err) = fb.inst(&mut p) {
                    fb.msgs.push(format!("{} in `{}`", err, m.text[pos..e - 1].trim()));
                    let i = fb.msgs.len() as u32 - 1; fb.code.push(I::Unsup { i });
                }
            } else if s[pos] != b';' && s[pos] != b'\n' && s[pos] != b'}' {
                let mut p = P { s: &s[..e], i: pos, m };
                let n = p.name();
                let b = fb.block(n);
                if first { entry = b; first = false }
                fb.start(b);
            }
            pos = e;
        }
        // resolve edges: phi copies + pcs
        let mut copies = vec![];
        for k in 0..fb.edges.len() {
            let (blk, from) = (fb.edges[k].block, fb.edges[k].from);
            let st = copies.len() as u32;
            for (r, n, inc) in &fb.phis[blk as usize] {
                if let Some((_, v)) = inc.iter().find(|x| x.0 == from) { for j in 0..*n { copies.push((*r + j, v[j as usize])) } }
            }
            let n = copies.len() as u32 - st;
            let sl = &copies[st as usize..];
            let mut safe = true;
            for (a, (d, _)) in sl.iter().enumerate() { for (_, s2) in &sl[a + 1..] { if *s2 == *d { safe = false } } }
            let e = &mut fb.edges[k]; e.target = fb.bpc[blk as usize]; e.cp = (st, n); e.safe = safe;
        }
        let nb = fb.bpc.len();
        Func { id, nregs: fb.nregs, params, code: fb.code, consts: fb.consts, edges: fb.edges, copies, sws: fb.sws, calls: fb.calls, rets: fb.rets, wides: fb.wides, packs: fb.packs, msgs: fb.msgs,
            seen: (0..nb).map(|_| AtomicBool::new(false)).collect(), dbg: fb.dbg, entry_block: entry }
    }
    fn start(&mut self, b: u32) { self.cur = b; self.bpc[b as usize] = self.code.len() as u32 }
    fn block(&mut self, n: &'a str) -> u32 {
        if let Some(&b) = self.blocks.get(n) { return b }
        let b = self.bpc.len() as u32; self.blocks.insert(n, b); self.bpc.push(!0); self.phis.push(vec![]); self.dbg.push(vec![]); b
    }
    fn reg(&mut self, n: &'a str, t: &Ty) -> R {
        let k = t.nregs();
        if let Some(&(r, c)) = self.regs.get(n) { debug_assert_eq!(c, k); return r }
        let r = self.nregs; self.nregs += k.max(1); self.regs.insert(n, (r, k)); r
    }
    fn cst(&mut self, v: u64) -> Opd { if let Some(&i) = self.cmap.get(&v) { return i | CONST } let i = self.consts.len() as u32; self.consts.push(v); self.cmap.insert(v, i); i | CONST }
    fn tmp(&mut self) -> R { let r = self.nregs; self.nregs += 1; r }
    fn val(&mut self, p: &mut P<'a>, t: &Ty) -> Res<Vec<Opd>> {
        p.ws();
        if p.pk() == b'%' { p.i += 1; let n = p.name(); let r = self.reg(n, t); return Ok((0..t.nregs()).map(|i| r + i).collect()) }
        if matches!(t, Ty::Meta) { return Ok(vec![]) }
        let v = p.konst(t)?;
        if v.len() != t.nregs() as usize { return Err(format!("const arity {:?}", t)) }
        Ok(v.into_iter().map(|x| self.cst(x)).collect())
    }
    fn edge(&mut self, p: &mut P<'a>) -> Res<u32> {
        p.need("label")?; p.need("%")?; let n = p.name(); let b = self.block(n);
        let from = self.cur;
        self.edges.push(Edge { block: b, from, target: 0, cp: (0, 0), safe: true });
        Ok(self.edges.len() as u32 - 1)
    }
    fn dst(&mut self, name: Option<&'a str>, t: &Ty) -> R { match name { Some(n) => self.reg(n, t), None => { let r = self.nregs; self.nregs += t.nregs().max(1); r } } }
    fn push(&mut self, i: I) { self.code.push(i) }
    fn inst(&mut self, p: &mut P<'a>) -> Res<()> {
        p.ws();
        let mut name = None;
        if p.pk() == b'%' { p.i += 1; name = Some(p.name()); p.need("=")? }
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = p.word() }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(p.peekw(), "nuw" | "nsw" | "exact" | "disjoint") { p.word(); }
                let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let b = self.val(p, &t)?;
                let d = self.dst(name, &t);
                let wide = match &t { Ty::Int(w) => *w > 64, Ty::Vec(_, e) => if let Ty::Int(w) = **e { w > 64 } else { false }, _ => false };
                if wide { if let Ty::Int(w) = t { return self.wide(op, w, 0, d, a, b, vec![]) } return Err("wide vec".into()) }
                let bo = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, _ => B::AShr };
                let lv = t.leaves();
                for j in 0..a.len() { self.push(I::Bin { op: bo, w: lv[j].1, d: d + j as u32, a: a[j], b: b[j] }) }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let t = self.fmf_ty(p)?; let a = self.val(p, &t)?; p.need(",")?; let b = self.val(p, &t)?; let d = self.dst(name, &t);
                let o = match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 };
                let lv = t.leaves();
                for j in 0..a.len() { self.push(I::FBin { op: o, w: lv[j].1, d: d + j as u32, a: a[j], b: b[j] }) }
            }
            "fneg" => { let t = self.fmf_ty(p)?; let a = self.val(p, &t)?; let d = self.dst(name, &t); for (j, (_, w)) in t.leaves().iter().enumerate() { self.push(I::FUn { op: Fun::Neg, w: *w, d: d + j as u32, a: a[j] }) } }
            "icmp" => {
                if p.peekw() == "samesign" { p.word(); }
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => return Err(format!("icmp {}", x)) };
                let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let b = self.val(p, &t)?;
                let rt = if let Ty::Vec(n, _) = &t { Ty::Vec(*n, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
                let d = self.dst(name, &rt);
                if let Ty::Int(w) = t { if w > 64 { return self.wide(&format!("icmp{:?}", pr), w, 0, d, a, b, vec![]) } }
                let lv = t.leaves();
                for j in 0..a.len() { self.push(I::Icmp { p: pr, w: lv[j].1, d: d + j as u32, a: a[j], b: b[j] }) }
            }
            "fcmp" => {
                loop { let w = p.peekw(); if matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.word(); } else { break } }
                let pr = match p.word() { "false" => FP::False, "oeq" => FP::Oeq, "ogt" => FP::Ogt, "oge" => FP::Oge, "olt" => FP::Olt, "ole" => FP::Ole, "one" => FP::One, "ord" => FP::Ord, "ueq" => FP::Ueq, "ugt" => FP::Ugt, "uge" => FP::Uge, "ult" => FP::Ult, "ule" => FP::Ule, "une" => FP::Une, "uno" => FP::Uno, _ => FP::True };
                let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let b = self.val(p, &t)?;
                let rt = if let Ty::Vec(n, _) = &t { Ty::Vec(*n, Box::new(Ty::Int(1))) } else { Ty::Int(1) };
                let d = self.dst(name, &rt); let lv = t.leaves();
                for j in 0..a.len() { self.push(I::FCmp { p: pr, w: lv[j].1, d: d + j as u32, a: a[j], b: b[j] }) }
            }
            "select" => {
                let ct = self.fmf_ty(p)?; let c = self.val(p, &ct)?; p.need(",")?; let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let _ = p.ty()?; let b = self.val(p, &t)?;
                let d = self.dst(name, &t); let lv = t.leaves();
                let same = c.len() == 1;
                // destination may not alias sources here (SSA), so sequential is fine
                for j in 0..a.len() { self.push(I::Sel { w: lv[j].1, d: d + j as u32, c: if same { c[0] } else { c[j] }, a: a[j], b: b[j] }) }
            }
            "phi" => {
                let t = self.fmf_ty(p)?; let d = self.dst(name, &t);
                let mut inc = vec![];
                loop { p.need("[")?; let v = self.val(p, &t)?; p.need(",")?; p.need("%")?; let n = p.name(); let b = self.block(n); p.need("]")?; inc.push((b, v)); if !p.eat(",") { break } p.ws(); if p.pk() != b'[' { break } }
                let c = self.cur as usize; self.phis[c].push((d, t.nregs(), inc));
            }
            "br" => {
                p.ws();
                if p.peekw() == "label" { let e = self.edge(p)?; self.push(I::Br { e }) }
                else { let t = p.ty()?; let c = self.val(p, &t)?[0]; p.need(",")?; let a = self.edge(p)?; p.need(",")?; let b = self.edge(p)?; self.push(I::CBr { c, t: a, f: b }) }
            }
            "switch" => {
                let t = p.ty()?; let v = self.val(p, &t)?; p.need(",")?; let def = self.edge(p)?;
                if v.len() != 1 { return Err("wide switch".into()) }
                p.wsn(); p.need("[")?;
                let mut cases = vec![];
                loop { p.wsn(); if p.eat("]") { break } let ct = p.ty()?; let k = p.konst(&ct)?[0]; p.need(",")?; let e = self.edge(p)?; cases.push((k, e)) }
                self.sws.push(SwT { v: v[0], w: t.bits() as u8, cases, def });
                let i = self.sws.len() as u32 - 1; self.push(I::Sw { i });
            }
            "ret" => {
                let t = p.ty()?; let v = if t == Ty::Void { vec![] } else { self.val(p, &t)? };
                self.rets.push(v); let i = self.rets.len() as u32 - 1; self.push(I::Ret { i });
            }
            "unreachable" => self.push(I::Unreach),
            "resume" => { self.push(I::Unreach) }
            "landingpad" => { let t = p.ty()?; let _ = self.dst(name, &t); }
            "fence" => {}
            "alloca" => {
                let t = p.ty()?; let d = self.dst(name, &Ty::Ptr);
                let mut n = self.cst(1);
                if p.eat(",") { if p.peekw() != "align" { let it = p.ty()?; n = self.val(p, &it)?[0] } }
                self.push(I::Alloca { d, sz: t.size(), n })
            }
            "load" => {
                while matches!(p.peekw(), "atomic" | "volatile") { p.word(); }
                let t = p.ty()?; p.need(",")?; let pt = p.ty()?; let a = self.val(p, &pt)?[0]; let d = self.dst(name, &t);
                self.loadv(&t, d, a)?;
            }
            "store" => {
                while matches!(p.peekw(), "atomic" | "volatile") { p.word(); }
                let t = p.ty()?; let v = self.val(p, &t)?; p.need(",")?; let pt = p.ty()?; let a = self.val(p, &pt)?[0];
                if let Ty::Vec(n, e) = &t { if e.bits() < 8 { // pack bits
                    let tot = (*n as u64 * e.bits()) as u8; let r = self.tmp();
                    self.packs.push(PackT { from: v.iter().map(|x| (*x, e.bits() as u8)).collect(), to: vec![(r, tot)] });
                    let i = self.packs.len() as u32 - 1; self.push(I::Pack { i });
                    self.push(I::Store { v: r, p: a, off: 0, w: tot }); return Ok(());
                } }
                for (j, (o, w)) in t.leaves().iter().enumerate() { self.push(I::Store { v: v[j], p: a, off: *o as u32, w: *w }) }
            }
            "getelementptr" => {
                while matches!(p.peekw(), "inbounds" | "nuw" | "nusw") { p.word(); }
                let bt = p.ty()?; p.need(",")?; let pt = p.ty()?;
                if pt != Ty::Ptr { return Err("vector gep".into()) }
                let mut a = self.val(p, &pt)?[0];
                let d = self.dst(name, &Ty::Ptr);
                let mut cur = bt; let mut first = true; let mut off = 0i64;
                while p.eat(",") {
                    p.ws(); if p.pk() == b'!' { break }
                    let it = p.ty()?; let iv = self.val(p, &it)?[0]; let iw = it.bits() as u8;
                    let el: Ty;
                    if first { first = false; el = cur.clone() } else {
                        if let Ty::St(..) = cur { let k = self.consts[(iv & !CONST) as usize] as i64; let (o, nt) = step(&cur, k)?; off += o; cur = nt; continue }
                        let (_, nt) = step(&cur, 0)?; el = nt.clone(); cur = nt;
                    }
                    let sc = el.size();
                    if iv & CONST != 0 { let k = crate::expr::sx(self.consts[(iv & !CONST) as usize], iw); off = off.wrapping_add(k.wrapping_mul(sc as i64)) }
                    else { let r = self.tmp(); if sc > u32::MAX as u64 { return Err("gep scale".into()) } self.push(I::GepI { d: r, a, i: iv, sc: sc as u32, w: iw }); a = r }
                }
                self.push(I::GepC { d, a, off });
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                while matches!(p.peekw(), "nneg" | "nuw" | "nsw" | "fast" | "contract") { p.word(); }
                let ft = p.ty()?; let a = self.val(p, &ft)?; p.need("to")?; let tt = p.ty()?; let d = self.dst(name, &tt);
                if op == "bitcast" { return self.bitcast(&ft, &a, &tt, d) }
                let (fl, tl) = (ft.leaves(), tt.leaves());
                if let (Ty::Int(x), Ty::Int(y)) = (&ft, &tt) { if *x > 64 || *y > 64 { return self.wide(op, *x, *y, d, a, vec![], vec![]) } }
                if fl.len() != tl.len() { return Err("cast".into()) }
                for j in 0..a.len() {
                    let (f, t) = (fl[j].1, tl[j].1); let d = d + j as u32; let a = a[j];
                    let i = match op {
                        "zext" => I::Zext { d, a, f, t }, "sext" => I::Sext { d, a, f, t }, "trunc" => I::Trunc { d, a, f, t },
                        "ptrtoint" | "inttoptr" | "addrspacecast" => if f < t { I::Zext { d, a, f, t } } else if f > t { I::Trunc { d, a, f, t } } else { I::Mov { d, a } },
                        "fptoui" => I::F2I { sg: false, sat: false, fw: f, w: t, d, a }, "fptosi" => I::F2I { sg: true, sat: false, fw: f, w: t, d, a },
                        "uitofp" => I::I2F { sg: false, w: f, fw: t, d, a }, "sitofp" => I::I2F { sg: true, w: f, fw: t, d, a },
                        "fpext" => I::FExt { d, a }, _ => I::FTrn { d, a },
                    };
                    self.push(i)
                }
            }
            "freeze" => { let t = p.ty()?; let a = self.val(p, &t)?; let d = self.dst(name, &t); for j in 0..a.len() { self.push(I::Mov { d: d + j as u32, a: a[j] }) } }
            "extractvalue" => {
                let t = p.ty()?; let a = self.val(p, &t)?; let (o, et) = self.path(p, &t)?; let d = self.dst(name, &et);
                for j in 0..et.nregs() { self.push(I::Mov { d: d + j, a: a[(o + j) as usize] }) }
            }
            "insertvalue" => {
                let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let vt = p.ty()?; let v = self.val(p, &vt)?; let (o, et) = self.path(p, &t)?; let d = self.dst(name, &t);
                for j in 0..t.nregs() { let s = if j >= o && j < o + et.nregs() { v[(j - o) as usize] } else { a[j as usize] }; self.push(I::Mov { d: d + j, a: s }) }
            }
            "extractelement" => {
                let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let it = p.ty()?; let iv = self.val(p, &it)?[0];
                let Ty::Vec(n, e) = &t else { return Err("ee".into()) };
                let d = self.dst(name, e);
                if iv & CONST != 0 { let k = self.consts[(iv & !CONST) as usize] as usize; if k < a.len() { self.push(I::Mov { d, a: a[k] }) } }
                else {
                    let w = e.bits() as u8; let mut acc = a[0];
                    for k in 1..*n { let kc = self.cst(k as u64); let c = self.tmp(); self.push(I::Icmp { p: Pred::Eq, w: it.bits() as u8, d: c, a: iv, b: kc }); let r = self.tmp(); self.push(I::Sel { w, d: r, c, a: a[k as usize], b: acc }); acc = r }
                    self.push(I::Mov { d, a: acc })
                }
            }
            "insertelement" => {
                let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let et = p.ty()?; let v = self.val(p, &et)?[0]; p.need(",")?; let it = p.ty()?; let iv = self.val(p, &it)?[0];
                let d = self.dst(name, &t); let w = et.bits() as u8;
                for j in 0..a.len() {
                    if iv & CONST != 0 { let k = self.consts[(iv & !CONST) as usize] as usize; self.push(I::Mov { d: d + j as u32, a: if j == k { v } else { a[j] } }) }
                    else { let kc = self.cst(j as u64); let c = self.tmp(); self.push(I::Icmp { p: Pred::Eq, w: it.bits() as u8, d: c, a: iv, b: kc }); self.push(I::Sel { w, d: d + j as u32, c, a: v, b: a[j] }) }
                }
            }
            "shufflevector" => {
                let t = p.ty()?; let a = self.val(p, &t)?; p.need(",")?; let t2 = p.ty()?; let b = self.val(p, &t2)?; p.need(",")?; let mt = p.ty()?; let mv = p.konst(&mt)?;
                let Ty::Vec(_, e) = &t else { return Err("sv".into()) };
                let d = self.dst(name, &Ty::Vec(mv.len() as u32, e.clone()));
                for (j, k) in mv.iter().enumerate() { let k = *k as usize; let s = if k < a.len() { a[k] } else if k - a.len() < b.len() { b[k - a.len()] } else { a[0] }; self.push(I::Mov { d: d + j as u32, a: s }) }
            }
            "atomicrmw" => {
                if p.peekw() == "volatile" { p.word(); }
                let o = match p.word() { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "umax" => 6, "umin" => 7, x => return Err(format!("rmw {}", x)) };
                let pt = p.ty()?; let a = self.val(p, &pt)?[0]; p.need(",")?; let t = p.ty()?; let v = self.val(p, &t)?[0]; let d = self.dst(name, &t);
                self.push(I::ARmw { op: o, w: t.bits() as u8, d, p: a, v })
            }
            "cmpxchg" => {
                while matches!(p.peekw(), "weak" | "volatile") { p.word(); }
                let pt = p.ty()?; let a = self.val(p, &pt)?[0]; p.need(",")?; let t = p.ty()?; let c = self.val(p, &t)?[0]; p.need(",")?; let _ = p.ty()?; let v = self.val(p, &t)?[0];
                let d = self.dst(name, &Ty::St(false, vec![t.clone(), Ty::Int(1)]));
                self.push(I::CmpX { w: t.bits() as u8, d, p: a, c, v })
            }
            "call" | "invoke" => return self.call(p, name, op == "invoke"),
            _ => return Err(format!("opcode {}", op)),
        }
        Ok(())
    }
    fn loadv(&mut self, t: &Ty, d: R, a: Opd) -> Res<()> {
        if let Ty::Vec(n, e) = t { if e.bits() < 8 {
            let tot = (*n as u64 * e.bits()) as u8; let r = self.tmp();
            self.push(I::Load { d: r, p: a, off: 0, w: tot });
            self.packs.push(PackT { from: vec![(r, tot)], to: (0..*n).map(|j| (d + j, e.bits() as u8)).collect() });
            let i = self.packs.len() as u32 - 1; self.push(I::Pack { i }); return Ok(());
        } }
        for (j, (o, w)) in t.leaves().iter().enumerate() { self.push(I::Load { d: d + j as u32, p: a, off: *o as u32, w: *w }) }
        Ok(())
    }
    fn fmf_ty(&mut self, p: &mut P<'a>) -> Res<Ty> { loop { if p.at_type() { return p.ty() } let w = p.word(); if w.is_empty() { return Err(format!("type? {}", p.rest())) } } }
    fn path(&mut self, p: &mut P<'a>, t: &Ty) -> Res<(u32, Ty)> {
        let mut o = 0; let mut cur = t.clone();
        loop {
            if !p.eat(",") { break }
            p.ws(); if !p.pk().is_ascii_digit() { break }
            let k: usize = p.word().parse().map_err(|_| "idx".to_string())?;
            cur = match cur { Ty::St(_, f) => { o += f[..k].iter().map(|t| t.nregs()).sum::<u32>(); f[k].clone() } Ty::Arr(_, e) => { o += k as u32 * e.nregs(); *e } _ => return Err("path".into()) };
        }
        Ok((o, cur))
    }
    fn bitcast(&mut self, ft: &Ty, a: &[Opd], tt: &Ty, d: R) -> Res<()> {
        let (fl, tl) = (ft.leaves(), tt.leaves());
        if fl.len() == tl.len() && fl.iter().zip(&tl).all(|(x, y)| x.1 == y.1) { for j in 0..a.len() { self.push(I::Mov { d: d + j as u32, a: a[j] }) } return Ok(()) }
        self.packs.push(PackT { from: a.iter().zip(&fl).map(|(x, l)| (*x, l.1)).collect(), to: tl.iter().enumerate().map(|(j, l)| (d + j as u32, l.1)).collect() });
        let i = self.packs.len() as u32 - 1; self.push(I::Pack { i }); Ok(())
    }
    fn wide(&mut self, op: &str, w: u32, w2: u32, d: R, a: Vec<Opd>, b: Vec<Opd>, c: Vec<Opd>) -> Res<()> {
        if w > 128 || w2 > 128 { return Err(format!("int width {}", w.max(w2))) }
        self.wides.push(WideT { op: op.into(), w, w2, d, a, b, c }); let i = self.wides.len() as u32 - 1; self.push(I::Wide { i }); Ok(())
    }
    /// Inline assembly: a template that is empty or only a comment passes on its operands; a processor asked for
    /// its features has none.
    fn asm(&mut self, p: &mut P<'a>, name: Option<&'a str>, rt: Ty) -> Res<()> {
        let text = String::from_utf8_lossy(&p.s[p.i..]).into_owned(); let text = text.lines().next().unwrap_or("").to_string();
        let i = text.find('"').ok_or("asm")?; let j = i + 1 + text[i + 1..].find('"').ok_or("asm")?;
        let template = text[i + 1..j].to_string(); let k = j + 1 + text[j + 1..].find('"').ok_or("asm")?; let l = k + 1 + text[k + 1..].find('"').ok_or("asm")?;
        let cons: Vec<String> = text[k + 1..l].split(',').map(|x| x.to_string()).collect();
        let d = self.dst(name, &rt);
        if template.contains("cpuid") || template.contains("xgetbv") { let z = self.cst(0); for j in 0..rt.nregs() { self.push(I::Mov { d: d + j, a: z }) } return Ok(()) }
        let plain = template.is_empty() || template.starts_with("/*") && template.ends_with("*/") || template.trim() == "pause";
        if !plain { return Err(format!("asm {}", template)) }
        if rt.nregs() == 0 { return Ok(()) }
        if rt.nregs() == 1 && cons.get(0).map_or(false, |c| c.starts_with('=')) && cons.get(1).map_or(false, |c| c == "0") {
            p.i += l + 1; p.need("(")?; let t = p.ty()?;
            loop { p.ws(); if matches!(p.pk(), b'%' | b'@' | b'-') || p.pk().is_ascii_digit() { break } p.word(); p.ws(); if p.pk() == b'(' { p.skip_paren() } }
            let v = self.val(p, &t)?; self.push(I::Mov { d, a: v[0] }); return Ok(())
        }
        Err(format!("asm {}", template))
    }
    fn call(&mut self, p: &mut P<'a>, name: Option<&'a str>, invoke: bool) -> Res<()> {
        // skip calling convention and return attributes
        loop { if p.at_type() { break } let w = p.word(); if w.is_empty() { return Err(format!("call {}", p.rest())) } p.ws(); if p.pk() == b'(' { p.skip_paren() } if w == "align" { p.word(); } }
        let rt = p.ty()?;
        p.ws(); if p.pk() == b'(' { p.skip_paren(); p.ws() }
        let mut fname = None; let mut ind = 0;
        if p.pk() == b'@' { p.i += 1; fname = Some(p.name()) }
        else if p.pk() == b'%' { ind = self.val(p, &Ty::Ptr)?[0] }
        else if p.peekw() == "asm" { return self.asm(p, name, rt) }
        else { ind = self.val(p, &Ty::Ptr)?[0] }
        if let Some(n) = fname {
            if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.donothing" || n.starts_with("llvm.prefetch") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.invariant") { return Ok(()) }
        }
        p.need("(")?;
        let mut args: Vec<(Ty, Vec<Opd>)> = vec![];
        if !p.eat(")") {
            loop {
                let t = p.ty()?;
                if t == Ty::Meta { return Err("metadata arg".into()) }
                // argument attributes
                loop {
                    p.ws();
                    let c = p.pk();
                    if matches!(c, b'%' | b'@' | b'-' | b'{' | b'[' | b'<') || c.is_ascii_digit() { break }
                    if c == b'c' && p.s[p.i + 1] == b'"' { break }
                    let w = p.peekw();
                    if matches!(w, "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sub" | "add" | "mul" | "xor" | "splat" | "blockaddress") { break }
                    if w.is_empty() { return Err(format!("arg {}", p.rest())) }
                    p.word(); p.ws();
                    if w == "align" { p.ws(); if p.pk() == b'(' { p.skip_paren() } else { p.word(); } } else if p.pk() == b'(' { p.skip_paren() }
                }
                let v = self.val(p, &t)?; args.push((t, v));
                if p.eat(",") { continue }
                p.need(")")?; break;
            }
        }
        let mut edge = None;
        if invoke { while !p.s[p.i..].starts_with(b"to label ") { p.i += 1; if p.i >= p.s.len() { return Err("invoke".into()) } } p.need("to")?; edge = Some(self.edge(p)?) }
        let d = self.dst(name, &rt);
        if let Some(n) = fname { if n.starts_with("llvm.") {
            self.intrinsic(n, &rt, d, &args)?;
            if let Some(e) = edge { self.push(I::Br { e }) }
            return Ok(());
        } }
        let callee = match fname { Some(n) => match self.m.fnidx.get(n) { Some(&f) => Callee::F(f), None => return Err(format!("callee {}", n)) }, None => Callee::Ind(ind) };
        let mut fl = vec![]; let mut aw = vec![];
        for (t, v) in args { for (j, l) in t.leaves().iter().enumerate() { fl.push(v[j]); aw.push(l.1) } }
        self.calls.push(CallT { callee, args: fl, d, nd: rt.nregs(), edge, aw });
        let i = self.calls.len() as u32 - 1; self.push(I::Call { i });
        Ok(())
    }
    fn intrinsic(&mut self, n: &str, rt: &Ty, d: R, args: &[(Ty, Vec<Opd>)]) -> Res<()> {
        let parts: Vec<&str> = n[5..].split('.').collect();
        let a = |i: usize| -> &Vec<Opd> { &args[i].1 };
        let w0 = args.get(0).map(|x| x.0.leaves().get(0).map_or(0, |l| l.1)).unwrap_or(0);
        let wide = matches!(args.get(0).map(|x| &x.0), Some(Ty::Int(w)) if *w > 64);
        let full = if let Some((Ty::Int(w), _)) = args.get(0) { *w } else { 0 };
        let nlanes = rt.nregs();
        if let Some(pos) = n.find(".with.overflow") {
            let o = &n[5..pos]; let sg = o.starts_with('s'); let op = match &o[1..] { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, _ => return Err(n.into()) };
            if wide { return self.wide(&format!("ovf.{}", o), full, 0, d, a(0).clone(), a(1).clone(), vec![]) }
            self.push(I::Ovf { op, sg, w: w0, d, a: a(0)[0], b: a(1)[0] }); return Ok(());
        }
        match parts[0] {
            "memcpy" | "memmove" => { let (x, y, z) = (a(0)[0], a(1)[0], a(2)[0]); self.push(I::MemCpy { d: x, s: y, n: z }) }
            "memset" => { let (x, y, z) = (a(0)[0], a(1)[0], a(2)[0]); self.push(I::MemSet { d: x, v: y, n: z }) }
            "assume" => { let c = a(0)[0]; self.push(I::Assume { c }) }
            "trap" | "debugtrap" | "ubsantrap" => self.push(I::Unreach),
            "expect" => { let x = a(0).clone(); for j in 0..nlanes { self.push(I::Mov { d: d + j, a: x[j as usize] }) } }
            "threadlocal" | "ssa" | "launder" | "strip" | "ptrannotation" => { let x = a(0)[0]; self.push(I::Mov { d, a: x }) }
            "is" if n.starts_with("llvm.is.constant") => { let z = self.cst(0); self.push(I::Mov { d, a: z }) }
            "is" if n.starts_with("llvm.is.fpclass") => { let m = self.consts[(a(1)[0] & !CONST) as usize] as u32; let x = a(0)[0]; self.push(I::FClass { m, w: w0, d, a: x }) }
            "umin" | "umax" | "smin" | "smax" => {
                if wide { return self.wide(parts[0], full, 0, d, a(0).clone(), a(1).clone(), vec![]) }
                let (sg, max) = (parts[0].starts_with('s'), parts[0].ends_with("max"));
                for j in 0..nlanes as usize { let (x, y) = (a(0)[j], a(1)[j]); self.push(I::MinMax { sg, max, w: w0, d: d + j as u32, a: x, b: y }) }
            }
            "uadd" | "usub" | "sadd" | "ssub" if parts[1] == "sat" => {
                if wide { return Err("wide sat".into()) }
                let (sg, op) = (parts[0].starts_with('s'), if parts[0].ends_with("add") { B::Add } else { B::Sub });
                for j in 0..nlanes as usize { let (x, y) = (a(0)[j], a(1)[j]); self.push(I::Sat { op, sg, w: w0, d: d + j as u32, a: x, b: y }) }
            }
            "ucmp" | "scmp" => { let (x, y) = (a(0)[0], a(1)[0]); if wide { return Err("wide cmp3".into()) } self.push(I::Cmp3 { sg: parts[0] == "scmp", w: w0, rw: rt.bits() as u8, d, a: x, b: y }) }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" | "abs" => {
                if wide { return self.wide(parts[0], full, 0, d, a(0).clone(), vec![], vec![]) }
                let op = match parts[0] { "ctpop" => Un1::Ctpop, "ctlz" => Un1::Ctlz, "cttz" => Un1::Cttz, "bswap" => Un1::Bswap, "bitreverse" => Un1::Bitrev, _ => Un1::Abs };
                for j in 0..nlanes as usize { let x = a(0)[j]; self.push(I::Un { op, w: w0, d: d + j as u32, a: x }) }
            }
            "fshl" | "fshr" => {
                if wide { return self.wide(parts[0], full, 0, d, a(0).clone(), a(1).clone(), a(2).clone()) }
                for j in 0..nlanes as usize { let (x, y, z) = (a(0)[j], a(1)[j], a(2)[j]); self.push(I::Fsh { l: parts[0] == "fshl", w: w0, d: d + j as u32, a: x, b: y, c: z }) }
            }
            "load" if n.starts_with("llvm.load.relative") => { let (x, y) = (a(0)[0], a(1)[0]); self.push(I::LoadRel { d, p: x, o: y }) }
            "fabs" | "sqrt" | "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" | "exp" | "log" | "log2" | "log10" | "sin" | "cos" => {
                let op = match parts[0] { "fabs" => Fun::Abs, "sqrt" => Fun::Sqrt, "floor" => Fun::Floor, "ceil" => Fun::Ceil, "trunc" => Fun::Trunc, "round" => Fun::Round, "roundeven" | "rint" | "nearbyint" => Fun::RoundEven, "exp" => Fun::Exp, "log" => Fun::Log, "log2" => Fun::Log2, "log10" => Fun::Log10, "sin" => Fun::Sin, _ => Fun::Cos };
                for j in 0..nlanes as usize { let x = a(0)[j]; self.push(I::FUn { op, w: w0, d: d + j as u32, a: x }) }
            }
            "pow" => { let (x, y) = (a(0)[0], a(1)[0]); self.push(I::FBin { op: 5, w: w0, d, a: x, b: y }) }
            "powi" => { let (x, y) = (a(0)[0], a(1)[0]); self.push(I::FBin { op: 6, w: w0, d, a: x, b: y }) }
            "minnum" | "minimum" => { let (x, y) = (a(0)[0], a(1)[0]); self.push(I::FBin { op: 7, w: w0, d, a: x, b: y }) }
            "maxnum" | "maximum" => { let (x, y) = (a(0)[0], a(1)[0]); self.push(I::FBin { op: 8, w: w0, d, a: x, b: y }) }
            "copysign" => { let (x, y) = (a(0)[0], a(1)[0]); self.push(I::FBin { op: 9, w: w0, d, a: x, b: y }) }
            "fma" | "fmuladd" => return Err(n.into()),
            "fptoui" | "fptosi" => { let x = a(0)[0]; if rt.bits() > 64 { return Err(n.into()) } self.push(I::F2I { sg: parts[0] == "fptosi", sat: true, fw: w0, w: rt.bits() as u8, d, a: x }) }
            "ptrmask" => { let (x, y) = (a(0)[0], a(1)[0]); self.push(I::Bin { op: B::And, w: 64, d, a: x, b: y }) }
            "vector" if parts[1] == "reduce" => {
                let v = a(0).clone(); let mut acc = v[0];
                for x in &v[1..] {
                    let r = self.tmp();
                    match parts[2] {
                        "add" => self.push(I::Bin { op: B::Add, w: w0, d: r, a: acc, b: *x }), "or" => self.push(I::Bin { op: B::Or, w: w0, d: r, a: acc, b: *x }),
                        "and" => self.push(I::Bin { op: B::And, w: w0, d: r, a: acc, b: *x }), "xor" => self.push(I::Bin { op: B::Xor, w: w0, d: r, a: acc, b: *x }), "mul" => self.push(I::Bin { op: B::Mul, w: w0, d: r, a: acc, b: *x }),
                        "umax" | "umin" | "smax" | "smin" => self.push(I::MinMax { sg: parts[2].starts_with('s'), max: parts[2].ends_with("max"), w: w0, d: r, a: acc, b: *x }),
                        _ => return Err(n.into()),
                    }
                    acc = r;
                }
                self.push(I::Mov { d, a: acc })
            }
            _ => return Err(format!("intrinsic {}", n)),
        }
        Ok(())
    }
}
