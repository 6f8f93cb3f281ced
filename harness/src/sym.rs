//! The interface to the symbolic engine. Under the `native` feature the same functions read a
//! recorded list of inputs, so that any path of the engine can be replayed on the real build.
#[cfg(not(feature = "native"))]
extern "C-unwind" {
    fn __sym_input(w: u32) -> u64;
    fn __sym_assume(c: u64);
    fn __sym_assert(c: u64, id: u32);
    fn __sym_observe(v: u64);
    fn __sym_reach(id: u32);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_fail(id: u32) -> !;
}
#[cfg(feature = "native")]
mod native {
    use std::cell::RefCell;
    thread_local! { pub static ST: RefCell<(Vec<u64>, usize, Vec<u64>)> = RefCell::new((vec![], 0, vec![])); }
    pub struct Stop(pub String);
    pub fn stop(s: String) -> ! { std::panic::resume_unwind(Box::new(Stop(s))) }
    #[no_mangle] pub extern "C-unwind" fn __sym_input(w: u32) -> u64 {
        ST.with(|s| { let mut s = s.borrow_mut(); let k = s.1; s.1 += 1; if k >= s.0.len() { drop(s); stop("inputs exhausted".into()) } let v = s.0[k]; if w >= 64 { v } else { v & ((1 << w) - 1) } })
    }
    #[no_mangle] pub extern "C-unwind" fn __sym_assume(c: u64) { if c == 0 { stop("assumption not met".into()) } }
    #[no_mangle] pub extern "C-unwind" fn __sym_assert(c: u64, id: u32) { if c == 0 { stop(format!("assert {}", id)) } }
    #[no_mangle] pub extern "C-unwind" fn __sym_fail(id: u32) -> ! { stop(format!("assert {}", id)) }
    #[no_mangle] pub extern "C-unwind" fn __sym_observe(v: u64) { ST.with(|s| s.borrow_mut().2.push(v)) }
    #[no_mangle] pub extern "C-unwind" fn __sym_reach(_: u32) {}
    #[no_mangle] pub extern "C-unwind" fn __sym_concretize(v: u64) -> u64 { v }
}
#[cfg(feature = "native")]
pub use native::*;

/// A fresh symbolic value of `w` bits.
#[inline(never)] pub fn inp(w: u32) -> u64 { #[allow(unused_unsafe)] unsafe { __sym_input(w) } }
/// A fresh symbolic decision; the code that follows runs for both values.
#[inline(always)] pub fn flip() -> bool { inp(1) == 1 }
/// Any value in 0..n, decided here.
pub fn pick(n: u64) -> u64 { if n <= 1 { return 0 } let v = inp(64 - (n - 1).leading_zeros()); assume(v < n); conc(v) }
/// Any value in lo..=hi, left symbolic.
pub fn within(w: u32, lo: u64, hi: u64) -> u64 { let v = inp(w); assume_b((v >= lo) as u64 & (v <= hi) as u64); v }
#[inline(always)] pub fn assume(c: bool) { assume_b(c as u64) }
#[inline(always)] pub fn assume_b(c: u64) { #[allow(unused_unsafe)] unsafe { __sym_assume(c) } }
#[inline(always)] pub fn check(c: bool, id: u32) { check_b(c as u64, id) }
#[inline(always)] pub fn check_b(c: u64, id: u32) { #[allow(unused_unsafe)] unsafe { __sym_assert(c, id) } }
pub fn fail(id: u32) -> ! { #[allow(unused_unsafe)] unsafe { __sym_fail(id) } }
#[inline(always)] pub fn obs(v: u64) { #[allow(unused_unsafe)] unsafe { __sym_observe(v) } }
#[inline(always)] pub fn reach(id: u32) { #[allow(unused_unsafe)] unsafe { __sym_reach(id) } }
pub fn conc(v: u64) -> u64 { #[allow(unused_unsafe)] unsafe { __sym_concretize(v) } }

/// A bit set over 8 * `bytes` IDs with symbolic members, and its mask.
pub fn symset(bytes: usize) -> (bit_set::BitSet, u64) {
    let mut b = vec![0u8; bytes]; let mut m = 0u64;
    for i in 0..bytes { let x = inp(8); b[i] = x as u8; for k in 0..8 { m |= (x >> (7 - k) & 1) << (8 * i + k) } }
    (bit_set::BitSet::from_bytes(&b), m)
}
/// Values seen by the comparison of sampled paths with native runs.
pub fn obsv(v: &[u32]) { obs(v.len() as u64); for &x in v { obs(x as u64) } }
