//! Nondeterministic stand-in for rand 0.7: every draw is a symbolic input that ranges over every
//! value the documented contract of the called function allows.
extern "C-unwind" { fn __sym_input(w: u32) -> u64; fn __sym_assume(c: u64); }
/// Any value in 0..n (n > 0).
pub fn below(n: u64) -> u64 {
    if n <= 1 { return 0 }
    let w = 64 - (n - 1).leading_zeros();
    unsafe { let v = __sym_input(w); __sym_assume((v < n) as u64); v }
}
pub fn bit() -> bool { unsafe { __sym_input(1) == 1 } }
pub trait RngCore { fn next_u32(&mut self) -> u32 { unsafe { __sym_input(32) as u32 } } fn next_u64(&mut self) -> u64 { unsafe { __sym_input(64) } } }
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
impl RngCore for ThreadRng {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}
pub mod rngs { pub use crate::ThreadRng; pub type StdRng = crate::ThreadRng; pub type SmallRng = crate::ThreadRng; }
pub trait SeedableRng: Sized { fn seed_from_u64(_: u64) -> Self; fn from_entropy() -> Self; }
impl SeedableRng for ThreadRng { fn seed_from_u64(_: u64) -> Self { ThreadRng } fn from_entropy() -> Self { ThreadRng } }
pub trait Uniform: Sized { fn range(lo: Self, hi: Self, incl: bool) -> Self; fn any() -> Self; }
macro_rules! u { ($($t:ty),*) => { $( impl Uniform for $t {
    fn range(lo: $t, hi: $t, incl: bool) -> $t { if incl { assert!(lo <= hi) } else { assert!(lo < hi, "UniformSampler::sample_single: low >= high") } let n = (hi as i128 - lo as i128) as u64; let n = if incl { n.wrapping_add(1) } else { n }; if n == 0 { return unsafe { __sym_input(64) } as $t } (lo as i128 + below(n) as i128) as $t }
    fn any() -> $t { unsafe { __sym_input(<$t>::BITS) as $t } }
} )* } }
u!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl Uniform for bool { fn range(_: bool, _: bool, _: bool) -> bool { bit() } fn any() -> bool { bit() } }
impl Uniform for f64 {
    fn range(lo: f64, hi: f64, _: bool) -> f64 { lo + (hi - lo) * f64::any() }
    /// multiples of 1/16 in [0, 1): a sampled subset of the contract, unlike everything else here
    fn any() -> f64 { below(16) as f64 / 16.0 }
}
pub trait Rng: RngCore {
    fn gen<T: Uniform>(&mut self) -> T { T::any() }
    fn gen_range<T: Uniform>(&mut self, lo: T, hi: T) -> T { T::range(lo, hi, false) }
    fn gen_bool(&mut self, p: f64) -> bool { assert!(p >= 0.0 && p <= 1.0, "gen_bool: p outside [0, 1]"); if p == 0.0 { false } else if p == 1.0 { true } else { bit() } }
    fn gen_ratio(&mut self, a: u32, b: u32) -> bool { assert!(b > 0 && a <= b); if a == 0 { false } else if a == b { true } else { bit() } }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub fn random<T: Uniform>() -> T { T::any() }
pub mod distributions {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum WeightedError { NoItem, InvalidWeight, AllWeightsZero, TooMany }
    pub mod weighted { pub use super::WeightedError; }
    pub trait Weight: Copy { fn pos(self) -> bool; fn neg(self) -> bool; }
    macro_rules! w { ($($t:ty),*) => { $( impl Weight for $t { #[allow(unused_comparisons)] fn pos(self) -> bool { self > 0 as $t } #[allow(unused_comparisons)] fn neg(self) -> bool { !(self >= 0 as $t) } } )* } }
    w!(u8, u16, u32, u64, usize, i32, i64, f32, f64);
}
pub mod seq {
    use super::*; use distributions::{Weight, WeightedError};
    pub trait SliceRandom {
        type Item;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: Rng + ?Sized>(&mut self, r: &mut R) -> Option<&mut Self::Item>;
        fn choose_multiple<R: Rng + ?Sized>(&self, r: &mut R, n: usize) -> std::vec::IntoIter<&Self::Item>;
        fn choose_weighted<R: Rng + ?Sized, F: Fn(&Self::Item) -> X, X: Weight>(&self, r: &mut R, f: F) -> Result<&Self::Item, WeightedError>;
        fn choose_weighted_mut<R: Rng + ?Sized, F: Fn(&Self::Item) -> X, X: Weight>(&mut self, r: &mut R, f: F) -> Result<&mut Self::Item, WeightedError>;
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R);
        fn partial_shuffle<R: Rng + ?Sized>(&mut self, r: &mut R, n: usize) -> (&mut [Self::Item], &mut [Self::Item]);
    }
    fn pick<X: Weight>(ws: Vec<X>) -> Result<usize, WeightedError> {
        if ws.is_empty() { return Err(WeightedError::NoItem) }
        if ws.iter().any(|w| w.neg()) { return Err(WeightedError::InvalidWeight) }
        let pos: Vec<usize> = (0..ws.len()).filter(|&i| ws[i].pos()).collect();
        if pos.is_empty() { return Err(WeightedError::AllWeightsZero) }
        Ok(pos[below(pos.len() as u64) as usize])
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, _: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[below(self.len() as u64) as usize]) } }
        fn choose_mut<R: Rng + ?Sized>(&mut self, _: &mut R) -> Option<&mut T> { if self.is_empty() { None } else { let k = below(self.len() as u64) as usize; Some(&mut self[k]) } }
        fn choose_multiple<R: Rng + ?Sized>(&self, r: &mut R, n: usize) -> std::vec::IntoIter<&T> { let mut v: Vec<&T> = self.iter().collect(); v.shuffle(r); v.truncate(n); v.into_iter() }
        fn choose_weighted<R: Rng + ?Sized, F: Fn(&T) -> X, X: Weight>(&self, _: &mut R, f: F) -> Result<&T, WeightedError> { pick(self.iter().map(f).collect()).map(|k| &self[k]) }
        fn choose_weighted_mut<R: Rng + ?Sized, F: Fn(&T) -> X, X: Weight>(&mut self, _: &mut R, f: F) -> Result<&mut T, WeightedError> { let k = pick(self.iter().map(f).collect())?; Ok(&mut self[k]) }
        fn shuffle<R: Rng + ?Sized>(&mut self, _: &mut R) { for i in (1..self.len()).rev() { let k = below(i as u64 + 1) as usize; self.swap(i, k) } }
        fn partial_shuffle<R: Rng + ?Sized>(&mut self, r: &mut R, n: usize) -> (&mut [T], &mut [T]) { self.shuffle(r); let k = self.len() - n.min(self.len()); let (a, b) = self.split_at_mut(k); (b, a) }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: Rng + ?Sized>(self, r: &mut R) -> Option<Self::Item> { let mut v: Vec<Self::Item> = self.collect(); let _ = &r; if v.is_empty() { None } else { let k = below(v.len() as u64) as usize; Some(v.swap_remove(k)) } }
        fn choose_multiple<R: Rng + ?Sized>(self, r: &mut R, n: usize) -> Vec<Self::Item> { let mut v: Vec<Self::Item> = self.collect(); v.shuffle(r); v.truncate(n); v }
    }
    impl<I: Iterator> IteratorRandom for I {}
}
pub mod prelude { pub use crate::seq::{IteratorRandom, SliceRandom}; pub use crate::{random, rngs::*, thread_rng, Rng, RngCore, SeedableRng, ThreadRng}; }
