//! Stand-in for par-map 0.1: tasks are started in order, at most as many at a time as there are
//! threads, and come to an end in any order; results are handed out in the order of the items.
//! Which of the tasks that run ends next is a symbolic input. A task runs in one go.
use std::collections::VecDeque;
extern "C-unwind" { fn __sym_input(w: u32) -> u64; fn __sym_assume(c: u64); }
fn below(n: u64) -> u64 {
    if n <= 1 { return 0 }
    let w = 64 - (n - 1).leading_zeros();
    unsafe { let v = __sym_input(w); __sym_assume((v < n) as u64); v }
}
enum Slot<A, B> { Todo(A), Running, Done(B) }
pub struct Map<I: Iterator, B, F> { iter: I, f: F, nb: usize, queue: VecDeque<Slot<I::Item, B>> }
impl<I: Iterator, B, F: Fn(I::Item) -> B> Map<I, B, F> {
    fn spawn(&mut self) { if let Some(x) = self.iter.next() { self.queue.push_back(Slot::Todo(x)) } }
}
impl<I: Iterator, B, F: Fn(I::Item) -> B> Iterator for Map<I, B, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while matches!(self.queue.front(), Some(Slot::Todo(_))) {
            let running: Vec<usize> = (0..self.queue.len()).filter(|&i| matches!(self.queue[i], Slot::Todo(_))).take(self.nb).collect();
            let i = running[below(running.len() as u64) as usize];
            if let Slot::Todo(x) = std::mem::replace(&mut self.queue[i], Slot::Running) { let b = (self.f)(x); self.queue[i] = Slot::Done(b) }
        }
        match self.queue.pop_front() { Some(Slot::Done(b)) => { self.spawn(); Some(b) } _ => None }
    }
}
pub struct ParMapBuilder<I> { iter: I, nb: usize }
impl<I: Iterator> ParMapBuilder<I> {
    pub fn par_map<B, F>(self, f: F) -> Map<I, B, F> where F: Sync + Send + 'static + Fn(I::Item) -> B, B: Send + 'static, I::Item: Send + 'static {
        assert!(self.nb > 0);
        let mut r = Map { iter: self.iter, f, nb: self.nb, queue: VecDeque::new() };
        for _ in 0..2 * r.nb { r.spawn() }
        r
    }
}
pub trait ParMap: Iterator + Sized {
    fn with_nb_threads(self, nb: usize) -> ParMapBuilder<Self> { ParMapBuilder { iter: self, nb } }
    fn par_map<B, F>(self, f: F) -> Map<Self, B, F> where F: Sync + Send + 'static + Fn(Self::Item) -> B, B: Send + 'static, Self::Item: Send + 'static { self.with_nb_threads(4).par_map(f) }
}
impl<I: Iterator> ParMap for I {}
