//! Verification stand-in for rayon: the same adaptor surface, executed
//! sequentially on the calling thread. `sym_par` tells the executor where a
//! parallel region and each of its work items begin and end, and chooses the
//! order: 0 index order (the default), 1 backwards, 2 starting in the middle.
//! That one order stands for all schedules is what property C17 decides.
unsafe extern "C" { fn sym_par(op: u32, p: *const u8) -> u32; }
#[inline(never)]
fn par(op: u32, p: *const u8) -> u32 { unsafe { sym_par(op, p) } }
fn p<T>(x: &T) -> *const u8 { x as *const T as *const u8 }
/// One parallel region: every item through f, results in index order.
fn run<I: Iterator, R, F: FnMut(I::Item) -> R>(it: I, mut f: F) -> Vec<R> {
  let mode = par(0, p(&f));
  let mut out = Vec::new();
  let mut item = |x, f: &mut F| { par(1, p(f)); let r = f(x); par(2, p(f)); r };
  if mode == 0 { for x in it { out.push(item(x, &mut f)) } }
  else {
    let mut v: Vec<I::Item> = it.collect(); let n = v.len();
    let k = if mode == 1 { v.reverse(); 0 } else { v.rotate_left(n / 2); n - n / 2 };
    for x in v { out.push(item(x, &mut f)) }
    if mode == 1 { out.reverse() } else { out.rotate_left(k) }
  }
  par(3, p(&out));
  out
}
pub mod iter {
  pub struct Par<I>(pub I);

  pub trait ParallelIterator: Sized {
    type Item;
    type Inner: Iterator<Item = Self::Item>;
    fn seq(self) -> Self::Inner;

    fn for_each<F: FnMut(Self::Item)>(self, f: F) { crate::run(self.seq(), f); }
    fn for_each_with<T: Clone, F: FnMut(&mut T, Self::Item)>(self, init: T, mut f: F) { crate::run(self.seq(), |x| f(&mut init.clone(), x)); }
    fn for_each_init<T, I: FnMut() -> T, F: FnMut(&mut T, Self::Item)>(self, mut init: I, mut f: F) { crate::run(self.seq(), |x| { let mut s = init(); f(&mut s, x) }); }
    fn try_for_each<E, F: FnMut(Self::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> { crate::run(self.seq(), f).into_iter().collect() }
    fn map<R, F: FnMut(Self::Item) -> R>(self, f: F) -> Par<std::vec::IntoIter<R>> { Par(crate::run(self.seq(), f).into_iter()) }
    fn filter<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<Self::Inner, F>> { Par(self.seq().filter(f)) }
    fn filter_map<R, F: FnMut(Self::Item) -> Option<R>>(self, f: F) -> Par<std::iter::Flatten<std::vec::IntoIter<Option<R>>>> { Par(crate::run(self.seq(), f).into_iter().flatten()) }
    fn flat_map<R: IntoIterator, F: FnMut(Self::Item) -> R>(self, f: F) -> Par<std::iter::Flatten<std::vec::IntoIter<R>>> { Par(crate::run(self.seq(), f).into_iter().flatten()) }
    fn flat_map_iter<R: IntoIterator, F: FnMut(Self::Item) -> R>(self, f: F) -> Par<std::iter::Flatten<std::vec::IntoIter<R>>> { Par(crate::run(self.seq(), f).into_iter().flatten()) }
    fn flatten(self) -> Par<std::iter::Flatten<Self::Inner>> where Self::Item: IntoIterator { Par(self.seq().flatten()) }
    fn flatten_iter(self) -> Par<std::iter::Flatten<Self::Inner>> where Self::Item: IntoIterator { Par(self.seq().flatten()) }
    fn inspect<F: FnMut(&Self::Item)>(self, f: F) -> Par<std::iter::Inspect<Self::Inner, F>> { Par(self.seq().inspect(f)) }
    fn chain<C: ParallelIterator<Item = Self::Item>>(self, o: C) -> Par<std::iter::Chain<Self::Inner, C::Inner>> { Par(self.seq().chain(o.seq())) }
    fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<Self::Inner>> where Self::Inner: Iterator<Item = &'a T>, Self: ParallelIterator<Item = &'a T> { Par(self.seq().copied()) }
    fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<Self::Inner>> where Self::Inner: Iterator<Item = &'a T>, Self: ParallelIterator<Item = &'a T> { Par(self.seq().cloned()) }
    fn collect<C: std::iter::FromIterator<Self::Item>>(self) -> C { self.seq().collect() }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.seq().sum() }
    fn count(self) -> usize { self.seq().count() }
    fn min(self) -> Option<Self::Item> where Self::Item: Ord { self.seq().min() }
    fn max(self) -> Option<Self::Item> where Self::Item: Ord { self.seq().max() }
    fn min_by<F: FnMut(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> { self.seq().min_by(f) }
    fn max_by<F: FnMut(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> { self.seq().max_by(f) }
    fn any<F: FnMut(Self::Item) -> bool>(self, f: F) -> bool { self.seq().any(f) }
    fn all<F: FnMut(Self::Item) -> bool>(self, f: F) -> bool { self.seq().all(f) }
    fn find_any<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> { self.seq().find(f) }
    fn find_first<F: FnMut(&Self::Item) -> bool>(self, f: F) -> Option<Self::Item> { self.seq().find(f) }
    fn reduce<ID: Fn() -> Self::Item, OP: FnMut(Self::Item, Self::Item) -> Self::Item>(self, id: ID, op: OP) -> Self::Item { self.seq().fold(id(), op) }
    fn fold<T, ID: Fn() -> T, F: FnMut(T, Self::Item) -> T>(self, id: ID, f: F) -> Par<std::iter::Once<T>> { Par(std::iter::once(self.seq().fold(id(), f))) }
  }
  pub trait IndexedParallelIterator: ParallelIterator {
    fn enumerate(self) -> Par<std::iter::Enumerate<Self::Inner>> { Par(self.seq().enumerate()) }
    fn zip<Z: IntoParallelIterator>(self, z: Z) -> Par<std::iter::Zip<Self::Inner, Z::Inner>> { Par(self.seq().zip(z.into_par_iter().0)) }
    fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Par<std::iter::Zip<Self::Inner, Z::Inner>> { Par(self.seq().zip(z.into_par_iter().0)) }
    fn skip(self, n: usize) -> Par<std::iter::Skip<Self::Inner>> { Par(self.seq().skip(n)) }
    fn take(self, n: usize) -> Par<std::iter::Take<Self::Inner>> { Par(self.seq().take(n)) }
    fn step_by(self, n: usize) -> Par<std::iter::StepBy<Self::Inner>> { Par(self.seq().step_by(n)) }
    fn rev(self) -> Par<std::iter::Rev<Self::Inner>> where Self::Inner: DoubleEndedIterator { Par(self.seq().rev()) }
    fn with_min_len(self, _n: usize) -> Self { self }
    fn with_max_len(self, _n: usize) -> Self { self }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) { v.clear(); v.extend(self.seq()) }
  }
  impl<I: Iterator> ParallelIterator for Par<I> {
    type Item = I::Item;
    type Inner = I;
    fn seq(self) -> I { self.0 }
  }
  impl<I: Iterator> IndexedParallelIterator for Par<I> {}

  pub trait IntoParallelIterator {
    type Item;
    type Inner: Iterator<Item = Self::Item>;
    type Iter;
    fn into_par_iter(self) -> Par<Self::Inner>;
  }
  impl<T: IntoIterator> IntoParallelIterator for T {
    type Item = T::Item;
    type Inner = T::IntoIter;
    type Iter = Par<T::IntoIter>;
    fn into_par_iter(self) -> Par<T::IntoIter> { Par(self.into_iter()) }
  }
  impl<I: Iterator> IntoIterator for Par<I> {
    type Item = I::Item;
    type IntoIter = I;
    fn into_iter(self) -> I { self.0 }
  }
  pub trait IntoParallelRefIterator<'a> {
    type Inner: Iterator;
    fn par_iter(&'a self) -> Par<Self::Inner>;
  }
  impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator {
    type Inner = <&'a T as IntoIterator>::IntoIter;
    fn par_iter(&'a self) -> Par<Self::Inner> { Par(self.into_iter()) }
  }
  pub trait IntoParallelRefMutIterator<'a> {
    type Inner: Iterator;
    fn par_iter_mut(&'a mut self) -> Par<Self::Inner>;
  }
  impl<'a, T: 'a + ?Sized> IntoParallelRefMutIterator<'a> for T where &'a mut T: IntoIterator {
    type Inner = <&'a mut T as IntoIterator>::IntoIter;
    fn par_iter_mut(&'a mut self) -> Par<Self::Inner> { Par(self.into_iter()) }
  }
  pub trait ParallelBridge: Sized + Iterator {
    fn par_bridge(self) -> Par<Self> { Par(self) }
  }
  impl<I: Iterator> ParallelBridge for I {}
  pub trait ParallelExtend<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I); }
  impl<T> ParallelExtend<T> for Vec<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) { self.extend(i.into_par_iter().0) } }
}
pub mod slice {
  use crate::iter::Par;
  pub type Chunks<'a, T> = Par<std::slice::Chunks<'a, T>>;
  pub type ChunksExact<'a, T> = Par<std::slice::ChunksExact<'a, T>>;
  pub type ChunksMut<'a, T> = Par<std::slice::ChunksMut<'a, T>>;
  pub type ChunksExactMut<'a, T> = Par<std::slice::ChunksExactMut<'a, T>>;
  pub trait ParallelSlice<T> {
    fn as_par(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Chunks<'_, T> { Par(self.as_par().chunks(n)) }
    fn par_chunks_exact(&self, n: usize) -> ChunksExact<'_, T> { Par(self.as_par().chunks_exact(n)) }
    fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> { Par(self.as_par().windows(n)) }
  }
  impl<T> ParallelSlice<T> for [T] { fn as_par(&self) -> &[T] { self } }
  pub trait ParallelSliceMut<T> {
    fn as_par_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> ChunksMut<'_, T> { Par(self.as_par_mut().chunks_mut(n)) }
    fn par_chunks_exact_mut(&mut self, n: usize) -> ChunksExactMut<'_, T> { Par(self.as_par_mut().chunks_exact_mut(n)) }
    fn par_sort(&mut self) where T: Ord { self.as_par_mut().sort() }
    fn par_sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.as_par_mut().sort_by(f) }
  }
  impl<T> ParallelSliceMut<T> for [T] { fn as_par_mut(&mut self) -> &mut [T] { self } }
}
pub mod prelude {
  pub use crate::iter::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelIterator};
  pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}
pub fn join<A: FnOnce() -> RA, B: FnOnce() -> RB, RA, RB>(a: A, b: B) -> (RA, RB) { (a(), b()) }
pub fn spawn<F: FnOnce()>(f: F) { f() }
pub fn current_num_threads() -> usize { 1 }
