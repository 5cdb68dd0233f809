//! Stands in for rayon: every parallel stage runs its tasks one after another
//! in an arbitrary order, which the symbolic executor chooses, or in threads
//! that it lets interleave, and puts their results where rayon does.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::{BuildHasher, Hash};

extern "C" {
  fn sym_range(lo: u64, hi: u64) -> u64;
  fn sym_threads(n: usize, f: extern "C" fn(*const (), usize), data: *const (), preempt: usize);
}
fn choose(n: usize) -> usize {
  if n <= 1 || INSIDE.get() {
    0
  } else {
    unsafe { sym_range(0, n as u64 - 1) as usize }
  }
}

thread_local! {
  /// How many stages and tasks were run, and how many stages may still be
  /// run in any order.
  static STAGES: Cell<usize> = const { Cell::new(0) };
  static TASKS: Cell<usize> = const { Cell::new(0) };
  static FREE: Cell<usize> = const { Cell::new(0) };
  /// How many stages may still be run in threads, how many of them, and
  /// whether this is one.
  static THREADED: Cell<usize> = const { Cell::new(0) };
  static THREADS: Cell<usize> = const { Cell::new(0) };
  static INSIDE: Cell<bool> = const { Cell::new(false) };
}
/// Runs the next `n` stages in `k` threads, which may interleave.
pub fn thread_stages(n: usize, k: usize) {
  THREADED.set(n);
  THREADS.set(k);
}

/// Runs tasks in threads: each thread every k-th one.
fn in_threads<T, R>(items: &mut [Option<T>], out: &mut [Option<R>], f: &dyn Fn(T) -> R) {
  struct Work<'a, T, R>(*mut Option<T>, *mut Option<R>, usize, usize, &'a dyn Fn(T) -> R);
  extern "C" fn task<T, R>(w: *const (), i: usize) {
    let w = unsafe { &*(w as *const Work<T, R>) };
    INSIDE.set(true);
    let mut i = i;
    while i < w.2 {
      unsafe { *w.1.add(i) = Some((w.4)((*w.0.add(i)).take().unwrap())) };
      i += w.3;
    }
    INSIDE.set(false);
  }
  let k = THREADS.get().min(items.len());
  let w = Work(items.as_mut_ptr(), out.as_mut_ptr(), items.len(), k, f);
  unsafe { sym_threads(k, task::<T, R>, &w as *const _ as *const (), 2) };
}

/// Runs a stage whose tasks share nothing they may change.
fn run<T, R>(items: Vec<T>, f: impl Fn(T) -> R) -> Vec<R> {
  let n = items.len();
  if n < 2 || INSIDE.get() || THREADED.get() == 0 {
    return run_mut(items, f);
  }
  THREADED.set(THREADED.get() - 1);
  STAGES.set(STAGES.get() + 1);
  TASKS.set(TASKS.get() + n);
  let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
  let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
  in_threads(&mut items, &mut out, &f);
  out.into_iter().map(|r| r.unwrap()).collect()
}

/// The number of stages and tasks run so far.
pub fn stages() -> (usize, usize) {
  (STAGES.get(), TASKS.get())
}
/// Lets the next `n` stages run in any order; later ones run backwards.
pub fn free_stages(n: usize) {
  FREE.set(n);
}

/// The order in which the tasks of a stage run.
fn order(n: usize) -> Vec<usize> {
  STAGES.set(STAGES.get() + 1);
  TASKS.set(TASKS.get() + n);
  let mut left: Vec<usize> = (0..n).collect();
  if FREE.get() == 0 {
    left.reverse();
    return left;
  }
  FREE.set(FREE.get() - 1);
  let mut out = vec![];
  // any order of few tasks; of more, any one first, then the others forwards
  // or backwards
  let first = if n <= 3 { n } else { 1 };
  while left.len() > 1 && out.len() < first {
    let i = choose(left.len());
    out.push(left.remove(i));
  }
  if left.len() > 1 && choose(2) == 1 {
    left.reverse();
  }
  out.extend(left);
  out
}

/// Runs a stage.
fn run_mut<T, R>(items: Vec<T>, mut f: impl FnMut(T) -> R) -> Vec<R> {
  let n = items.len();
  let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
  let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
  for i in order(n) {
    out[i] = Some(f(items[i].take().unwrap()));
  }
  out.into_iter().map(|r| r.unwrap()).collect()
}

/// A parallel iterator: what its stages so far produced, in order.
pub struct Par<T>(Vec<T>);

impl<T> Par<T> {
  pub fn map<R>(self, f: impl Fn(T) -> R) -> Par<R> {
    Par(run(self.0, f))
  }
  pub fn map_with<S: Clone, R>(self, s: S, f: impl Fn(&mut S, T) -> R) -> Par<R> {
    self.map_init(move || s.clone(), f)
  }
  pub fn map_init<S, R>(self, init: impl Fn() -> S, f: impl Fn(&mut S, T) -> R) -> Par<R> {
    let mut s = init();
    Par(run_mut(self.0, |t| {
      if choose(2) == 1 {
        s = init();
      }
      f(&mut s, t)
    }))
  }
  pub fn for_each(self, f: impl Fn(T)) {
    run(self.0, f);
  }
  pub fn for_each_with<S: Clone>(self, s: S, f: impl Fn(&mut S, T)) {
    self.map_with(s, f);
  }
  pub fn for_each_init<S>(self, init: impl Fn() -> S, f: impl Fn(&mut S, T)) {
    self.map_init(init, f);
  }
  pub fn inspect(self, f: impl Fn(&T)) -> Par<T> {
    self.map(|t| {
      f(&t);
      t
    })
  }
  pub fn filter(self, f: impl Fn(&T) -> bool) -> Par<T> {
    self.filter_map(|t| f(&t).then_some(t))
  }
  pub fn filter_map<R>(self, f: impl Fn(T) -> Option<R>) -> Par<R> {
    Par(run(self.0, f).into_iter().flatten().collect())
  }
  pub fn flat_map<I: IntoParallelIterator>(self, f: impl Fn(T) -> I) -> Par<I::Item> {
    Par(run(self.0, |t| f(t).into_par_iter().0).into_iter().flatten().collect())
  }
  pub fn flat_map_iter<I: IntoIterator>(self, f: impl Fn(T) -> I) -> Par<I::Item> {
    Par(run(self.0, |t| f(t).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect())
  }
  pub fn zip<I: IntoParallelIterator>(self, o: I) -> Par<(T, I::Item)> {
    Par(self.0.into_iter().zip(o.into_par_iter().0).collect())
  }
  pub fn zip_eq<I: IntoParallelIterator>(self, o: I) -> Par<(T, I::Item)> {
    let o = o.into_par_iter();
    assert_eq!(self.0.len(), o.0.len());
    self.zip(o)
  }
  pub fn chain<I: IntoParallelIterator<Item = T>>(mut self, o: I) -> Par<T> {
    self.0.extend(o.into_par_iter().0);
    self
  }
  pub fn enumerate(self) -> Par<(usize, T)> {
    Par(self.0.into_iter().enumerate().collect())
  }
  pub fn rev(mut self) -> Par<T> {
    self.0.reverse();
    self
  }
  pub fn skip(self, n: usize) -> Par<T> {
    Par(self.0.into_iter().skip(n).collect())
  }
  pub fn take(self, n: usize) -> Par<T> {
    Par(self.0.into_iter().take(n).collect())
  }
  pub fn with_min_len(self, _: usize) -> Par<T> {
    self
  }
  pub fn with_max_len(self, _: usize) -> Par<T> {
    self
  }
  pub fn chunks(self, n: usize) -> Par<Vec<T>> {
    let mut out = vec![];
    let mut it = self.0.into_iter().peekable();
    while it.peek().is_some() {
      out.push(it.by_ref().take(n).collect());
    }
    Par(out)
  }
  /// Splits into runs, each with an accumulator of its own.
  pub fn fold<A>(self, id: impl Fn() -> A, f: impl Fn(A, T) -> A) -> Par<A> {
    let mut out = vec![];
    let mut cur = None;
    for (i, t) in self.0.into_iter().enumerate() {
      if i > 0 && choose(2) == 1 {
        out.push(cur.take().unwrap());
      }
      cur = Some(f(cur.take().unwrap_or_else(&id), t));
    }
    out.extend(cur);
    Par(out)
  }
  pub fn reduce(self, id: impl Fn() -> T, f: impl Fn(T, T) -> T) -> T {
    let mut acc = id();
    for t in self.0 {
      acc = if choose(2) == 1 { f(acc, f(id(), t)) } else { f(acc, t) };
    }
    acc
  }
  pub fn reduce_with(self, f: impl Fn(T, T) -> T) -> Option<T> {
    self.0.into_iter().reduce(f)
  }
  pub fn any(self, f: impl Fn(T) -> bool) -> bool {
    run(self.0, f).into_iter().any(|b| b)
  }
  pub fn all(self, f: impl Fn(T) -> bool) -> bool {
    run(self.0, f).into_iter().all(|b| b)
  }
  pub fn find_any(self, f: impl Fn(&T) -> bool) -> Option<T> {
    let mut v = self.filter(f).0;
    if v.is_empty() {
      None
    } else {
      let i = choose(v.len());
      Some(v.swap_remove(i))
    }
  }
  pub fn find_first(self, f: impl Fn(&T) -> bool) -> Option<T> {
    self.filter(f).0.into_iter().next()
  }
  pub fn find_map_any<R>(self, f: impl Fn(T) -> Option<R>) -> Option<R> {
    self.filter_map(f).find_any(|_| true)
  }
  pub fn find_map_first<R>(self, f: impl Fn(T) -> Option<R>) -> Option<R> {
    self.filter_map(f).0.into_iter().next()
  }
  pub fn count(self) -> usize {
    self.0.len()
  }
  pub fn len(&self) -> usize {
    self.0.len()
  }
  pub fn min(self) -> Option<T>
  where
    T: Ord,
  {
    self.0.into_iter().min()
  }
  pub fn max(self) -> Option<T>
  where
    T: Ord,
  {
    self.0.into_iter().max()
  }
  pub fn sum<S: std::iter::Sum<T>>(self) -> S {
    self.0.into_iter().sum()
  }
  pub fn collect<C: FromParallelIterator<T>>(self) -> C {
    C::from_par_iter(self)
  }
  pub fn collect_into_vec(self, v: &mut Vec<T>) {
    *v = self.0;
  }
  pub fn collect_vec_list(self) -> std::collections::LinkedList<Vec<T>> {
    self.0.into_iter().map(|t| vec![t]).collect()
  }
  pub fn unzip<A, B>(self) -> (Vec<A>, Vec<B>)
  where
    Self: Into<Par<(A, B)>>,
  {
    Into::<Par<(A, B)>>::into(self).0.into_iter().unzip()
  }
  pub fn partition(self, f: impl Fn(&T) -> bool) -> (Vec<T>, Vec<T>) {
    let v = self.map(|t| (f(&t), t)).0;
    let (mut a, mut b) = (vec![], vec![]);
    for (k, t) in v {
      if k {
        a.push(t)
      } else {
        b.push(t)
      }
    }
    (a, b)
  }
}
impl<'a, T: Clone> Par<&'a T> {
  pub fn cloned(self) -> Par<T> {
    self.map(|t| t.clone())
  }
  pub fn copied(self) -> Par<T> {
    self.map(|t| t.clone())
  }
}
impl<T> Par<Option<T>> {
  pub fn flatten_options(self) -> Par<T> {
    Par(self.0.into_iter().flatten().collect())
  }
}

pub trait FromParallelIterator<T> {
  fn from_par_iter(p: Par<T>) -> Self;
}
macro_rules! from_par {
  ($([$($g:tt)*] $t:ty, $i:ty;)*) => {$(
    impl<$($g)*> FromParallelIterator<$i> for $t {
      fn from_par_iter(p: Par<$i>) -> Self {
        p.0.into_iter().collect()
      }
    }
  )*};
}
from_par! {
  [T] Vec<T>, T;
  [T] VecDeque<T>, T;
  [T: Ord] BTreeSet<T>, T;
  [K: Ord, V] BTreeMap<K, V>, (K, V);
  [T: Eq + Hash, S: BuildHasher + Default] HashSet<T, S>, T;
  [K: Eq + Hash, V, S: BuildHasher + Default] HashMap<K, V, S>, (K, V);
}
impl<T, E, C: FromParallelIterator<T>> FromParallelIterator<Result<T, E>> for Result<C, E> {
  fn from_par_iter(p: Par<Result<T, E>>) -> Self {
    let v: Result<Vec<T>, E> = p.0.into_iter().collect();
    v.map(|v| C::from_par_iter(Par(v)))
  }
}
impl<T, C: FromParallelIterator<T>> FromParallelIterator<Option<T>> for Option<C> {
  fn from_par_iter(p: Par<Option<T>>) -> Self {
    let v: Option<Vec<T>> = p.0.into_iter().collect();
    v.map(|v| C::from_par_iter(Par(v)))
  }
}

pub trait IntoParallelIterator {
  type Item;
  fn into_par_iter(self) -> Par<Self::Item>;
}
impl<T> IntoParallelIterator for Par<T> {
  type Item = T;
  fn into_par_iter(self) -> Par<T> {
    self
  }
}
macro_rules! into_par {
  ($([$($g:tt)*] $t:ty;)*) => {$(
    impl<$($g)*> IntoParallelIterator for $t {
      type Item = <$t as IntoIterator>::Item;
      fn into_par_iter(self) -> Par<Self::Item> {
        Par(self.into_iter().collect())
      }
    }
  )*};
}
into_par! {
  [T] Vec<T>;
  ['a, T] &'a Vec<T>;
  ['a, T] &'a mut Vec<T>;
  ['a, T] &'a [T];
  ['a, T] &'a mut [T];
  [T, const N: usize] [T; N];
  ['a, T, const N: usize] &'a [T; N];
  [T] Option<T>;
  [T] VecDeque<T>;
  ['a, T] &'a VecDeque<T>;
  ['a, T] &'a mut VecDeque<T>;
  [T: Ord] BTreeSet<T>;
  ['a, T: Ord] &'a BTreeSet<T>;
  [K: Ord, V] BTreeMap<K, V>;
  ['a, K: Ord, V] &'a BTreeMap<K, V>;
  ['a, K: Ord, V] &'a mut BTreeMap<K, V>;
  [T: Eq + Hash, S: BuildHasher] HashSet<T, S>;
  ['a, T: Eq + Hash, S: BuildHasher] &'a HashSet<T, S>;
  [K: Eq + Hash, V, S: BuildHasher] HashMap<K, V, S>;
  ['a, K: Eq + Hash, V, S: BuildHasher] &'a HashMap<K, V, S>;
  ['a, K: Eq + Hash, V, S: BuildHasher] &'a mut HashMap<K, V, S>;
  [] std::ops::Range<usize>;
  [] std::ops::Range<u32>;
  [] std::ops::RangeInclusive<usize>;
}

pub trait IntoParallelRefIterator<'a> {
  type Item;
  fn par_iter(&'a self) -> Par<Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
where
  &'a C: IntoParallelIterator,
{
  type Item = <&'a C as IntoParallelIterator>::Item;
  fn par_iter(&'a self) -> Par<Self::Item> {
    self.into_par_iter()
  }
}
pub trait IntoParallelRefMutIterator<'a> {
  type Item;
  fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
where
  &'a mut C: IntoParallelIterator,
{
  type Item = <&'a mut C as IntoParallelIterator>::Item;
  fn par_iter_mut(&'a mut self) -> Par<Self::Item> {
    self.into_par_iter()
  }
}

/// Items arrive in any order.
pub trait ParallelBridge: Iterator + Sized {
  fn par_bridge(self) -> Par<Self::Item> {
    let mut v: Vec<Option<Self::Item>> = self.map(Some).collect();
    Par(order(v.len()).into_iter().map(|i| v[i].take().unwrap()).collect())
  }
}
impl<I: Iterator> ParallelBridge for I {}

pub trait ParallelExtend<T> {
  fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
}
impl<T, C: Extend<T>> ParallelExtend<T> for C {
  fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
    self.extend(i.into_par_iter().0)
  }
}

pub trait ParallelSlice<T> {
  fn par_chunks(&self, n: usize) -> Par<&[T]>;
}
impl<T> ParallelSlice<T> for [T] {
  fn par_chunks(&self, n: usize) -> Par<&[T]> {
    Par(self.chunks(n).collect())
  }
}
pub trait ParallelSliceMut<T> {
  fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]>;
  fn par_sort(&mut self)
  where
    T: Ord;
  fn par_sort_unstable(&mut self)
  where
    T: Ord;
}
impl<T> ParallelSliceMut<T> for [T] {
  fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
    Par(self.chunks_mut(n).collect())
  }
  fn par_sort(&mut self)
  where
    T: Ord,
  {
    self.sort()
  }
  fn par_sort_unstable(&mut self)
  where
    T: Ord,
  {
    self.sort_unstable()
  }
}

pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
  STAGES.set(STAGES.get() + 1);
  TASKS.set(TASKS.get() + 2);
  if choose(2) == 0 {
    let x = a();
    (x, b())
  } else {
    let y = b();
    (a(), y)
  }
}

/// Tasks run when the scope ends, in any order.
pub struct Scope<'s>(std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>);
impl<'s> Scope<'s> {
  pub fn spawn(&self, f: impl FnOnce(&Scope<'s>) + 's) {
    self.0.borrow_mut().push(Box::new(f));
  }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
  let s = Scope(Default::default());
  let r = f(&s);
  loop {
    let v = s.0.take();
    if v.is_empty() {
      return r;
    }
    run(v, |t| t(&s));
  }
}

pub fn current_num_threads() -> usize {
  1 + choose(3)
}
pub fn current_thread_index() -> Option<usize> {
  Some(choose(2))
}

pub mod iter {
  pub use super::prelude::*;
  pub use super::Par;
}
pub mod slice {
  pub use super::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
  pub use super::{
    FromParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend, ParallelSlice, ParallelSliceMut,
  };
  /// The methods are those of the iterators themselves.
  pub trait ParallelIterator {}
  impl<T> ParallelIterator for super::Par<T> {}
  pub trait IndexedParallelIterator {}
  impl<T> IndexedParallelIterator for super::Par<T> {}
}
