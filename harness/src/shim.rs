//! Element-wise definitions of std container/iterator functions whose std bodies are written with raw memory; the
//! analyser interprets these instead.
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::hash::Hash;
use std::sync::{Arc, Condvar, Mutex};

pub fn vec_clone<T: Clone>(v: &Vec<T>) -> Vec<T> {
  let mut r = Vec::new();
  let mut i = 0;
  while i < v.len() {
    r.push(v[i].clone());
    i += 1;
  }
  r
}
pub fn deque_clone<T: Clone>(v: &VecDeque<T>) -> VecDeque<T> {
  let mut r = VecDeque::new();
  let mut i = 0;
  while i < v.len() {
    r.push_back(v[i].clone());
    i += 1;
  }
  r
}
pub fn hmap_clone<K: Clone + Eq + Hash, V: Clone>(m: &HashMap<K, V>) -> HashMap<K, V> {
  let mut r = HashMap::new();
  for (k, v) in m.iter() {
    r.insert(k.clone(), v.clone());
  }
  r
}
pub fn bmap_clone<K: Clone + Ord, V: Clone>(m: &BTreeMap<K, V>) -> BTreeMap<K, V> {
  let mut r = BTreeMap::new();
  for (k, v) in m.iter() {
    r.insert(k.clone(), v.clone());
  }
  r
}
pub fn seq_clone_it<T: Clone>(v: &Vec<T>) -> std::vec::IntoIter<T> {
  vec_clone(v).into_iter()
}
pub fn slice_to_vec<T: Clone>(v: &[T]) -> Vec<T> {
  let mut r = Vec::new();
  for x in v.iter() {
    r.push(x.clone());
  }
  r
}
pub fn slice_contains<T: PartialEq>(v: &[T], x: &T) -> bool {
  for y in v.iter() {
    if *y == *x {
      return true;
    }
  }
  false
}
pub fn slice_sort<T: Ord>(v: &mut [T]) {
  let n = v.len();
  let mut i = 1;
  while i < n {
    let mut j = i;
    while j > 0 && v[j] < v[j - 1] {
      v.swap(j, j - 1);
      j -= 1;
    }
    i += 1;
  }
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool {
  if a.len() != b.len() {
    return false;
  }
  let mut i = 0;
  while i < a.len() {
    if a[i] != b[i] {
      return false;
    }
    i += 1;
  }
  true
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
  let mut r = Vec::new();
  for x in it {
    r.push(x);
  }
  r
}
pub fn deque_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> VecDeque<T> {
  let mut r = VecDeque::new();
  for x in it {
    r.push_back(x);
  }
  r
}
pub fn hmap_from_iter<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(it: I) -> HashMap<K, V> {
  let mut r = HashMap::new();
  for (k, v) in it {
    r.insert(k, v);
  }
  r
}
pub fn bmap_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> BTreeMap<K, V> {
  let mut r = BTreeMap::new();
  for (k, v) in it {
    r.insert(k, v);
  }
  r
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
  for x in it {
    v.push(x);
  }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
  for x in it {
    v.push(*x);
  }
}
pub fn deque_extend<T, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, it: I) {
  for x in it {
    v.push_back(x);
  }
}
pub fn vec_extend_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
  for x in s.iter() {
    v.push(x.clone());
  }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
  let mut i = 0;
  while i < v.len() {
    if f(&v[i]) {
      i += 1;
    } else {
      v.remove(i);
    }
  }
}
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
  let mut i = 0;
  while i < v.len() {
    if f(&mut v[i]) {
      i += 1;
    } else {
      v.remove(i);
    }
  }
}
pub fn map_retain<K: Eq + Hash, V, F: FnMut(&K, &mut V) -> bool>(m: &mut HashMap<K, V>, mut f: F) {
  let mut keep = Vec::new();
  for (k, mut v) in m.drain() {
    if f(&k, &mut v) {
      keep.push((k, v));
    }
  }
  for (k, v) in keep {
    m.insert(k, v);
  }
}
pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> Vec<T> {
  let mut r = Vec::new();
  let mut i = 0;
  while i < n {
    r.push(x.clone());
    i += 1;
  }
  r
}
pub fn entry_or_insert_with<'a, K: Eq + Hash, V, F: FnOnce() -> V>(
  e: std::collections::hash_map::Entry<'a, K, V>,
  f: F,
) -> &'a mut V {
  e.or_insert(f())
}
pub fn bentry_or_insert_with<'a, K: Ord, V, F: FnOnce() -> V>(
  e: std::collections::btree_map::Entry<'a, K, V>,
  f: F,
) -> &'a mut V {
  e.or_insert(f())
}
pub fn entry_or_default<'a, K: Eq + Hash, V: Default>(e: std::collections::hash_map::Entry<'a, K, V>) -> &'a mut V {
  e.or_insert(V::default())
}
pub fn bentry_or_default<'a, K: Ord, V: Default>(e: std::collections::btree_map::Entry<'a, K, V>) -> &'a mut V {
  e.or_insert(V::default())
}

pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, b: B, mut f: F) -> B {
  let mut r = b;
  while let Some(x) = it.next() {
    r = f(r, x);
  }
  r
}
pub fn it_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, b: B, mut f: F) -> B {
  let mut r = b;
  while let Some(x) = it.next_back() {
    r = f(r, x);
  }
  r
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
  while let Some(x) = it.next() {
    f(x);
  }
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() {
    if !f(x) {
      return false;
    }
  }
  true
}
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
  while let Some(x) = it.next() {
    if f(x) {
      return true;
    }
  }
  false
}
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
  while let Some(x) = it.next() {
    if f(&x) {
      return Some(x);
    }
  }
  None
}
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
  while let Some(x) = it.next() {
    if let Some(y) = f(x) {
      return Some(y);
    }
  }
  None
}
pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
  let mut i = 0;
  while let Some(x) = it.next() {
    if f(x) {
      return Some(i);
    }
    i += 1;
  }
  None
}
pub fn it_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut r = match it.next() {
    Some(x) => x,
    None => return None,
  };
  while let Some(x) = it.next() {
    r = f(r, x);
  }
  Some(r)
}
pub fn it_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut r = match it.next() {
    Some(x) => x,
    None => return None,
  };
  while let Some(x) = it.next() {
    if f(&x) >= f(&r) {
      r = x;
    }
  }
  Some(r)
}
pub fn it_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
  let mut r = match it.next() {
    Some(x) => x,
    None => return None,
  };
  while let Some(x) = it.next() {
    if f(&x) < f(&r) {
      r = x;
    }
  }
  Some(r)
}
pub fn it_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
  let mut i = 0;
  while i < n {
    it.next()?;
    i += 1;
  }
  it.next()
}
pub fn it_count<I: Iterator>(mut it: I) -> usize {
  let mut i = 0;
  while let Some(_) = it.next() {
    i += 1;
  }
  i
}
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> {
  let mut r = None;
  while let Some(x) = it.next() {
    r = Some(x);
  }
  r
}
pub fn it_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: std::ops::Try<Output = B>>(
  it: &mut I,
  b: B,
  mut f: F,
) -> R {
  let mut r = b;
  while let Some(x) = it.next() {
    r = f(r, x)?;
  }
  R::from_output(r)
}

/// what a minimal block_on parks on
pub struct WakeCell {
  pub woken: Mutex<bool>,
  pub cond: Condvar,
  /// an executor that polls inside wake
  pub hook: Option<Arc<dyn Fn() + Send + Sync>>,
}
pub fn wake_ref(w: &Arc<WakeCell>) {
  let mut g = w.woken.lock().unwrap();
  *g = true;
  drop(g);
  w.cond.notify_one();
  if let Some(h) = &w.hook {
    h();
  }
}
pub fn wake_own(w: Arc<WakeCell>) {
  wake_ref(&w);
}
pub fn cond_wait_while<'a, T, F: FnMut(&mut T) -> bool>(
  c: &Condvar,
  g: std::sync::MutexGuard<'a, T>,
  mut f: F,
) -> Result<std::sync::MutexGuard<'a, T>, std::sync::PoisonError<std::sync::MutexGuard<'a, T>>> {
  let mut g = g;
  while f(&mut *g) {
    g = c.wait(g)?;
  }
  Ok(g)
}

pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) {
  while v.len() > n {
    v.pop();
  }
  while v.len() < n {
    v.push(x.clone());
  }
}
pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
  while v.len() > n {
    v.pop();
  }
  while v.len() < n {
    v.push(f());
  }
}
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
  let mut i = 1;
  while i < v.len() {
    if v[i] == v[i - 1] {
      v.remove(i);
    } else {
      i += 1;
    }
  }
}
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut [T], mut f: F) {
  let mut i = 1;
  while i < v.len() {
    let mut j = i;
    while j > 0 && f(&v[j], &v[j - 1]) == std::cmp::Ordering::Less {
      v.swap(j, j - 1);
      j -= 1;
    }
    i += 1;
  }
}
pub fn slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(v: &mut [T], mut f: F) {
  let mut i = 1;
  while i < v.len() {
    let mut j = i;
    while j > 0 && f(&v[j]) < f(&v[j - 1]) {
      v.swap(j, j - 1);
      j -= 1;
    }
    i += 1;
  }
}
pub fn slice_rotate_left<T>(v: &mut Vec<T>, n: usize) {
  let mut i = 0;
  while i < n {
    let x = v.remove(0);
    v.push(x);
    i += 1;
  }
}
pub fn slice_rotate_right<T>(v: &mut Vec<T>, n: usize) {
  let mut i = 0;
  while i < n {
    let x = v.pop().unwrap();
    v.insert(0, x);
    i += 1;
  }
}
pub fn slice_fill<T: Clone>(v: &mut [T], x: T) {
  let mut i = 0;
  while i < v.len() {
    v[i] = x.clone();
    i += 1;
  }
}
pub fn slice_starts_with<T: PartialEq>(v: &[T], w: &[T]) -> bool {
  if w.len() > v.len() {
    return false;
  }
  let mut i = 0;
  while i < w.len() {
    if v[i] != w[i] {
      return false;
    }
    i += 1;
  }
  true
}
pub fn slice_eq2<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
  if a.len() != b.len() {
    return false;
  }
  let mut i = 0;
  while i < a.len() {
    if a[i] != b[i] {
      return false;
    }
    i += 1;
  }
  true
}
pub fn bmap_retain<K: Ord, V, F: FnMut(&K, &mut V) -> bool>(m: &mut BTreeMap<K, V>, mut f: F) {
  let mut keep = Vec::new();
  while let Some((k, mut v)) = m.pop_first() {
    if f(&k, &mut v) {
      keep.push((k, v));
    }
  }
  for (k, v) in keep {
    m.insert(k, v);
  }
}
pub fn set_retain<K: Eq + Hash, F: FnMut(&K) -> bool>(m: &mut std::collections::HashSet<K>, mut f: F) {
  let mut keep = Vec::new();
  for k in m.drain() {
    if f(&k) {
      keep.push(k);
    }
  }
  for k in keep {
    m.insert(k);
  }
}
pub fn bset_retain<K: Ord, F: FnMut(&K) -> bool>(m: &mut std::collections::BTreeSet<K>, mut f: F) {
  let mut keep = Vec::new();
  while let Some(k) = m.pop_first() {
    if f(&k) {
      keep.push(k);
    }
  }
  for k in keep {
    m.insert(k);
  }
}
pub fn entry_and_modify<'a, K: Eq + Hash, V, F: FnOnce(&mut V)>(
  e: std::collections::hash_map::Entry<'a, K, V>,
  f: F,
) -> std::collections::hash_map::Entry<'a, K, V> {
  match e {
    std::collections::hash_map::Entry::Occupied(mut o) => {
      f(o.get_mut());
      std::collections::hash_map::Entry::Occupied(o)
    }
    x => x,
  }
}
pub fn bentry_and_modify<'a, K: Ord, V, F: FnOnce(&mut V)>(
  e: std::collections::btree_map::Entry<'a, K, V>,
  f: F,
) -> std::collections::btree_map::Entry<'a, K, V> {
  match e {
    std::collections::btree_map::Entry::Occupied(mut o) => {
      f(o.get_mut());
      std::collections::btree_map::Entry::Occupied(o)
    }
    x => x,
  }
}
pub fn atomic_update<T: Copy, F: FnMut(T) -> Option<T>>(c: &mut T, mut f: F) -> Result<T, T> {
  crate::rx::yield_point();
  let x = *c;
  match f(x) {
    Some(y) => {
      *c = y;
      Ok(x)
    }
    None => Err(x),
  }
}
pub fn atomic_update1<T: Copy, F: FnMut(T) -> T>(c: &mut T, mut f: F) -> T {
  crate::rx::yield_point();
  let x = *c;
  *c = f(x);
  x
}
type WaitOut<'a, T> = Result<
  (std::sync::MutexGuard<'a, T>, std::sync::WaitTimeoutResult),
  std::sync::PoisonError<(std::sync::MutexGuard<'a, T>, std::sync::WaitTimeoutResult)>,
>;
pub fn cond_wait_timeout<'a, T>(c: &Condvar, g: std::sync::MutexGuard<'a, T>, d: std::time::Duration) -> WaitOut<'a, T> {
  let t = std::time::Instant::now() + d;
  let g = crate::rx::cond_wait_until(c, g, d);
  Ok((g, crate::rx::timed_out(std::time::Instant::now() >= t)))
}
pub fn cond_wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
  c: &Condvar,
  g: std::sync::MutexGuard<'a, T>,
  d: std::time::Duration,
  mut f: F,
) -> WaitOut<'a, T> {
  let t = std::time::Instant::now() + d;
  let mut g = g;
  loop {
    if !f(&mut *g) {
      return Ok((g, crate::rx::timed_out(false)));
    }
    let now = std::time::Instant::now();
    if now >= t {
      return Ok((g, crate::rx::timed_out(true)));
    }
    g = crate::rx::cond_wait_until(c, g, t - now);
  }
}
pub fn arc_make_mut<T: Clone>(a: &mut Arc<T>) -> &mut T {
  if Arc::get_mut(a).is_none() {
    let x = (**a).clone();
    *a = Arc::new(x);
  }
  Arc::get_mut(a).unwrap()
}
pub fn arc_unwrap_or_clone<T: Clone>(a: Arc<T>) -> T {
  match Arc::try_unwrap(a) {
    Ok(x) => x,
    Err(a) => (*a).clone(),
  }
}
pub fn hmap_extend<K: Eq + Hash, V, I: IntoIterator<Item = (K, V)>>(m: &mut std::collections::HashMap<K, V>, i: I) {
  for (k, v) in i {
    m.insert(k, v);
  }
}
pub fn bmap_extend<K: Ord, V, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, i: I) {
  for (k, v) in i {
    m.insert(k, v);
  }
}
pub fn hset_extend<K: Eq + Hash, I: IntoIterator<Item = K>>(m: &mut std::collections::HashSet<K>, i: I) {
  for k in i {
    m.insert(k);
  }
}
pub fn bset_extend<K: Ord, I: IntoIterator<Item = K>>(m: &mut std::collections::BTreeSet<K>, i: I) {
  for k in i {
    m.insert(k);
  }
}
pub fn it_advance_by<I: Iterator>(i: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> {
  let mut k = n;
  while k > 0 {
    if i.next().is_none() {
      return Err(std::num::NonZero::new(k).unwrap());
    }
    k -= 1;
  }
  Ok(())
}
pub fn once_lock_init<T, F: FnOnce() -> T>(c: &std::sync::OnceLock<T>, f: F) -> &T {
  if c.get().is_none() {
    let x = f();
    let _ = c.set(x);
  }
  c.get().unwrap()
}
pub fn once_cell_init<T, F: FnOnce() -> T>(c: &std::cell::OnceCell<T>, f: F) -> &T {
  if c.get().is_none() {
    let x = f();
    let _ = c.set(x);
  }
  c.get().unwrap()
}
