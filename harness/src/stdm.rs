//! Self-test of the analyser's model of the standard library: idioms library code may use.
use crate::core::*;
use crate::rx;
use std::collections::*;
use std::sync::atomic::*;
use std::sync::*;
use std::time::*;

fn ok(b: bool) {
  rx::check(b, "STD:the model of the standard library is wrong");
}
fn v3() -> (Vec<Tok>, Tok, Tok, Tok) {
  let (a, b, c) = (rx::fresh(), rx::fresh(), rx::fresh());
  (vec![a, b, c], a, b, c)
}
fn same(a: &Tok, b: &Tok) -> bool {
  rx::tok_same(a, b)
}
pub fn sc_std_vec() {
  let (v, a, b, c) = v3();
  ok(v.len() == 3 && !v.is_empty() && same(&v[1], &b));
  ok(v.first().is_some() && same(v.first().unwrap(), &a) && same(v.last().unwrap(), &c));
  ok(v.get(3).is_none() && same(v.get(2).unwrap(), &c));
  let mut w = v.clone();
  w.truncate(2);
  ok(w.len() == 2);
  w.insert(1, c);
  ok(same(&w[1], &c) && same(&w[2], &b));
  let r = w.remove(0);
  ok(same(&r, &a) && w.len() == 2);
  let r = w.swap_remove(0);
  ok(same(&r, &c) && w.len() == 1);
  w.extend(v.iter().cloned());
  ok(w.len() == 4);
  w.extend_from_slice(&v[1..]);
  ok(w.len() == 6);
  let mut x = Vec::with_capacity(3);
  x.append(&mut w);
  ok(x.len() == 6 && w.is_empty());
  let y = x.split_off(4);
  ok(y.len() == 2 && x.len() == 4);
  let d: Vec<Tok> = x.drain(..).collect();
  ok(d.len() == 4 && x.is_empty());
  let mut d = d;
  let e: Vec<Tok> = d.drain(1..3).collect();
  ok(e.len() == 2 && d.len() == 2);
  d.clear();
  ok(d.pop().is_none());
  d.push(a);
  if let Some(l) = d.last_mut() {
    *l = b;
  }
  ok(same(&d[0], &b));
  d[0] = c;
  ok(same(&d[0], &c));
  d.resize(3, a);
  ok(d.len() == 3 && same(&d[2], &a));
  d.swap(0, 2);
  ok(same(&d[0], &a));
  d.reverse();
  ok(same(&d[0], &c));
  let (l, r) = d.split_at(1);
  ok(l.len() == 1 && r.len() == 2);
  let t = d.to_vec();
  ok(t.as_slice().len() == 3);
  if let Some((h, t)) = d.split_first() {
    ok(same(h, &c) && t.len() == 2);
  }
  let b: Box<[Tok]> = t.into_boxed_slice();
  ok(b.len() == 3);
  rx::end();
}
pub fn sc_std_vec2() {
  let (v, a, b, c) = v3();
  let mut n = vec![1i64, 2, 3, 4];
  n.retain(|x| *x % 2 == 0);
  ok(n.len() == 2 && n[0] == 2);
  n.retain_mut(|x| {
    *x += 1;
    *x > 3
  });
  ok(n.len() == 1 && n[0] == 5);
  ok(n.contains(&5) && !n.contains(&4));
  let mut m = vec![3i64, 1, 2];
  m.sort();
  ok(m[0] == 1 && m[2] == 3);
  m.sort_by(|a, b| b.cmp(a));
  ok(m[0] == 3);
  m.dedup();
  ok(m.iter().sum::<i64>() == 6);
  ok(m.iter().max() == Some(&3) && m.iter().min() == Some(&1));
  ok(m.iter().copied().fold(0, |a, b| a + b) == 6);
  ok(m == vec![3, 2, 1]);
  let s: &[i64] = &m;
  ok(s.iter().rev().next() == Some(&1));
  let q = [1i64, 2, 3];
  ok(q.iter().any(|x| *x == 2) && q.iter().all(|x| *x > 0));
  let _ = (v, a, b, c);
  rx::end();
}
pub fn sc_std_iter() {
  let (v, a, b, c) = v3();
  let w: Vec<Tok> = v.iter().map(|x| *x).collect();
  ok(w.len() == 3);
  let w: Vec<Tok> = v.iter().cloned().rev().collect();
  ok(same(&w[0], &c));
  let w: Vec<(usize, Tok)> = v.iter().copied().enumerate().collect();
  ok(w[1].0 == 1 && same(&w[1].1, &b));
  let w: Vec<(Tok, Tok)> = v.iter().cloned().zip(v.clone().into_iter().skip(1)).collect();
  ok(w.len() == 2 && same(&w[1].1, &c));
  let w: Vec<Tok> = v.iter().take(2).chain(v.iter().skip(2)).cloned().collect();
  ok(w.len() == 3);
  ok(v.iter().count() == 3);
  ok(v.iter().enumerate().filter(|(i, _)| *i != 1).count() == 2);
  ok(v.iter().position(|x| same(x, &b)) == Some(1));
  ok(v.iter().find(|x| same(x, &c)).is_some());
  ok(v.iter().find_map(|x| if same(x, &c) { Some(1) } else { None }) == Some(1));
  let mut n = 0;
  v.iter().for_each(|_| n += 1);
  ok(n == 3);
  for (i, x) in v.iter().enumerate() {
    ok(same(x, &v[i]));
  }
  let mut k = v.clone();
  for x in k.iter_mut() {
    *x = a;
  }
  ok(same(&k[2], &a));
  for x in &mut k {
    *x = b;
  }
  ok(same(&k[2], &b));
  let mut it = v.into_iter();
  ok(it.next().is_some() && it.len() == 2);
  ok(it.by_ref().last().is_some());
  let w: Vec<i64> = (0..5).filter(|x| x % 2 == 0).map(|x| x * 2).collect();
  ok(w.len() == 3 && w[2] == 8);
  let w: Vec<i64> = (1..=3).collect();
  ok(w.len() == 3);
  ok((0..4).map(|x| x as i64).sum::<i64>() == 6);
  let w: Vec<i64> = std::iter::repeat(7).take(3).collect();
  ok(w.len() == 3);
  let w: Vec<i64> = std::iter::once(7).collect();
  ok(w.len() == 1);
  let mut p = w.iter().peekable();
  ok(p.peek().is_some());
  let w: Vec<i64> = vec![vec![1], vec![2, 3]].into_iter().flatten().collect();
  ok(w.len() == 3);
  let w: Vec<i64> = vec![1i64, 2].into_iter().flat_map(|x| vec![x, x]).collect();
  ok(w.len() == 4);
  let w: Option<Vec<i64>> = vec![Some(1), None].into_iter().collect();
  ok(w.is_none());
  let w: Vec<i64> = vec![Some(1), None].into_iter().flatten().collect();
  ok(w.len() == 1);
  let (x, y): (Vec<i64>, Vec<i64>) = (0..4).partition(|x| x % 2 == 0);
  ok(x.len() == 2 && y.len() == 2);
  let (x, y): (Vec<i64>, Vec<bool>) = vec![(1, true), (2, false)].into_iter().unzip();
  ok(x.len() == 2 && y[0]);
  let w: Vec<i64> = vec![1i64, 2, 3].into_iter().take_while(|x| *x < 3).skip_while(|x| *x < 2).collect();
  ok(w.len() == 1 && w[0] == 2);
  let w: Vec<i64> = vec![1i64, 2, 3].into_iter().scan(0, |s, x| {
    *s += x;
    Some(*s)
  }).collect();
  ok(w[2] == 6);
  let w: Vec<i64> = (0..6).step_by(2).collect();
  ok(w.len() == 3);
  ok(vec![1i64, 2, 3].chunks(2).count() == 2);
  ok(vec![1i64, 2].into_iter().filter_map(|x| if x > 1 { Some(x) } else { None }).next() == Some(2));
  ok(vec![2i64, 1].into_iter().reduce(|a, b| a.min(b)) == Some(1));
  ok(vec![1i64, 2].iter().nth(1) == Some(&2));
  ok((1..4).rev().next() == Some(3));
  let r: Result<i64, i64> = vec![1i64, 2].into_iter().try_fold(0, |a, b| if b > 5 { Err(b) } else { Ok(a + b) });
  ok(r == Ok(3));
  rx::end();
}
pub fn sc_std_option() {
  let a = rx::fresh();
  let mut o = Some(a);
  ok(o.is_some() && !o.is_none() && o.as_ref().map(|_| 1) == Some(1));
  ok(o.is_some_and(|x| same(&x, &a)));
  ok(o.map_or(0, |_| 1) == 1 && o.map_or_else(|| 0, |_| 1) == 1);
  ok(o.and_then(|_| None::<i64>).is_none());
  ok(o.filter(|_| false).is_none());
  let t = o.take();
  ok(t.is_some() && o.is_none());
  ok(o.replace(a).is_none());
  o.insert(a);
  ok(o.or(None).is_some() && o.or_else(|| None).is_some() && o.xor(None).is_some());
  ok(o.ok_or(1).is_ok() && o.ok_or_else(|| 1).is_ok());
  ok(o.zip(Some(1)).is_some());
  ok(o.iter().count() == 1);
  let mut p: Option<i64> = None;
  *p.get_or_insert(3) += 1;
  *p.get_or_insert_with(|| 9) += 1;
  ok(p == Some(5) && p.unwrap_or(0) == 5 && p.unwrap_or_default() == 5 && p.unwrap_or_else(|| 0) == 5);
  ok(p.expect("x") == 5);
  if let Some(x) = p.as_mut() {
    *x += 1;
  }
  ok(p.as_ref().cloned() == Some(6) && p.as_ref().copied() == Some(6));
  ok(Some(Some(1)).flatten() == Some(1));
  ok(Some(Ok::<i64, i64>(1)).transpose() == Ok(Some(1)));
  ok(p.take_if(|x| *x == 6) == Some(6));
  ok(true.then(|| 1) == Some(1) && false.then_some(1).is_none());
  ok(p.inspect(|_| ()).is_none());
  ok(matches!(p, None));
  let d: Option<&(dyn Fn() -> i64)> = Some(&|| 3);
  ok(d.map(|f| f()) == Some(3));
  let s: Option<Box<dyn Fn(i64) -> i64>> = Some(Box::new(|x| x + 1));
  ok(s.as_ref().map(|f| f(1)) == Some(2));
  ok(s.as_deref().map(|f| f(1)) == Some(2));
  let mut q = Some(vec![1i64]);
  if let Some(v) = q.as_deref_mut() {
    v[0] = 2;
  }
  ok(std::mem::take(&mut q) == Some(vec![2]) && q.is_none());
  ok(std::mem::replace(&mut q, Some(vec![])).is_none());
  let mut z = None;
  std::mem::swap(&mut q, &mut z);
  ok(q.is_none() && z.is_some());
  fn f(o: Option<i64>) -> Option<i64> {
    let x = o?;
    Some(x + 1)
  }
  ok(f(Some(1)) == Some(2) && f(None).is_none());
  fn g(o: Result<i64, i64>) -> Result<i64, i64> {
    let x = o?;
    Ok(x + 1)
  }
  ok(g(Ok(1)) == Ok(2) && g(Err(1)).is_err());
  let r: Result<i64, i64> = Ok(1);
  ok(r.is_ok() && r.ok() == Some(1) && r.err().is_none() && r.map(|x| x + 1) == Ok(2) && r.map_err(|x| x + 1) == Ok(1));
  ok(r.and_then(|x| if x > 0 { Err(5) } else { Ok(x) }) == Err(5) && r.unwrap_or(3) == 1 && r.unwrap_or_else(|_| 3) == 1);
  ok(r.as_ref().is_ok_and(|x| *x == 1) && r.iter().count() == 1);
  let Some(x) = Some(3) else { return };
  ok(x == 3);
  ok(Some(3) > None && Some(1) < Some(2) && Some(1).max(Some(4)) == Some(4));
  rx::end();
}
pub fn sc_std_deque() {
  let (v, a, b, c) = v3();
  let mut q: VecDeque<Tok> = v.iter().cloned().collect();
  q.push_front(c);
  ok(q.len() == 4 && same(q.front().unwrap(), &c) && same(q.back().unwrap(), &c));
  ok(same(&q[1], &a) && same(q.get(2).unwrap(), &b));
  ok(q.pop_front().is_some() && q.pop_back().is_some());
  q.extend(v.iter().cloned());
  ok(q.iter().count() == 5);
  ok(q.drain(..2).count() == 2);
  q.truncate(2);
  ok(q.len() == 2);
  q.retain(|x| same(x, &b));
  ok(q.len() == 1);
  for x in q.iter() {
    ok(same(x, &b));
  }
  let w: Vec<Tok> = q.into_iter().collect();
  ok(w.len() == 1);
  let mut q = VecDeque::from(v.clone());
  while let Some(_) = q.pop_front() {}
  ok(q.is_empty());
  let mut q: VecDeque<Tok> = VecDeque::with_capacity(4);
  q.push_back(a);
  if let Some(x) = q.front_mut() {
    *x = b;
  }
  if let Some(x) = q.back_mut() {
    *x = b;
  }
  q.append(&mut VecDeque::from(vec![a]));
  ok(q.len() == 2 && !q.contains(&rx::fresh()) || true);
  q.insert(1, c);
  ok(q.remove(1).is_some());
  q.rotate_left(1);
  q.make_contiguous();
  q.swap(0, 1);
  q.clear();
  let v = Vec::from(q);
  ok(v.is_empty());
  rx::end();
}
pub fn sc_std_map() {
  let mut m: HashMap<i32, i64> = HashMap::new();
  ok(m.insert(1, 10).is_none() && m.insert(2, 20).is_none() && m.insert(1, 11) == Some(10));
  ok(m.len() == 2 && m.contains_key(&1) && !m.contains_key(&3) && m.get(&2) == Some(&20) && m[&2] == 20);
  if let Some(x) = m.get_mut(&2) {
    *x += 1;
  }
  *m.entry(2).or_insert(0) += 1;
  *m.entry(3).or_insert_with(|| 7) += 1;
  *m.entry(4).or_default() += 1;
  m.entry(4).and_modify(|x| *x += 1).or_insert(9);
  ok(m[&2] == 22 && m[&3] == 8 && m[&4] == 2);
  match m.entry(9) {
    hash_map::Entry::Occupied(_) => ok(false),
    hash_map::Entry::Vacant(e) => {
      e.insert(3);
    }
  }
  match m.entry(9) {
    hash_map::Entry::Occupied(mut e) => {
      *e.get_mut() += 1;
      ok(*e.get() == 4);
      e.remove();
    }
    hash_map::Entry::Vacant(_) => ok(false),
  }
  ok(m.remove(&4) == Some(2) && m.remove(&4).is_none());
  ok(m.keys().count() == 3 && m.values().sum::<i64>() == 41 && m.iter().count() == 3);
  for v in m.values_mut() {
    *v += 1;
  }
  for (_, v) in m.iter_mut() {
    *v += 1;
  }
  for (_, v) in &mut m {
    *v -= 1;
  }
  ok(m.values().sum::<i64>() == 44);
  m.retain(|k, _| *k != 3);
  ok(m.len() == 2);
  ok(m.remove_entry(&2).is_some());
  let v: Vec<(i32, i64)> = m.clone().into_iter().collect();
  ok(v.len() == 1);
  let v: Vec<i64> = m.clone().into_values().collect();
  ok(v.len() == 1);
  let v: Vec<i32> = m.clone().into_keys().collect();
  ok(v.len() == 1);
  let v: Vec<(i32, i64)> = m.drain().collect();
  ok(v.len() == 1 && m.is_empty());
  m.extend(v);
  ok(m.len() == 1);
  m.clear();
  let m: HashMap<i32, i64> = vec![(1, 1)].into_iter().collect();
  ok(m.len() == 1 && m.get_key_value(&1).is_some());
  let m = HashMap::from([(1, 1)]);
  ok(m.len() == 1);
  let mut s: HashSet<i32> = HashSet::new();
  ok(s.insert(1) && !s.insert(1) && s.contains(&1) && s.remove(&1) && s.is_empty() && s.len() == 0);
  rx::end();
}
pub fn sc_std_btree() {
  let mut m: BTreeMap<i32, i64> = BTreeMap::new();
  m.insert(2, 20);
  m.insert(1, 10);
  ok(m.len() == 2 && m.contains_key(&1) && m.get(&2) == Some(&20));
  ok(m.keys().next() == Some(&1) && m.values().next() == Some(&10) && m.iter().next().is_some());
  *m.entry(3).or_insert(0) += 1;
  ok(m.first_key_value() == Some((&1, &10)) && m.last_key_value() == Some((&3, &1)));
  ok(m.pop_first() == Some((1, 10)));
  ok(m.remove(&3) == Some(1));
  for (_, v) in m.iter_mut() {
    *v += 1;
  }
  for v in m.values_mut() {
    *v += 1;
  }
  ok(m.values().cloned().collect::<Vec<i64>>() == vec![22]);
  m.retain(|_, _| false);
  ok(m.is_empty());
  m.insert(5, 5);
  let v: Vec<(i32, i64)> = std::mem::take(&mut m).into_iter().collect();
  ok(v.len() == 1);
  m.clear();
  let mut s: BTreeSet<i32> = BTreeSet::new();
  ok(s.insert(1) && !s.insert(1) && s.contains(&1) && s.remove(&1) && s.is_empty());
  rx::end();
}
pub fn sc_std_atomic() {
  let a = AtomicUsize::new(3);
  ok(a.load(Ordering::SeqCst) == 3);
  a.store(4, Ordering::Release);
  ok(a.fetch_add(1, Ordering::SeqCst) == 4 && a.fetch_sub(2, Ordering::SeqCst) == 5);
  ok(a.swap(9, Ordering::AcqRel) == 3);
  ok(a.compare_exchange(9, 1, Ordering::SeqCst, Ordering::SeqCst) == Ok(9));
  ok(a.compare_exchange(9, 1, Ordering::SeqCst, Ordering::Relaxed) == Err(1));
  ok(a.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| if x > 0 { Some(x - 1) } else { None }) == Ok(1));
  ok(a.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| if x > 0 { Some(x - 1) } else { None }) == Err(0));
  ok(a.fetch_max(7, Ordering::SeqCst) == 0 && a.fetch_min(2, Ordering::SeqCst) == 7);
  ok(a.into_inner() == 2);
  let b = AtomicBool::new(false);
  ok(!b.swap(true, Ordering::SeqCst) && b.load(Ordering::SeqCst));
  ok(b.compare_exchange(true, false, Ordering::SeqCst, Ordering::SeqCst).is_ok());
  ok(!b.fetch_or(true, Ordering::SeqCst) && b.fetch_and(false, Ordering::SeqCst) && !b.fetch_xor(true, Ordering::SeqCst));
  let c = AtomicI32::new(1);
  ok(c.fetch_add(1, Ordering::Relaxed) == 1);
  let d = AtomicU64::new(1);
  ok(d.fetch_add(1, Ordering::Relaxed) == 1);
  let e = AtomicI64::new(1);
  ok(e.fetch_add(1, Ordering::Relaxed) == 1);
  std::sync::atomic::fence(Ordering::SeqCst);
  loop {
    match d.compare_exchange_weak(2, 5, Ordering::SeqCst, Ordering::SeqCst) {
      Ok(_) => break,
      Err(_) => {}
    }
  }
  ok(d.load(Ordering::SeqCst) == 5);
  rx::end();
}
pub fn sc_std_arc() {
  let a = Arc::new(Mutex::new(vec![1i64]));
  ok(Arc::strong_count(&a) == 1);
  let b = Arc::clone(&a);
  ok(Arc::ptr_eq(&a, &b));
  let w = Arc::downgrade(&a);
  ok(w.upgrade().is_some() && Arc::weak_count(&a) == 1 && w.strong_count() == 2);
  a.lock().unwrap().push(2);
  ok(b.lock().unwrap().len() == 2);
  {
    let mut g = b.lock().unwrap();
    g.push(3);
    drop(g);
  }
  ok(a.try_lock().is_ok());
  drop(a);
  let r = Arc::try_unwrap(b);
  ok(r.is_ok());
  ok(w.upgrade().is_none());
  let v = r.unwrap().into_inner().unwrap();
  ok(v.len() == 3);
  let mut c = Arc::new(5i64);
  *Arc::get_mut(&mut c).unwrap() += 1;
  *Arc::make_mut(&mut c) += 1;
  ok(*c == 7 && Arc::into_inner(c) == Some(7));
  let d: Arc<dyn Fn(i64) -> i64 + Send + Sync> = Arc::new(|x| x + 1);
  ok(d(1) == 2 && (*d)(2) == 3);
  let e: Weak<i64> = Weak::new();
  ok(e.upgrade().is_none());
  let o: OnceLock<i64> = OnceLock::new();
  ok(o.get().is_none() && *o.get_or_init(|| 3) == 3 && o.set(4).is_err() && o.get() == Some(&3));
  let bx: Box<dyn FnOnce(i64) -> i64> = Box::new(|x| x * 2);
  ok(bx(2) == 4);
  let rw = RwLock::new(1i64);
  {
    let (x, y) = (rw.read().unwrap(), rw.read().unwrap());
    ok(*x + *y == 2);
  }
  *rw.write().unwrap() = 4;
  ok(rw.try_read().is_ok() && rw.into_inner().unwrap() == 4);
  let mut rw = RwLock::new(1i64);
  *rw.get_mut().unwrap() += 1;
  ok(matches!(rw.try_write(), Ok(_)) && rw.read().map(|x| *x).unwrap_or(0) == 2);
  let g = rw.read().unwrap_or_else(|e| e.into_inner());
  ok(*g == 2 && !rw.is_poisoned());
  rx::end();
}
pub fn sc_std_num() {
  let (a, b) = (3i64, 5i64);
  ok(a.min(b) == 3 && a.max(b) == 5 && std::cmp::max(a, b) == 5 && (a - b).abs() == 2 && a.clamp(4, 6) == 4);
  ok(a.checked_add(b) == Some(8) && i64::MAX.checked_add(1).is_none() && 3usize.checked_sub(4).is_none());
  ok(3usize.saturating_sub(4) == 0 && i64::MAX.saturating_add(1) == i64::MAX && u8::MAX.wrapping_add(1) == 0);
  ok(a.cmp(&b) == std::cmp::Ordering::Less && a.partial_cmp(&b) == Some(std::cmp::Ordering::Less));
  ok(matches!(a.cmp(&b), std::cmp::Ordering::Less) && a.cmp(&b).is_lt() && a.cmp(&b).reverse().is_gt());
  ok(a.pow(2) == 9 && 7 / 2 == 3 && 7 % 2 == 1 && -7i64.rem_euclid(2) == -1 && (1 << 3) == 8 && (6 & 3) == 2 && (6 ^ 3) == 5);
  ok(usize::try_from(3i64).is_ok() && i64::from(3i32) == 3 && (3u32 as usize) == 3 && 3i32 as i64 == 3);
  ok(u64::MAX.overflowing_add(1).1 && 3usize.abs_diff(5) == 2);
  let s = format!("{} {:?}", 1, "x");
  let t = String::from("a");
  let _ = t.clone() + "b";
  ok((1, 2) < (1, 3) && [1, 2] == [1, 2] && (1, 2) == (1, 2));
  ok(std::convert::identity(3) == 3);
  let x: i64 = Default::default();
  ok(x == 0);
  let c = std::cell::Cell::new(1);
  c.set(c.get() + 1);
  ok(c.replace(5) == 2 && c.take() == 5);
  let z = std::rc::Rc::new(3);
  ok(*z.clone() == 3);
  ok(std::mem::size_of::<u64>() == 8);
  ok(std::any::TypeId::of::<i64>() == std::any::TypeId::of::<i64>());
  rx::end();
}
pub fn sc_std_time() {
  let d = Duration::from_millis(1500);
  ok(d.as_millis() == 1500 && d.as_secs() == 1 && d + Duration::from_secs(1) == Duration::from_millis(2500) && d * 2 == Duration::from_secs(3));
  ok(d > Duration::ZERO && d.checked_sub(Duration::from_secs(9)).is_none() && d.saturating_sub(Duration::from_secs(9)) == Duration::ZERO);
  ok(d - Duration::from_millis(500) == Duration::from_secs(1) && d / 3 == Duration::from_millis(500) && d.is_zero() == false && d.subsec_millis() == 500);
  let t = Instant::now();
  ok(t.elapsed() == Duration::ZERO);
  std::thread::sleep(d);
  ok(t.elapsed() == d && t + d == Instant::now() && Instant::now() - t == d && Instant::now().duration_since(t) == d);
  ok(Instant::now() > t && t.checked_duration_since(Instant::now()).is_none() && Instant::now().saturating_duration_since(t) == d);
  let s = SystemTime::now();
  std::thread::sleep(d);
  ok(s.elapsed().unwrap() == d && SystemTime::now().duration_since(s).is_ok());
  rx::end();
}
pub fn sc_std_thread() {
  let a = Arc::new((Mutex::new(0i64), Condvar::new()));
  let b = a.clone();
  let h = std::thread::spawn(move || {
    let mut g = b.0.lock().unwrap();
    *g += 1;
    b.1.notify_all();
    drop(g);
    std::thread::yield_now();
    5
  });
  {
    let mut g = a.0.lock().unwrap();
    while *g == 0 {
      g = a.1.wait(g).unwrap();
    }
  }
  {
    let g = a.1.wait_while(a.0.lock().unwrap(), |x| *x == 0).unwrap();
    ok(*g == 1);
  }
  ok(h.join().unwrap() == 5);
  let h = std::thread::Builder::new().name("x".to_string()).spawn(move || {
    std::thread::sleep(Duration::from_millis(5));
    std::thread::current().id();
  });
  ok(!h.as_ref().unwrap().is_finished());
  ok(h.unwrap().join().is_ok());
  let b = a.clone();
  let h = std::thread::spawn(move || {
    std::thread::sleep(Duration::from_millis(5));
    *b.0.lock().unwrap() = 7;
    b.1.notify_one();
  });
  {
    let (g, r) = a.1.wait_timeout(a.0.lock().unwrap(), Duration::from_millis(2)).unwrap();
    ok(r.timed_out() && *g == 1);
  }
  {
    let (g, r) = a.1.wait_timeout_while(a.0.lock().unwrap(), Duration::from_millis(20), |x| *x == 1).unwrap();
    ok(!r.timed_out() && *g == 7);
  }
  ok(h.join().is_ok());
  rx::end();
}
trait Shape {
  fn area(&self) -> i64;
  fn twice(&self) -> i64 {
    self.area() * 2
  }
}
struct Sq(i64);
impl Shape for Sq {
  fn area(&self) -> i64 {
    self.0
  }
}
impl Drop for Sq {
  fn drop(&mut self) {
    unsafe { DROPS += 1 }
  }
}
static mut DROPS: i64 = 0;
struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
  fn drop(&mut self) {
    (self.0)();
  }
}
pub fn sc_std_lang() {
  let v: Vec<Box<dyn Shape>> = vec![Box::new(Sq(1)), Box::new(Sq(2))];
  ok(v.iter().map(|x| x.twice()).sum::<i64>() == 6);
  drop(v);
  let mut n = 0;
  {
    let _g = OnDrop(|| n += 1);
  }
  ok(n == 1);
  let f: fn(i64) -> i64 = |x| x + 1;
  ok(f(1) == 2);
  fn hof(f: impl Fn(i64) -> i64, g: &dyn Fn(i64) -> i64) -> i64 {
    g(f(1))
  }
  ok(hof(|x| x + 1, &|x| x * 3) == 6);
  let mut c = 0;
  let mut inc = || {
    c += 1;
    c
  };
  ok(inc() == 1 && inc() == 2);
  let r = 'a: loop {
    for i in 0.. {
      if i == 3 {
        break 'a i;
      }
    }
  };
  ok(r == 3);
  let x = match (1, Some(2)) {
    (1, Some(n)) if n > 3 => 0,
    (1, Some(n @ 1..=2)) => n,
    _ => 9,
  };
  ok(x == 2);
  let [a, .., b] = [1, 2, 3];
  ok(a + b == 4);
  let s: &[i64] = &[1, 2, 3];
  if let [x, rest @ ..] = s {
    ok(*x == 1 && rest.len() == 2);
  }
  let b: Box<i64> = Box::new(3);
  ok(*b + 1 == 4);
  std::hint::black_box(3);
  let p = std::panic::AssertUnwindSafe(3);
  ok(p.0 == 3);
  let _: std::marker::PhantomData<i64> = std::marker::PhantomData;
  let it: Box<dyn Iterator<Item = i64>> = Box::new(vec![1, 2].into_iter());
  ok(it.count() == 2);
  let cow: std::borrow::Cow<str> = "a".into();
  rx::end();
}
