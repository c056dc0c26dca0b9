//! One source that feeds both sides of a combining operator.
use crate::core::*;
use crate::run::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;

const F: i64 = 1000;
struct LogS {
  /// items of the current step
  step: Vec<i64>,
  all: Vec<i64>,
  over: bool,
  failed: bool,
  unsub: bool,
}
#[derive(Clone)]
struct Log(Sh<LogS>);
impl Log {
  fn new() -> Log {
    Log(Sh::new(LogS { step: Vec::new(), all: Vec::new(), over: false, failed: false, unsub: false }))
  }
  fn g(&self) -> &mut LogS {
    self.0.g()
  }
  fn sub(&self, o: &Obs<i64>, p: &Arc<()>) -> Subscription<'static> {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let (pa, pb, pc) = (p.clone(), p.clone(), p.clone());
    o.subscribe(
      move |x: i64| {
        let _p = &pa;
        rx::ev_val("  got next", &Val::I(x));
        let s = a.g();
        rx::check(!s.over, "C01,C03:item delivered after the terminal event");
        rx::check(!s.unsub, "C05:event delivered after unsubscribe returned");
        s.step.push(x);
        s.all.push(x);
      },
      move |e: RxError| {
        let _p = &pb;
        rx::ev("  got error");
        let s = b.g();
        rx::check(!s.over, "C01,C03,C04:error delivered after the terminal event");
        rx::check(!s.unsub, "C05:event delivered after unsubscribe returned");
        match err_of(&e) {
          Some(t) => rx::check(rx::tok_same(&t.0, &rx::tok_const(7)), "C04:error payload changed"),
          None => rx::check(false, "C04:error payload lost"),
        }
        s.over = true;
        s.failed = true;
      },
      move || {
        let _p = &pc;
        rx::ev("  got complete");
        let s = c.g();
        rx::check(!s.over, "C01,C03:complete delivered after the terminal event");
        rx::check(!s.unsub, "C05:event delivered after unsubscribe returned");
        s.over = true;
      },
    )
  }
}
fn pair(v: Vec<i64>) -> i64 {
  v[0] * 10 * F + v[1]
}
fn p2(a: i64, b: i64) -> i64 {
  a * 10 * F + b
}
/// `o` combined with itself
fn build(w: u32, o: &Obs<i64>) -> Obs<i64> {
  let f = o.map(|x| F + x);
  let mut v = Vec::new();
  match w {
    0 => { v.push(f); o.merge(&v) }
    1 => { v.push(f); o.zip(&v).map(pair) }
    2 => { v.push(o.skip(1)); o.zip(&v).map(pair) }
    3 => { v.push(f); o.combine_latest(&v, pair) }
    4 => o.take_until(o.clone()),
    5 => o.skip_until(o.clone()),
    6 => o.sample(o.clone()),
    7 => { v.push(f); o.amb(&v) }
    8 => { v.push(o.clone()); o.sequence_equal(&v).map(|b| b as i64) }
    9 => { v.push(f); o.concat(&v) }
    10 => o.switch_on_next(f),
    11 => { let o2 = o.clone(); o.flat_map(move |_| o2.clone()) }
    12 => { let r = o.ref_count().observable(); v.push(r.map(|x| F + x)); r.merge(&v) }
    13 => { let r = o.replay().observable(); v.push(r.map(|x| F + x)); r.zip(&v).map(pair) }
    14 => { v.push(o.clone()); v.push(f); o.merge(&v).distinct_until_changed() }
    15 => { let o2 = o.clone(); o.window_with_count(2).flat_map(move |w: Obs<i64>| { let mut v = Vec::new(); v.push(o2.clone()); w.zip(&v).map(pair) }) }
    16 => o.take_until(o.skip(1)),
    17 => { v.push(o.take(1)); v.push(o.skip(1)); o.merge(&v) }
    18 => o.skip_until(o.filter(|x| x == 2)),
    _ => { v.push(o.map(|x| x)); o.amb(&v).take(2) }
  }
}
fn one(l: &Vec<i64>, a: i64) -> bool { l.len() == 1 && l[0] == a }
fn two(l: &Vec<i64>, a: i64, b: i64) -> bool { l.len() == 2 && (l[0] == a && l[1] == b || l[0] == b && l[1] == a) }
/// is what arrived with the n-th item allowed? (the order in which a subject serves its observers is open)
fn allowed(w: u32, n: i64, g: &LogS) -> bool {
  let l = &g.step;
  match w {
    0 | 12 => two(l, n, F + n),
    1 | 13 => one(l, p2(n, F + n)),
    2 => if n == 1 { l.len() == 0 } else { one(l, p2(n - 1, n)) },
    3 => if n == 1 { one(l, p2(1, F + 1)) } else {
      l.len() == 2 && l[1] == p2(n, F + n) && (l[0] == p2(n, F + n - 1) || l[0] == p2(n - 1, F + n))
    },
    4 => g.over && !g.failed && (l.len() == 0 || n == 1 && one(l, 1)),
    5 => one(l, n) || n == 1 && l.len() == 0,
    6 => l.len() == 0 || one(l, n) || one(l, n - 1) || l.len() == 2 && l[0] == n - 1 && l[1] == n,
    7 => one(l, n) || one(l, F + n),
    8 => l.len() == 0,
    9 => one(l, n),
    10 => if n == 1 { one(l, F + 1) || l.len() == 2 && l[0] == 1 && l[1] == F + 1 } else { one(l, F + n) },
    11 => {
      let mut i = 0;
      while i < l.len() {
        if l[i] != n {
          return false;
        }
        i += 1;
      }
      l.len() as i64 == n - 1
    }
    // x x F+x in some order: two to three changes
    14 => l.len() == 2 || l.len() == 3,
    15 | 19 => true,
    16 => if n == 1 { one(l, 1) } else { g.over && !g.failed && (l.len() == 0 || n == 2 && one(l, 2)) },
    17 => l.len() == 2 && l[0] == n && l[1] == n,
    _ => if n == 1 { l.len() == 0 } else { one(l, n) || n == 2 && l.len() == 0 },
  }
}
fn strictly(l: &Vec<i64>) -> bool {
  let mut i = 1;
  while i < l.len() {
    if l[i] <= l[i - 1] {
      return false;
    }
    i += 1;
  }
  true
}
fn hot(w: u32) {
  rx::set_props("C03,C07");
  let probe = Arc::new(());
  let s = subjects::Subject::<i64>::new();
  let o = build(w, &s.observable());
  let g = Log::new();
  let sub = g.sub(&o, &probe);
  let mut n = 0;
  loop {
    rx::boundary();
    let a = rx::choose(4);
    g.g().step.clear();
    let was = g.g().over;
    if a == 0 {
      if n == 5 {
        rx::end();
      }
      n += 1;
      rx::ev_val("source: next", &Val::I(n));
      s.next(n);
      let st = g.g();
      if was || st.unsub {
        rx::check(st.step.len() == 0, "C03,C05:an item after the end");
      } else {
        rx::check(allowed(w, n, st), "C03:not the items the definition assigns to this order");
        rx::check(st.over == match w {
          4 => true,
          16 => n > 1,
          19 => n > 1,
          _ => false,
        }, "C03:wrong terminal");
        if w == 6 || w == 7 {
          rx::check(strictly(&st.all), "C03:an item delivered twice or out of order, or two winners");
        }
      }
    } else if a < 3 {
      rx::ev(if a == 1 { "source: complete" } else { "source: error" });
      if a == 1 {
        s.complete();
      } else {
        s.error(mkerr(ETok(rx::tok_const(7))));
      }
      let st = g.g();
      if w == 9 && a == 1 {
        // subscribing to a subject that has ended is not specified
        rx::end();
      }
      if !was && !st.unsub {
        rx::check(st.over && st.failed == (a == 2), "C03,C04:the terminal is lost or another one");
        rx::check(if w == 8 && a == 1 { one(&st.step, 1) } else { w == 6 || w == 15 || st.step.len() == 0 }, "C03:not the items the definition assigns to this order");
      } else {
        rx::check(st.step.len() == 0, "C03,C05:an item after the end");
      }
      rx::check(Arc::strong_count(&probe) == 1, "C06,C17:the subject holds an observer that has ended");
      rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after the end");
      drop(sub);
      drop(o);
      rx::end();
    } else {
      rx::ev("unsubscribe");
      sub.unsubscribe();
      g.g().unsub = true;
    }
    let st = g.g();
    rx::check(sub.is_subscribed() == !(st.over || st.unsub), "C05:is_subscribed() does not tell whether the subscription ended");
    if st.over || st.unsub {
      // amb's losers leave when they next try to emit
      rx::check(w == 7 || w == 19 || Arc::strong_count(&probe) == 1, "C06,C17:the subject holds an observer that has ended");
    }
  }
}
macro_rules! sc { ($($f:ident $k:expr;)*) => { $( pub fn $f() { hot($k) } )* }; }
sc! {
  sc_dia_merge 0; sc_dia_zip 1; sc_dia_zip_skip 2; sc_dia_combine 3; sc_dia_take_until 4; sc_dia_skip_until 5; sc_dia_sample 6;
  sc_dia_amb 7; sc_dia_seq_eq 8; sc_dia_concat 9; sc_dia_switch 10; sc_dia_flat_map 11; sc_dia_ref_count 12; sc_dia_replay 13;
  sc_dia_merge3 14; sc_dia_window 15; sc_dia_take_until2 16; sc_dia_merge_parts 17; sc_dia_skip_until2 18; sc_dia_amb_take 19;
}

/// a cold source on both sides
pub fn sc_dia_cold() {
  rx::set_props("C14,C03,C07");
  let w = rx::choose(8);
  let n = rx::choose(4) as i64;
  let times = Sh::new(0i64);
  let t2 = times.clone();
  let src: Obs<i64> = Observable::create(move |s: Observer<'static, i64>| {
    *t2.g() += 1;
    let mut i = 0;
    while i < n && s.is_subscribed() {
      i += 1;
      s.next(i);
    }
    s.complete();
  });
  let o = build([0, 1, 2, 3, 8, 9, 11, 7][w as usize], &src);
  let mut want = Vec::new();
  let mut i = 1;
  match w {
    0 | 5 => {
      while i <= n { want.push(i); i += 1; }
      i = 1;
      while i <= n { want.push(F + i); i += 1; }
    }
    1 => while i <= n { want.push(p2(i, F + i)); i += 1; },
    2 => while i < n { want.push(p2(i, i + 1)); i += 1; },
    3 => while i <= n { want.push(p2(n, F + i)); i += 1; },
    4 => want.push(1),
    6 => {
      while i <= n {
        let mut j = 1;
        while j <= n { want.push(j); j += 1; }
        i += 1;
      }
    }
    _ => while i <= n { want.push(i); i += 1; },
  }
  let mut k = 0;
  while k < 2 {
    let g = Log::new();
    let p = Arc::new(());
    rx::ev("subscribe");
    let sub = g.sub(&o, &p);
    let st = g.g();
    rx::check(st.over && !st.failed, "C03,C14:the terminal is lost or another one");
    rx::check(st.all.len() == want.len(), "C03,C14:an item is missing or too many");
    let mut i = 0;
    while i < st.all.len() && i < want.len() {
      rx::check(st.all[i] == want[i], "C03,C14:another item, or items out of order");
      i += 1;
    }
    rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after the end");
    rx::check(Arc::strong_count(&p) == 1, "C17:callbacks or closures still owned after the end");
    k += 1;
  }
  rx::end();
}
