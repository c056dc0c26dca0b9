//! Creation functions, endless sources, utils.
use crate::core::*;
use crate::ops::cl;
use crate::run::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;

/// what a creation function delivers
pub struct Seq {
  v: Vec<Val>,
  /// 0 = silent, 1 = completes, 2 = fails
  end: u32,
  e: Option<ETok>,
}
fn done(v: Vec<Val>) -> Seq {
  Seq { v, end: 1, e: None }
}
/// subscribed twice, directly, through an operator, or by someone who takes a few items only
fn gen<X: Out>(o: Obs<X>, want: &dyn Fn() -> Seq, env: Env, props: &'static str) {
  rx::set_props(props);
  let mut round = 0;
  let mut subs: Vec<Subscription<'static>> = Vec::new();
  while round < 2 {
    let how = rx::choose(4);
    let k = if how == 1 { 1 + rx::choose(3) } else { 0 };
    let rec = if round == 0 { Rec::new("C02", "C02,C04") } else { Rec::new("C02,C14", "C02,C04,C14") };
    let w = want();
    let mut i = 0;
    while i < w.v.len() {
      rec.n(w.v[i].clone());
      i += 1;
      if how == 1 && i as u32 == k {
        rec.c();
      }
    }
    if w.end == 1 {
      rec.c();
    } else if w.end == 2 {
      rec.e(w.e.unwrap());
    }
    let sub = match how {
      0 => {
        rx::ev("subscribe");
        rec.observe(&o, &env.probe)
      }
      1 => {
        rx::ev("subscribe, taking a few");
        rec.observe(&o.take(k as usize), &env.probe)
      }
      2 => {
        rx::ev("subscribe through map and filter");
        rec.observe(&o.map(|x| x).filter(|_| true), &env.probe)
      }
      _ => {
        rx::ev("subscribe after tap and skip(0)");
        rec.observe(&o.skip(0).tap(|_| {}, |_| {}, || {}), &env.probe)
      }
    };
    rec.settled();
    status(&sub, &rec);
    if rec.live() {
      rx::ev("unsubscribe");
      sub.unsubscribe();
      rec.s().unsub = true;
      status(&sub, &rec);
    }
    subs.push(sub);
    round += 1;
  }
  drop(subs);
  drop(o);
  drop(env.hook.g().take());
  rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}
fn some(n: u32) -> (Vec<Tok>, Vec<Val>) {
  let mut a = Vec::new();
  let mut b = Vec::new();
  let mut i = 0;
  while i < n {
    let t = rx::fresh();
    a.push(t);
    b.push(Val::T(t));
    i += 1;
  }
  (a, b)
}
pub fn sc_gen_just() {
  let x = rx::fresh();
  gen(observables::just(x), &|| done(vec1(Val::T(x))), Env::new(0), "C02");
}
pub fn sc_gen_from_iter() {
  let n = rx::choose(5);
  let (a, b) = some(n);
  gen(observables::from_iter(a.into_iter()), &|| done(b.clone()), Env::new(0), "C02");
}
/// an iterator of the client's
#[derive(Clone)]
struct It {
  i: i64,
  n: i64,
}
impl Iterator for It {
  type Item = i64;
  fn next(&mut self) -> Option<i64> {
    if self.i < self.n {
      self.i += 1;
      Some(self.i)
    } else {
      None
    }
  }
}
pub fn sc_gen_from_own_iter() {
  let n = rx::choose(5) as i64;
  let mut b = Vec::new();
  let mut i = 0;
  while i < n {
    i += 1;
    b.push(Val::I(i));
  }
  gen(observables::from_iter(It { i: 0, n }), &|| done(b.clone()), Env::new(0), "C02");
}
pub fn sc_gen_range() {
  let (s, n): (i64, i64) = match rx::choose(10) {
    0 => (0, 0),
    1 => (0, 3),
    2 => (-2, 4),
    3 => (5, 1),
    4 => (3, -1),
    5 => (i64::MAX - 1, 1),
    6 => (i64::MAX, 1),
    7 => (i64::MIN, 2),
    8 => (-1, 1),
    _ => (i64::MAX - 2, 3),
  };
  let mut b = Vec::new();
  let mut i = 0;
  while i < n {
    b.push(Val::I(s + i));
    i += 1;
  }
  rx::ev_val("range from", &Val::I(s));
  gen(observables::range(s, n), &|| done(b.clone()), Env::new(0), "C02");
}
pub fn sc_gen_empty() {
  gen(observables::empty::<Tok>(), &|| done(Vec::new()), Env::new(0), "C02");
}
pub fn sc_gen_never() {
  gen(observables::never::<Tok>(), &|| Seq { v: Vec::new(), end: 0, e: None }, Env::new(0), "C02");
}
pub fn sc_gen_error() {
  let e = fresh_err();
  gen(observables::error::<Tok>(mkerr(e)), &|| Seq { v: Vec::new(), end: 2, e: Some(e) }, Env::new(0), "C02,C04");
}
/// the factory runs once for every subscription, and what it returns is subscribed
pub fn sc_gen_defer() {
  let env = Env::new(0);
  let calls = Sh::new(0i64);
  let (c2, e2) = (calls.clone(), env.clone());
  let kind = rx::choose(3);
  let x = rx::fresh();
  let e = fresh_err();
  let o = observables::defer(move || {
    let _p = &e2.probe;
    *c2.g() += 1;
    let n = *c2.g();
    let inner: Obs<Tok> = match kind {
      0 => {
        let mut v = Vec::new();
        let mut i = 0;
        while i < n {
          v.push(x);
          i += 1;
        }
        observables::from_iter(v.into_iter())
      }
      1 => observables::error(mkerr(e)),
      _ => observables::never(),
    };
    inner
  });
  rx::check(*calls.g() == 0, "C02:the factory runs before anybody subscribes");
  let subs = Sh::new(0i64);
  let s2 = subs.clone();
  gen(
    o,
    &move || {
      rx::check(*calls.g() == *s2.g(), "C02,C14:the factory does not run once for every subscription");
      *s2.g() += 1;
      let mut v = Vec::new();
      if kind == 0 {
        let mut i = 0;
        while i < *s2.g() {
          v.push(Val::T(x));
          i += 1;
        }
      }
      Seq { v, end: if kind == 0 { 1 } else if kind == 1 { 2 } else { 0 }, e: Some(e) }
    },
    env,
    "C02",
  );
}
pub fn sc_gen_start() {
  let env = Env::new(0);
  let calls = Sh::new(0i64);
  let (c2, e2) = (calls.clone(), env.clone());
  let o = observables::start(move || {
    let _p = &e2.probe;
    *c2.g() += 1;
    *c2.g()
  });
  rx::check(*calls.g() == 0, "C02:the function runs before anybody subscribes");
  let subs = Sh::new(0i64);
  gen(
    o,
    &move || {
      rx::check(*calls.g() == *subs.g(), "C02,C14:the function does not run once for every subscription");
      *subs.g() += 1;
      done(vec1(Val::I(*subs.g())))
    },
    env,
    "C02",
  );
}
pub fn sc_gen_from_result() {
  let x = rx::fresh();
  let e = fresh_err();
  if rx::choose(2) == 0 {
    gen(observables::from_result(Ok::<Tok, ETok>(x)), &|| done(vec1(Val::T(x))), Env::new(0), "C02");
  } else {
    gen(observables::from_result(Err::<Tok, ETok>(e)), &|| Seq { v: Vec::new(), end: 2, e: Some(e) }, Env::new(0), "C02,C04");
  }
}
pub fn sc_gen_something() {
  let x = rx::fresh();
  let e = fresh_err();
  if rx::choose(2) == 0 {
    gen(utils::Something::success(x).proceed(), &|| done(vec1(Val::T(x))), Env::new(0), "C02");
  } else {
    gen(
      utils::Something::<Tok>::error(mkerr(e)).proceed(),
      &|| Seq { v: Vec::new(), end: 2, e: Some(e) },
      Env::new(0),
      "C02,C04",
    );
  }
}
/// materialize and dematerialize are inverse
pub fn sc_gen_roundtrip() {
  let n = rx::choose(3);
  let (a, b) = some(n);
  let e = fresh_err();
  let end = rx::choose(3);
  let o: Obs<Tok> = Observable::create(move |s: Observer<'static, Tok>| {
    let mut i = 0;
    while i < a.len() {
      s.next(a[i]);
      i += 1;
    }
    if end == 1 {
      s.complete();
    } else if end == 2 {
      s.error(mkerr(e));
    }
  });
  gen(
    o.materialize().dematerialize(),
    &|| Seq { v: b.clone(), end, e: Some(e) },
    Env::new(0),
    "C02,C04",
  );
}
/// errors keep what they carry
pub fn sc_gen_payload() {
  rx::set_props("C04");
  let e = fresh_err();
  let a = mkerr(e);
  let b = a.clone();
  let c = RxError::from_result::<(), ETok>(Err(e));
  let mut v = Vec::new();
  v.push(a);
  v.push(b);
  v.push(c);
  let mut i = 0;
  while i < 3 {
    match v[i].downcast_ref::<ETok>() {
      Some(x) => rx::check(rx::tok_same(&x.0, &e.0), "C04:error payload changed"),
      None => rx::check(false, "C04:error payload lost"),
    }
    rx::check(v[i].is::<ETok>(), "C04:is() denies the payload's type");
    rx::check(!v[i].is::<Tok>() && v[i].downcast_ref::<Tok>().is_none(), "C04:another type than the payload's");
    i += 1;
  }
  rx::end();
}

#[derive(Clone, Debug, PartialEq)]
struct Unit;
#[derive(Clone, Debug, PartialEq)]
struct Wide(u64, Vec<i32>);
fn payload<E: std::fmt::Debug + Clone + Send + Sync + 'static>(e: E, same: fn(&E, &E) -> bool) {
  let src = if rx::choose(2) == 0 {
    observables::error::<i64>(RxError::from_error(e.clone()))
  } else {
    observables::from_result::<i64, E>(Err(e.clone()))
  };
  let o = match rx::choose(7) {
    0 => src,
    1 => src.map(|x: i64| x + 1).filter(|x: i64| x > 0),
    2 => src.merge(&[observables::never()]),
    3 => src.retry(2),
    4 => src.materialize().dematerialize(),
    5 => src.on_error_resume_next(|e| observables::error(e)),
    _ => observables::just(1i64).flat_map(move |_| src.clone()),
  };
  let n = Sh::new(0);
  let n2 = n.clone();
  o.subscribe(
    |_| rx::check(false, "C04:item from an observable that only fails"),
    move |x| {
      *n2.g() += 1;
      match x.downcast_ref::<E>() {
        Some(y) => rx::check(same(y, &e), "C04:error payload changed"),
        None => rx::check(false, "C04:error payload lost"),
      }
      let mut k = 0;
      if x.is::<Unit>() { k += 1; }
      if x.is::<Wide>() { k += 1; }
      if x.is::<&'static str>() { k += 1; }
      if x.is::<i32>() { k += 1; }
      if x.is::<u32>() { k += 1; }
      if x.downcast_ref::<Unit>().is_some() { k += 1; }
      if x.downcast_ref::<Wide>().is_some() { k += 1; }
      if x.downcast_ref::<&'static str>().is_some() { k += 1; }
      if x.downcast_ref::<i32>().is_some() { k += 1; }
      if x.downcast_ref::<u32>().is_some() { k += 1; }
      rx::check(k == 2, "C04:the error claims to be of another type too");
    },
    || rx::check(false, "C04:completion instead of the error"),
  );
  rx::check(*n.g() == 1, "C04:the error is not delivered exactly once");
}
/// payloads of other types and sizes
pub fn sc_gen_payload_types() {
  rx::set_props("C04");
  match rx::choose(5) {
    0 => payload(Unit, |a, b| a == b),
    1 => payload(Wide(7, vec![1, 2]), |a, b| a == b),
    2 => payload("text", |a, b| a.len() == b.len()),
    3 => payload(-5i32, |a, b| a == b),
    _ => payload(5u32, |a, b| a == b),
  }
  rx::end();
}

// ---- producers that stop only when they see that nobody listens
#[derive(Clone)]
struct Endless(Tok);
impl Iterator for Endless {
  type Item = Tok;
  fn next(&mut self) -> Option<Tok> {
    Some(self.0)
  }
}
fn endless(x: Tok) -> Obs<Tok> {
  match rx::choose(3) {
    0 => observables::repeat(x),
    1 => observables::from_iter(Endless(x)),
    _ => Observable::create(move |s: Observer<'static, Tok>| {
      while s.is_subscribed() {
        s.next(x);
      }
    }),
  }
}
fn rep(x: Tok, n: u32) -> Vec<Val> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n {
    v.push(Val::T(x));
    i += 1;
  }
  v
}
fn ends<X: Out>(p: &'static str, o: Obs<X>, v: Vec<Val>, err: Option<ETok>) {
  rx::set_props(p);
  let rec = Rec::new(p, p);
  let mut i = 0;
  while i < v.len() {
    rec.n(v[i].clone());
    i += 1;
  }
  match err {
    Some(e) => rec.e(e),
    None => rec.c(),
  }
  let probe = Arc::new(());
  let sub = rec.observe(&o, &probe);
  rec.settled();
  status(&sub, &rec);
  drop(sub);
  drop(o);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks still owned after the end");
  rx::end();
}
fn bin(a: &Obs<Tok>, b: Obs<Tok>) -> Vec<Obs<Tok>> {
  let mut v = Vec::new();
  v.push(b);
  let _ = a;
  v
}
static P2: &str = "C06,C07,C02";
static P3: &str = "C06,C07,C03";
macro_rules! e_scs {
  ($($f:ident |$x:ident, $s:ident| $o:expr => $v:expr;)*) => { $(
    pub fn $f() {
      let $x = rx::fresh();
      let $s = endless($x);
      ends(P2, $o, $v, None)
    }
  )* };
}
macro_rules! m_scs {
  ($($f:ident |$x:ident, $s:ident| $o:expr => $v:expr;)*) => { $(
    pub fn $f() {
      let $x = rx::fresh();
      let $s = endless($x);
      ends(P3, $o, $v, None)
    }
  )* };
}
fn pairs(x: Tok, n: u32) -> Vec<Val> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n {
    v.push(Val::L(vec2(Val::T(x), Val::T(x))));
    i += 1;
  }
  v
}
e_scs! {
  sc_endless_take |x, s| s.take(2) => rep(x, 2);
  sc_endless_take_map |x, s| s.map(|y| y).take(2).filter(|_| true) => rep(x, 2);
  sc_endless_take_take |x, s| s.take(3).take(1) => rep(x, 1);
  sc_endless_first |x, s| s.first() => rep(x, 1);
  sc_endless_element |x, s| s.element_at(2) => rep(x, 1);
  sc_endless_skip |x, s| s.skip(2).take(1) => rep(x, 1);
  sc_endless_skip_last |x, s| s.skip_last(1).take(1) => rep(x, 1);
  sc_endless_while |x, s| s.take_while(|_| false) => Vec::new();
  sc_endless_contains |x, s| s.contains(x) => vec1(Val::B(true));
  sc_endless_all |x, s| s.all(|_| false) => vec1(Val::B(false));
  sc_endless_buffer |x, s| s.buffer_with_count(2).take(1) => vec1(Val::L(rep(x, 2)));
  sc_endless_scan |x, s| s.scan(|p| p.1).take(2) => rep(x, 2);
  sc_endless_distinct |x, s| s.distinct_until_changed().first() => rep(x, 1);
  sc_endless_start_with |x, s| s.start_with(rep2(x).into_iter()).take(2) => rep(x, 2);
  sc_endless_start_take |x, s| s.start_with(rep2(x).into_iter()).take(3) => rep(x, 3);
  sc_endless_materialize |x, s| s.materialize().dematerialize().take(2) => rep(x, 2);
  sc_endless_tap |x, s| s.tap(|_| {}, |_| {}, || {}).take(1) => rep(x, 1);
  sc_endless_default |x, s| s.default_if_empty(x).take(1) => rep(x, 1);
  sc_endless_retry |x, s| s.retry(2).take(2) => rep(x, 2);
  sc_endless_window |x, s| s.window_with_count(2).flat_map(|w: Obs<Tok>| w).take(3) => rep(x, 3);
  sc_endless_group |x, s| s.group_by(|_| 0).take(1).map(|_| 0usize) => vec1(Val::I(0));
  sc_endless_defer |x, s| observables::defer(move || s.clone()).take(2) => rep(x, 2);
  sc_endless_ref_count |x, s| s.ref_count().observable().take(2) => rep(x, 2);
  sc_endless_replay |x, s| s.replay().observable().take(2) => rep(x, 2);
}
fn rep2(x: Tok) -> Vec<Tok> {
  let mut v = Vec::new();
  v.push(x);
  v.push(x);
  v
}
m_scs! {
  sc_endless_merge |x, s| s.merge(&bin(&s, observables::just(x))).take(2) => rep(x, 2);
  sc_endless_merge2 |x, s| observables::just(x).merge(&bin(&s, s.clone())).take(3) => rep(x, 3);
  sc_endless_concat |x, s| observables::just(x).concat(&bin(&s, s.clone())).take(3) => rep(x, 3);
  sc_endless_zip |x, s| observables::just(x).zip(&bin(&s, s.clone())).take(1) => pairs2(x);
  sc_endless_amb |x, s| s.amb(&bin(&s, observables::just(x))).take(2) => rep(x, 2);
  sc_endless_amb_loser |x, s| observables::just(x).amb(&bin(&s, s.clone())) => rep(x, 1);
  sc_endless_flat_map |x, s| observables::just(x).flat_map(move |_| s.clone()).take(2) => rep(x, 2);
  sc_endless_flat_map2 |x, s| s.flat_map(move |_| observables::just(x)).take(2) => rep(x, 2);
  sc_endless_combine |x, s| observables::just(x).combine_latest(&bin(&s, s.clone()), |v: Vec<Tok>| v[0]).take(2) => rep(x, 2);
  sc_endless_seq_eq |x, s| observables::just(x).sequence_equal(&bin(&s, s.clone())) => vec1(Val::B(false));
  sc_endless_skip_until |x, s| s.skip_until(observables::just(())).take(1) => rep(x, 1);
  sc_endless_resume |x, s| observables::error::<Tok>(mkerr(ETok(x))).on_error_resume_next(move |_| s.clone()).take(2) => rep(x, 2);
}
fn pairs2(x: Tok) -> Vec<Val> {
  vec1(Val::L(rep(x, 2)))
}

// ---- utils
/// dropping a Using guard unsubscribes
pub fn sc_using() {
  rx::set_props("C05");
  let slot: Sh<Option<Observer<'static, Tok>>> = Sh::new(None);
  let s2 = slot.clone();
  let o: Obs<Tok> = Observable::create(move |s: Observer<'static, Tok>| *s2.g() = Some(s));
  let rec = Rec::new("C02", "C04");
  let probe = Arc::new(());
  let deep = rx::choose(2) == 1;
  let sub = if deep { rec.observe(&o.map(|x| x), &probe) } else { rec.observe(&o, &probe) };
  let sub2 = sub.clone();
  let before = rx::choose(2) == 1;
  {
    let _g = utils::Using::new(sub);
    rx::check(sub2.is_subscribed(), "C05:is_subscribed() is false on a live subscription");
    let x = rx::fresh();
    rec.n(Val::T(x));
    let up = slot.g().clone().unwrap();
    up.next(x);
    rec.settled();
    rx::check(sub2.is_subscribed(), "C05:is_subscribed() is false on a live subscription");
    if before {
      rx::ev("source: complete");
      rec.c();
      up.complete();
      rec.settled();
    }
    rx::ev("drop the guard");
  }
  rec.s().unsub = true;
  rec.s().late = true;
  rx::check(!sub2.is_subscribed(), "C05:dropping the guard does not unsubscribe");
  let up = slot.g().clone().unwrap();
  rx::check(!up.is_subscribed(), "C05,C06:the source still sees is_subscribed() after the guard was dropped");
  rx::ev("source: next");
  up.next(rx::fresh());
  rx::end();
}
/// nothing the action emits is missed, whatever the subject
pub fn sc_ready_set_go() {
  rx::set_props("C03");
  let s = subjects::Subject::<Tok>::new();
  let s2 = s.clone();
  let rec = Rec::new("C03", "C03,C04");
  let n = rx::choose(3);
  let end = rx::choose(3);
  let want: Sh<Option<Rec>> = Sh::new(Some(rec.clone()));
  let runs = Sh::new(0u32);
  let r2 = runs.clone();
  let o = utils::ready_set_go(
    move || {
      *r2.g() += 1;
      let w = want.g().clone().unwrap();
      let mut i = 0;
      while i < n {
        let x = rx::fresh();
        w.n(Val::T(x));
        s2.next(x);
        i += 1;
      }
      if end == 1 {
        w.c();
        s2.complete();
      } else if end == 2 {
        let e = fresh_err();
        w.e(e);
        s2.error(mkerr(e));
      }
    },
    s.observable(),
  );
  rx::check(*runs.g() == 0, "C03:the action runs before anybody subscribes");
  let probe = Arc::new(());
  let sub = if rx::choose(2) == 1 { rec.observe(&o.map(|x| x), &probe) } else { rec.observe(&o, &probe) };
  rx::check(*runs.g() == 1, "C03:the action does not run once");
  rec.settled();
  status(&sub, &rec);
  if end == 0 {
    let x = rx::fresh();
    rec.n(Val::T(x));
    s.next(x);
    rec.settled();
  }
  rx::end();
}
