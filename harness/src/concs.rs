//! A single-source operator between threads: the source emits on one thread, another one ends it or unsubscribes.
use crate::conc::CRec;
use crate::core::*;
use crate::ops::op;
use crate::run::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;
use std::thread;

#[derive(Clone, Copy, PartialEq)]
pub enum SM {
  /// one thread emits two items and completes, another unsubscribes
  Unsub,
  /// one thread emits two items, another completes or fails
  End,
  /// two threads emit
  Two,
}
fn emit(up: &Observer<'static, Tok>, rec: &CRec, i: u32, items: u32, end: u32) {
  let env = Env::new(0);
  let mut n = 0;
  while n < items {
    let x = Tok::mk(&env);
    rx::ev_val(if i == 0 { "thread 1: next" } else { "thread 2: next" }, &x.val());
    rec.emitting();
    up.next(x);
    n += 1;
  }
  if end == 1 {
    rx::ev(if i == 0 { "thread 1: complete" } else { "thread 2: complete" });
    rec.emitting();
    up.complete();
  } else if end == 2 {
    rx::ev(if i == 0 { "thread 1: error" } else { "thread 2: error" });
    rec.emitting();
    up.error(mkerr(fresh_err()));
  }
}
pub fn concs<X: Out>(op: &Op<Tok, X>, m: SM) {
  rx::set_props(if m == SM::Unsub { "C05,C07" } else { "C19,C07" });
  let env = Env::new(pick_op(op, true));
  let (cs, cv) = consts::<Tok>(&env, op.nc);
  let cap = (op.s)(&env, &cv).cap();
  let ups: Sh<Vec<Observer<'static, Tok>>> = Sh::new(Vec::new());
  let u2 = ups.clone();
  let pr = env.probe.clone();
  let o = (op.b)(&env, &cs, Observable::create(move |s: Observer<'static, Tok>| {
    let _p = &pr;
    u2.g().push(s);
  }));
  drop(cs);
  let rec = CRec::new("C19,C01");
  let probe = env.probe.clone();
  let end = if m == SM::End { 1 + rx::choose(2) } else { 0 };
  let sub = rec.observe(&o, &probe);
  if ups.g().len() == 0 {
    rx::end();
  }
  rx::conc(2);
  {
    let (up, rec) = (ups.g()[0].clone(), rec.clone());
    thread::spawn(move || emit(&up, &rec, 0, 2, if m == SM::Unsub { 1 } else { 0 }));
  }
  if m == SM::Unsub {
    rx::ev("main: unsubscribe");
    sub.unsubscribe();
    rec.s().unsub = true;
    rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after unsubscribe");
  } else {
    let up = ups.g()[0].clone();
    emit(&up, &rec, 1, if m == SM::Two { 2 } else { 0 }, end);
  }
  rx::settle();
  if let Some(n) = cap {
    rx::check(m != SM::Two || rec.items().len() <= n as usize, "C11:more items than the operator may deliver for any input");
  }
  let ended = rec.s().over || rec.s().unsub;
  rx::check(sub.is_subscribed() != ended, "C05:is_subscribed() does not tell whether the subscription ended");
  if !ended {
    rx::end();
  }
  let mut i = 0;
  while i < ups.g().len() {
    rx::check(!ups.g()[i].is_subscribed(), "C06:the source still sees is_subscribed() after the end");
    i += 1;
  }
  *ups.g() = Vec::new();
  drop(sub);
  drop(o);
  drop(env);
  drop(rec);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}
macro_rules! cs {
  ($($o:ident $u:ident $e:ident;)*) => { $(
    pub fn $u() { concs(&op::$o::<Tok>(), SM::Unsub) }
    pub fn $e() { concs(&op::$o::<Tok>(), SM::End) }
  )* };
}
cs! {
  id sc_concsu_id sc_concse_id;
  map sc_concsu_map sc_concse_map;
  filter sc_concsu_filter sc_concse_filter;
  take sc_concsu_take sc_concse_take;
  take_last sc_concsu_take_last sc_concse_take_last;
  take_while sc_concsu_take_while sc_concse_take_while;
  skip sc_concsu_skip sc_concse_skip;
  skip_last sc_concsu_skip_last sc_concse_skip_last;
  skip_while sc_concsu_skip_while sc_concse_skip_while;
  first sc_concsu_first sc_concse_first;
  last sc_concsu_last sc_concse_last;
  element_at sc_concsu_element_at sc_concse_element_at;
  distinct sc_concsu_distinct sc_concse_distinct;
  scan sc_concsu_scan sc_concse_scan;
  reduce sc_concsu_reduce sc_concse_reduce;
  count sc_concsu_count sc_concse_count;
  sum sc_concsu_sum sc_concse_sum;
  sum_and_count sc_concsu_sum_and_count sc_concse_sum_and_count;
  min sc_concsu_min sc_concse_min;
  max sc_concsu_max sc_concse_max;
  all sc_concsu_all sc_concse_all;
  contains sc_concsu_contains sc_concse_contains;
  default_if_empty sc_concsu_default_if_empty sc_concse_default_if_empty;
  ignore_elements sc_concsu_ignore_elements sc_concse_ignore_elements;
  start_with sc_concsu_start_with sc_concse_start_with;
  buffer sc_concsu_buffer sc_concse_buffer;
  materialize sc_concsu_materialize sc_concse_materialize;
  demat sc_concsu_demat sc_concse_demat;
  map_to_any sc_concsu_map_to_any sc_concse_map_to_any;
  retry sc_concsu_retry sc_concse_retry;
  retry_when sc_concsu_retry_when sc_concse_retry_when;
  timestamp sc_concsu_timestamp sc_concse_timestamp;
  window_flat sc_concsu_window_flat sc_concse_window_flat;
  group_flat sc_concsu_group_flat sc_concse_group_flat;
}
pub fn sc_concsp_take() { concs(&op::take::<Tok>(), SM::Two) }

/// Two threads unsubscribe the same subscription: for each of them, once its own call has returned nothing may arrive any more.
fn unsub2<X: Out>(op: &Op<Tok, X>, three: bool) {
  rx::set_props("C05,C07");
  let env = Env::new(pick_op(op, true));
  let (cs, _cv) = consts::<Tok>(&env, op.nc);
  let ups: Sh<Vec<Observer<'static, Tok>>> = Sh::new(Vec::new());
  let u2 = ups.clone();
  let pr = env.probe.clone();
  let o = (op.b)(&env, &cs, Observable::create(move |s: Observer<'static, Tok>| {
    let _p = &pr;
    u2.g().push(s);
  }));
  drop(cs);
  let rec = CRec::new("C19,C01");
  let probe = env.probe.clone();
  let sub = rec.observe(&o, &probe);
  if ups.g().len() == 0 {
    rx::end();
  }
  rx::conc(if three { 3 } else { 2 });
  let after = |rec: &CRec, sub: &Subscription<'static>, up: &Observer<'static, Tok>| {
    rec.s().unsub = true;
    rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after unsubscribe returned");
    emit(up, rec, 0, 1, 1);
  };
  {
    let (up, rec, sub) = (ups.g()[0].clone(), rec.clone(), sub.clone());
    thread::spawn(move || {
      rx::ev("thread 1: unsubscribe");
      sub.unsubscribe();
      after(&rec, &sub, &up);
    });
  }
  rx::ev("main: unsubscribe");
  sub.unsubscribe();
  after(&rec, &sub, &ups.g()[0]);
  rx::settle();
  rx::check(rec.items().len() == 0, "C05:an item emitted after unsubscribe returned was delivered");
  *ups.g() = Vec::new();
  drop(sub);
  drop(o);
  drop(env);
  drop(rec);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}
pub fn sc_unsub2_id() { unsub2(&op::id::<Tok>(), true) }
pub fn sc_unsub2_map() { unsub2(&op::map::<Tok>(), true) }
pub fn sc_unsub2_take() { unsub2(&op::take::<Tok>(), false) }
pub fn sc_unsub2_scan() { unsub2(&op::scan::<Tok>(), false) }
