//! The future returned by to_vec under a minimal executor.
use crate::core::*;
use crate::rx;
use crate::shim::WakeCell;
use another_rxrust::prelude::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::thread;

fn cell() -> Arc<WakeCell> {
  Arc::new(WakeCell { woken: Mutex::new(false), cond: Condvar::new(), hook: None })
}
/// park until woken
fn park(w: &Arc<WakeCell>) {
  let mut g = w.woken.lock().unwrap();
  while !*g {
    g = w.cond.wait(g).unwrap();
  }
  *g = false;
}
struct F {
  sent: Vec<Val>,
  /// the source has begun to signal its terminal
  ending: bool,
  err: Option<ETok>,
  up: Option<Observer<'static, Tok>>,
}
#[derive(Clone, Copy)]
pub struct FM {
  /// the source emits inside subscribe
  sync: bool,
  /// further polls without having been woken
  spurious: bool,
  /// a new waker on every poll
  fresh_waker: bool,
  /// the source emits once more after its terminal
  bad: bool,
  items: u32,
}
fn emit(f: &Sh<F>, s: &Observer<'static, Tok>, items: u32, end: u32, bad: bool) {
  let mut i = 0;
  while i < items {
    let x = rx::fresh();
    rx::ev_val("source: next", &Val::T(x));
    f.g().sent.push(Val::T(x));
    s.next(x);
    i += 1;
  }
  if end == 1 {
    rx::ev("source: complete");
    f.g().ending = true;
    s.complete();
  } else if end == 2 {
    let e = fresh_err();
    rx::ev("source: error");
    f.g().err = Some(e);
    f.g().ending = true;
    s.error(mkerr(e));
  }
  if bad {
    rx::ev("source: next after its terminal");
    s.next(rx::fresh());
  }
}
fn vec(m: FM) {
  rx::set_props("C18");
  let items = rx::choose(m.items + 1);
  let end = 1 + rx::choose(2);
  let f = Sh::new(F { sent: Vec::new(), ending: false, err: None, up: None });
  let f2 = f.clone();
  let o: Obs<Tok> = Observable::create(move |s: Observer<'static, Tok>| {
    f2.g().up = Some(s.clone());
    if m.sync {
      emit(&f2, &s, items, end, m.bad);
    } else {
      let f3 = f2.clone();
      thread::spawn(move || emit(&f3, &s, items, end, m.bad));
    }
  });
  rx::conc_raw(4);
  let mut fut = o.to_vec();
  let mut w = cell();
  let mut polls = 0;
  loop {
    if m.fresh_waker {
      w = cell();
    }
    let waker = rx::mk_waker(w.clone());
    let mut cx = Context::from_waker(&waker);
    rx::ev("poll");
    let before = f.g().ending;
    let r = Pin::new(&mut fut).poll(&mut cx);
    polls += 1;
    match r {
      Poll::Ready(r) => {
        rx::ev("ready");
        let s = f.g();
        rx::check(s.ending, "C18:ready before the source terminated");
        match r {
          Ok(v) => {
            rx::check(end == 1, "C18:ready with items although the source failed");
            let v = v.read().unwrap();
            rx::check(v.len() == s.sent.len(), "C18:items are missing or too many");
            let mut i = 0;
            while i < v.len() && i < s.sent.len() {
              rx::check(vsame(&Val::T(v[i]), &s.sent[i]), "C18:another item, or items out of order");
              i += 1;
            }
          }
          Err(e) => {
            rx::check(end == 2, "C18:ready with an error although the source completed");
            match (err_of(&e), s.err) {
              (Some(a), Some(b)) => rx::check(rx::tok_same(&a.0, &b.0), "C18,C04:error payload changed"),
              _ => rx::check(false, "C18,C04:error payload lost"),
            }
          }
        }
        break;
      }
      Poll::Pending => {
        rx::check(!m.sync, "C18:pending although the source has terminated");
        if m.spurious && polls < 3 && rx::choose(2) == 1 {
          rx::ev("polled again without a wake-up");
          continue;
        }
        if polls > 6 {
          rx::end();
        }
        park(&w);
      }
    }
  }
  rx::settle();
  if let Some(u) = &f.g().up {
    rx::check(!u.is_subscribed(), "C06:the source still sees is_subscribed() after the end");
  }
  rx::end();
}
macro_rules! sc { ($($f:ident $s:expr, $p:expr, $w:expr, $b:expr, $n:expr;)*) => {
  $( pub fn $f() { vec(FM { sync: $s, spurious: $p, fresh_waker: $w, bad: $b, items: $n }) } )* };
}
sc! {
  sc_fut_sync true, false, false, false, 3;
  sc_fut_thread false, false, false, false, 2;
  sc_fut_spurious false, true, false, false, 1;
  sc_fut_fresh false, true, true, false, 1;
  sc_fut_bad true, false, false, true, 1;
}
/// not ready while the source lives; ready at the first poll after its terminal
pub fn sc_fut_hot() {
  rx::set_props("C18");
  let up: Sh<Option<Observer<'static, Tok>>> = Sh::new(None);
  let u2 = up.clone();
  let o: Obs<Tok> = Observable::create(move |s: Observer<'static, Tok>| *u2.g() = Some(s));
  let mut fut = o.to_vec();
  let mut sent: Vec<Val> = Vec::new();
  // woken since the last pending poll
  let w = cell();
  let mut pending = false;
  let mut end = 0;
  let mut steps = 0;
  loop {
    rx::boundary();
    let a = rx::choose(4);
    if a == 0 {
      if end > 0 || sent.len() > 3 {
        rx::end();
      }
      let x = rx::fresh();
      rx::ev_val("source: next", &Val::T(x));
      sent.push(Val::T(x));
      let u = up.g().clone().unwrap();
      u.next(x);
    } else if a < 3 {
      if end > 0 {
        rx::end();
      }
      let u = up.g().clone().unwrap();
      if a == 1 {
        rx::ev("source: complete");
        end = 1;
        u.complete();
      } else {
        rx::ev("source: error");
        end = 2;
        u.error(mkerr(ETok(rx::tok_const(77))));
      }
      let g = w.woken.lock().unwrap();
      rx::check(*g || !pending, "C18:the pending poll is not woken when the source terminates");
    } else {
      let waker = rx::mk_waker(w.clone());
      let mut cx = Context::from_waker(&waker);
      rx::ev("poll");
      match Pin::new(&mut fut).poll(&mut cx) {
        Poll::Pending => {
          rx::check(end == 0, "C18:pending although the source has terminated");
          pending = true;
        }
        Poll::Ready(r) => {
          rx::check(end > 0, "C18:ready before the source terminated");
          match r {
            Ok(v) => {
              rx::check(end == 1, "C18:ready with items although the source failed");
              let v = v.read().unwrap();
              rx::check(v.len() == sent.len(), "C18:items are missing or too many");
              let mut i = 0;
              while i < v.len() && i < sent.len() {
                rx::check(vsame(&Val::T(v[i]), &sent[i]), "C18:another item, or items out of order");
                i += 1;
              }
            }
            Err(e) => {
              rx::check(end == 2, "C18:ready with an error although the source completed");
              match err_of(&e) {
                Some(a) => rx::check(rx::tok_same(&a.0, &rx::tok_const(77)), "C18,C04:error payload changed"),
                None => rx::check(false, "C18,C04:error payload lost"),
              }
            }
          }
          rx::end();
        }
      }
    }
  }
}
/// to_vec twice on one Observable
pub fn sc_fut_twice() {
  rx::set_props("C18,C14");
  let n = rx::choose(3);
  let o: Obs<Tok> = Observable::create(move |s: Observer<'static, Tok>| {
    let mut i = 0;
    while i < n {
      s.next(rx::tok_const(i));
      i += 1;
    }
    s.complete();
  });
  let mut k = 0;
  while k < 2 {
    let mut fut = o.to_vec();
    let waker = rx::mk_waker(cell());
    let mut cx = Context::from_waker(&waker);
    match Pin::new(&mut fut).poll(&mut cx) {
      Poll::Ready(Ok(v)) => rx::check(v.read().unwrap().len() == n as usize, "C18,C14:items are missing or too many"),
      _ => rx::check(false, "C18:pending although the source has terminated"),
    }
    k += 1;
  }
  rx::end();
}

/// an executor that polls inside wake
pub fn sc_fut_inline() {
  rx::set_props("C18,C07");
  let up: Sh<Option<Observer<'static, Tok>>> = Sh::new(None);
  let u2 = up.clone();
  let o: &'static Obs<Tok> = Box::leak(Box::new(Observable::create(move |s: Observer<'static, Tok>| *u2.g() = Some(s))));
  let fut = Sh::new(o.to_vec());
  let ready = Sh::new(0u32);
  let slot: Sh<Option<Arc<WakeCell>>> = Sh::new(None);
  let (f2, r2, s2) = (fut.clone(), ready.clone(), slot.clone());
  let poll: Arc<dyn Fn() + Send + Sync> = Arc::new(move || {
    let c = s2.g().clone().unwrap();
    let waker = rx::mk_waker(c);
    let mut cx = Context::from_waker(&waker);
    rx::ev("poll");
    match Pin::new(f2.g()).poll(&mut cx) {
      Poll::Ready(Ok(_)) => *r2.g() = 1,
      Poll::Ready(Err(_)) => *r2.g() = 2,
      Poll::Pending => {}
    }
  });
  *slot.g() = Some(Arc::new(WakeCell { woken: Mutex::new(false), cond: Condvar::new(), hook: Some(poll.clone()) }));
  poll();
  rx::check(*ready.g() == 0, "C18:ready before the source terminated");
  let u = up.g().clone().unwrap();
  u.next(rx::fresh());
  let end = 1 + rx::choose(2);
  if end == 1 {
    rx::ev("source: complete");
    u.complete();
  } else {
    rx::ev("source: error");
    u.error(mkerr(fresh_err()));
  }
  rx::check(*ready.g() == end, "C18:not ready at the wake-up although the source has terminated");
  rx::end();
}
