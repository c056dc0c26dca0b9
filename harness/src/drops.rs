//! Destructors that call back: a subscriber's callback owns a guard (`utils::Using`, or a value whose destructor emits, ends or
//! subscribes); the library drops the callback when the subscription is over. No lock may be held then that the call needs.
use crate::core::*;
use crate::rx;
use another_rxrust::prelude::schedulers::*;
use another_rxrust::prelude::*;
use std::sync::Arc;

type S = subjects::Subject<'static, i64>;
struct OnDrop(Cb);
impl Drop for OnDrop {
  fn drop(&mut self) {
    (self.0)()
  }
}
#[derive(Clone, Copy, PartialEq)]
pub enum D {
  Plain,
  Map,
  Take,
  TakeLast,
  SkipLast,
  Scan,
  Distinct,
  Buffer,
  StartWith,
  Tap,
  Merge,
  Zip,
  Combine,
  Amb,
  Concat,
  TakeUntil,
  SkipUntil,
  Sample,
  Switch,
  SeqEq,
  FlatMap,
  Retry,
  Resume,
  Window,
  Group,
  Material,
  ObserveOn,
  SubscribeOn,
  Behavior,
  Replay,
  Async,
  RefCount,
  ReplayOp,
  Publish,
}
/// what the client drives
#[derive(Clone)]
struct Ctl {
  next: Arc<dyn Fn(i64) + Send + Sync>,
  error: Cb,
  complete: Cb,
}
fn ctl(s: &S) -> Ctl {
  let (a, b, c) = (s.clone(), s.clone(), s.clone());
  Ctl { next: Arc::new(move |x| a.next(x)), error: Arc::new(move || b.error(RxError::from_error(1i32))), complete: Arc::new(move || c.complete()) }
}
fn pipe(d: D, s: &S, t: &S) -> (Obs<i64>, Ctl) {
  let o = s.observable();
  let v = vec![t.observable()];
  let u = t.observable();
  let r = match d {
    D::Plain => o,
    D::Map => o.map(|x| x + 1),
    D::Take => o.take(2),
    D::TakeLast => o.take_last(1),
    D::SkipLast => o.skip_last(1),
    D::Scan => o.scan(|(a, b)| a + b),
    D::Distinct => o.distinct_until_changed(),
    D::Buffer => o.buffer_with_count(2).map(|x| x.len() as i64),
    D::StartWith => o.start_with(vec![7].into_iter()),
    D::Tap => o.tap(|_| {}, |_| {}, || {}),
    D::Merge => o.merge(&v),
    D::Zip => o.zip(&v).map(|x| x[0]),
    D::Combine => o.combine_latest(&v, |x| x[0]),
    D::Amb => o.amb(&v),
    D::Concat => o.concat(&v),
    D::TakeUntil => o.take_until(u),
    D::SkipUntil => o.skip_until(u),
    D::Sample => o.sample(u),
    D::Switch => o.switch_on_next(u),
    D::SeqEq => o.sequence_equal(&v).map(|_| 0),
    D::FlatMap => o.flat_map(move |_| u.clone()),
    D::Retry => o.retry(2),
    D::Resume => o.on_error_resume_next(move |_| u.clone()),
    D::Window => o.window_with_count(2).flat_map(|w| w),
    D::Group => o.group_by(|x| x % 2).flat_map(|g| g),
    D::Material => o.materialize().dematerialize(),
    D::ObserveOn => o.observe_on(default_scheduler()),
    D::SubscribeOn => o.subscribe_on(default_scheduler()),
    D::RefCount => o.ref_count().observable(),
    D::ReplayOp => o.replay().observable(),
    D::Publish => {
      let p = o.publish();
      p.connect();
      p.observable()
    }
    D::Behavior => {
      let b = subjects::BehaviorSubject::<i64>::new(3);
      let (x, y, z) = (b.clone(), b.clone(), b.clone());
      return (b.observable(), Ctl { next: Arc::new(move |v| x.next(v)), error: Arc::new(move || y.error(RxError::from_error(1i32))), complete: Arc::new(move || z.complete()) });
    }
    D::Replay => {
      let b = subjects::ReplaySubject::<i64>::new();
      let (x, y, z) = (b.clone(), b.clone(), b.clone());
      return (b.observable(), Ctl { next: Arc::new(move |v| x.next(v)), error: Arc::new(move || y.error(RxError::from_error(1i32))), complete: Arc::new(move || z.complete()) });
    }
    D::Async => {
      let b = subjects::AsyncSubject::<i64>::new();
      let (x, y, z) = (b.clone(), b.clone(), b.clone());
      return (b.observable(), Ctl { next: Arc::new(move |v| x.next(v)), error: Arc::new(move || y.error(RxError::from_error(1i32))), complete: Arc::new(move || z.complete()) });
    }
  };
  (r, ctl(s))
}
fn two(d: D) -> bool {
  match d {
    D::Merge | D::Zip | D::Combine | D::Amb | D::Concat | D::TakeUntil | D::SkipUntil | D::Sample | D::Switch | D::SeqEq | D::FlatMap | D::Resume => true,
    _ => false,
  }
}
pub fn dropr(d: D) {
  rx::set_props("C07");
  let (s, t) = (S::new(), S::new());
  let (o, c) = pipe(d, &s, &t);
  let c2 = ctl(&t);
  let own: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let other: Sh<Option<utils::Using<'static>>> = Sh::new(None);
  let dropped = Sh::new(0i64);
  let a = rx::choose(7);
  let at = rx::choose(3);
  let both = two(d) && a >= 2 && a <= 4 && rx::choose(2) == 1;
  // another subscription of the same pipeline, ended by the guard
  if a == 0 {
    *other.g() = Some(utils::Using::new(o.subscribe(|_| {}, |_| {}, || {})));
  }
  let act: Cb = {
    let (own, other, o, c, c2, n) = (own.clone(), other.clone(), o.clone(), c.clone(), c2.clone(), dropped.clone());
    Arc::new(move || {
      *n.g() += 1;
      let c = if both { &c2 } else { &c };
      match a {
        0 => {
          rx::ev("    destructor: Using guard");
          let g = other.g().take();
          drop(g);
        }
        1 => {
          rx::ev("    destructor: unsubscribe");
          let s = own.g().clone();
          if let Some(s) = s {
            s.unsubscribe();
          }
        }
        2 => {
          rx::ev("    destructor: source next");
          (c.next)(9);
        }
        3 => {
          rx::ev("    destructor: source complete");
          (c.complete)();
        }
        4 => {
          rx::ev("    destructor: source error");
          (c.error)();
        }
        5 => {
          rx::ev("    destructor: subscribe");
          o.subscribe(|_| {}, |_| {}, || {}).unsubscribe();
        }
        _ => {
          rx::ev("    destructor: subscribe, stay");
          o.subscribe(|_| {}, |_| {}, || {});
        }
      }
    })
  };
  let mut g1 = if at == 0 { Some(OnDrop(act.clone())) } else { None };
  let mut g2 = if at == 1 { Some(OnDrop(act.clone())) } else { None };
  let mut g3 = if at == 2 { Some(OnDrop(act.clone())) } else { None };
  drop(act);
  let (h1, h2, h3) = (g1.take(), g2.take(), g3.take());
  let sub = o.subscribe(
    move |_| {
      let _g = &h1;
    },
    move |_| {
      let _g = &h2;
    },
    move || {
      let _g = &h3;
    },
  );
  *own.g() = Some(sub.clone());
  let mut left = if rx::tier() > 0 { 6 } else { 4 };
  loop {
    rx::boundary();
    if left == 0 {
      rx::end();
    }
    left -= 1;
    let e = rx::choose(if two(d) { 7 } else { 4 });
    match e {
      0 => {
        rx::ev("unsubscribe");
        sub.unsubscribe();
        rx::check(*dropped.g() == 1, "C17:callbacks still owned after the end");
        rx::end();
      }
      1 => {
        rx::ev("next");
        (c.next)(1);
      }
      2 => {
        rx::ev("complete");
        (c.complete)();
      }
      3 => {
        rx::ev("error");
        (c.error)();
      }
      4 => {
        rx::ev("other next");
        (c2.next)(2);
      }
      5 => {
        rx::ev("other complete");
        (c2.complete)();
      }
      _ => {
        rx::ev("other error");
        (c2.error)();
      }
    }
    if !sub.is_subscribed() {
      rx::check(*dropped.g() == 1, "C17:callbacks still owned after the end");
      rx::end();
    }
  }
}
macro_rules! d { ($($f:ident $k:ident;)*) => { $( pub fn $f() { dropr(D::$k) } )* }; }
d! {
  sc_drop_plain Plain; sc_drop_map Map; sc_drop_take Take; sc_drop_take_last TakeLast; sc_drop_skip_last SkipLast; sc_drop_scan Scan;
  sc_drop_distinct Distinct; sc_drop_buffer Buffer; sc_drop_start_with StartWith; sc_drop_tap Tap; sc_drop_merge Merge; sc_drop_zip Zip;
  sc_drop_combine Combine; sc_drop_amb Amb; sc_drop_concat Concat; sc_drop_take_until TakeUntil; sc_drop_skip_until SkipUntil;
  sc_drop_sample Sample; sc_drop_switch Switch; sc_drop_seq_eq SeqEq; sc_drop_flat_map FlatMap; sc_drop_retry Retry; sc_drop_resume Resume;
  sc_drop_window Window; sc_drop_group Group; sc_drop_material Material; sc_drop_observe_on ObserveOn; sc_drop_subscribe_on SubscribeOn;
  sc_drop_behavior Behavior; sc_drop_replay Replay; sc_drop_async Async; sc_drop_ref_count RefCount; sc_drop_replay_op ReplayOp;
  sc_drop_publish Publish;
}
