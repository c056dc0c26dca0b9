//! Thread-creating sources and operators under every way a subscription can end: no thread outlives it by more than a period.
use crate::core::*;
use crate::rx;
use another_rxrust::prelude::*;
use another_rxrust::prelude::schedulers::*;
use std::sync::Arc;
use std::thread;
use std::time::Duration;

fn ms(n: u64) -> Duration {
  Duration::from_millis(n)
}
/// an item that owns a resource
#[derive(Clone)]
pub struct U(#[allow(dead_code)] Arc<()>);
const P: u64 = 10;

/// what the client controls of a pipeline
#[derive(Clone)]
struct Hot {
  up: Sh<Vec<Observer<'static, U>>>,
  probe: Arc<()>,
}
impl Hot {
  fn new(probe: &Arc<()>) -> Hot {
    Hot { up: Sh::new(Vec::new()), probe: probe.clone() }
  }
  fn o(&self) -> Obs<U> {
    let (u, p) = (self.up.clone(), self.probe.clone());
    Observable::create(move |s: Observer<'static, U>| {
      let _p = &p;
      u.g().push(s)
    })
  }
  /// `o` with an operator closure and items of its own
  fn unit<T: Clone + Send + Sync + 'static>(&self, o: Observable<'static, T>) -> Obs<U> {
    let p = self.probe.clone();
    o.map(move |_| U(p.clone()))
  }
  fn next(&self) {
    let n = self.up.g().len();
    if n > 0 {
      rx::ev("source: next");
      let u = self.up.g()[n - 1].clone();
      u.next(U(self.probe.clone()));
    }
  }
  fn error(&self) {
    let n = self.up.g().len();
    if n > 0 {
      rx::ev("source: error");
      let u = self.up.g()[n - 1].clone();
      u.error(mkerr(fresh_err()));
    }
  }
  fn complete(&self) {
    let n = self.up.g().len();
    if n > 0 {
      rx::ev("source: complete");
      let u = self.up.g()[n - 1].clone();
      u.complete();
    }
  }
}
/// pipelines that start threads; `h` is their source where they have one
#[derive(Clone, Copy, PartialEq)]
pub enum K {
  Interval,
  Timer,
  ObserveOn,
  SubscribeOn,
  Debounce,
  Timeout,
  IntervalObs,
  TimerSub,
  SubInterval,
  IntervalDebounce,
  FlatTimer,
  MergeIntervals,
  ObsObs,
  TimeoutObs,
  SampleInterval,
  DelayInterval,
  SwitchInterval,
  ConcatTimers,
  ZipIntervals,
  TakeUntilTimer,
  ObsTimeout,
  RefInterval,
  ReplayInterval,
  FlatObs,
  CombineIntervals,
  AmbIntervals,
  SkipUntilTimer,
  ResumeInterval,
  WindowInterval,
  GroupInterval,
  SubObs,
  ConcatIntervals,
  SeqEqIntervals,
}
/// has a source the client drives
fn hot(k: K) -> bool {
  match k {
    K::ObserveOn | K::SubscribeOn | K::Debounce | K::Timeout | K::ObsObs | K::TimeoutObs | K::SampleInterval | K::FlatTimer | K::SwitchInterval
    | K::TakeUntilTimer | K::ObsTimeout | K::FlatObs | K::SkipUntilTimer | K::ResumeInterval | K::SubObs => true,
    _ => false,
  }
}
/// ends by itself, given time
fn finite(k: K) -> bool {
  match k {
    K::Timer | K::TimerSub | K::ConcatTimers => true,
    _ => false,
  }
}
fn pipe(k: K, h: &Hot) -> Obs<U> {
  let n = new_thread_scheduler();
  match k {
    K::Interval => h.unit(observables::interval(ms(P), n)),
    K::Timer => h.unit(observables::timer(ms(P), n)),
    K::ObserveOn => h.o().observe_on(n),
    K::SubscribeOn => h.o().subscribe_on(n),
    K::Debounce => h.o().debounce(ms(P), n),
    K::Timeout => h.o().timeout(ms(P), n),
    K::IntervalObs => h.unit(observables::interval(ms(P), n).observe_on(n)),
    K::TimerSub => h.unit(observables::timer(ms(P), n)).subscribe_on(n),
    K::SubInterval => h.unit(observables::interval(ms(P), default_scheduler()).subscribe_on(n)),
    K::IntervalDebounce => h.unit(observables::interval(ms(P), n).debounce(ms(7), n)),
    K::FlatTimer => {
      let p = h.probe.clone();
      h.o().flat_map(move |_| {
        let p = p.clone();
        observables::timer(ms(P), n).map(move |_| U(p.clone()))
      })
    },
    K::MergeIntervals => {
      let mut v = Vec::new();
      v.push(h.unit(observables::interval(ms(9), n)));
      h.unit(observables::interval(ms(P), n)).merge(&v)
    }
    K::ObsObs => h.o().observe_on(n).observe_on(n),
    K::TimeoutObs => h.o().timeout(ms(P), n).observe_on(n),
    K::ObsTimeout => h.o().observe_on(n).timeout(ms(P), n),
    K::SampleInterval => h.o().sample(observables::interval(ms(P), n)),
    K::DelayInterval => h.unit(observables::interval(ms(5), n).delay(ms(4))),
    K::SwitchInterval => h.o().switch_on_next(h.unit(observables::interval(ms(P), n))),
    K::ConcatTimers => {
      let mut v = Vec::new();
      v.push(h.unit(observables::timer(ms(P), n)));
      h.unit(observables::timer(ms(P), n)).concat(&v)
    }
    K::ZipIntervals => {
      let mut v = Vec::new();
      v.push(h.unit(observables::interval(ms(9), n)));
      h.unit(h.unit(observables::interval(ms(P), n)).zip(&v))
    }
    K::RefInterval => h.unit(observables::interval(ms(P), n).ref_count().observable()),
    K::ReplayInterval => h.unit(observables::interval(ms(P), n).replay().observable()),
    K::FlatObs => {
      let h2 = Hot { up: Sh::new(Vec::new()), probe: h.probe.clone() };
      h.o().flat_map(move |_| h2.o().observe_on(n))
    }
    K::CombineIntervals => {
      let mut v = Vec::new();
      v.push(h.unit(observables::interval(ms(9), n)));
      let p = h.probe.clone();
      h.unit(observables::interval(ms(P), n)).combine_latest(&v, move |_| U(p.clone()))
    }
    K::AmbIntervals => {
      let mut v = Vec::new();
      v.push(h.unit(observables::interval(ms(9), n)));
      h.unit(observables::interval(ms(P), n)).amb(&v)
    }
    K::SkipUntilTimer => h.o().skip_until(observables::timer(ms(P), n)),
    K::ResumeInterval => {
      let h2 = h.clone();
      h.o().on_error_resume_next(move |_| h2.unit(observables::interval(ms(P), n)))
    }
    K::WindowInterval => h.unit(observables::interval(ms(P), n).window_with_count(2).flat_map(move |w| w.observe_on(n))),
    K::GroupInterval => h.unit(observables::interval(ms(P), n).group_by(|x| x % 2).flat_map(|g| g)),
    K::SubObs => h.o().subscribe_on(n).observe_on(n),
    K::ConcatIntervals => {
      let mut v = Vec::new();
      v.push(h.unit(observables::interval(ms(P), n)));
      h.unit(observables::interval(ms(9), n).take(1)).concat(&v)
    }
    K::SeqEqIntervals => {
      let mut v = Vec::new();
      v.push(observables::interval(ms(9), n));
      h.unit(observables::interval(ms(P), n).sequence_equal(&v))
    }
    K::TakeUntilTimer => h.o().take_until(observables::timer(ms(P), n)),
  }
}
/// how it ends
pub fn thr(k: K) {
  rx::set_props("C15,C07");
  let probe = Arc::new(());
  let h = Hot::new(&probe);
  let trig = Hot::new(&probe);
  let o = pipe(k, &h);
  let n_causes = 13;
  let c = rx::choose(n_causes);
  let n = new_thread_scheduler();
  let mut o2 = o.clone();
  match c {
    0 => rx::ev("cause: unsubscribe"),
    1 => {
      rx::ev("cause: take(1)");
      o2 = o.take(1);
    }
    2 => {
      rx::ev("cause: first()");
      o2 = o.first();
    }
    3 => {
      rx::ev("cause: take_until(trigger)");
      o2 = o.take_until(trig.o());
    }
    4 => {
      rx::ev("cause: amb, the other input wins");
      let mut v = Vec::new();
      v.push(trig.o());
      o2 = o.amb(&v);
    }
    5 => {
      rx::ev("cause: merge, the other input fails");
      let mut v = Vec::new();
      v.push(trig.o());
      o2 = o.merge(&v);
    }
    6 => {
      rx::ev("cause: retry(2), the source fails twice");
      if !hot(k) {
        rx::end();
      }
      o2 = o.retry(2);
    }
    7 => {
      rx::ev("cause: the source completes");
      if !hot(k) && !finite(k) {
        rx::end();
      }
    }
    8 => {
      rx::ev("cause: the source fails");
      if !hot(k) {
        rx::end();
      }
    }
    9 => {
      rx::ev("cause: subscribed after the subscriber has all it needs");
      let mut v = Vec::new();
      v.push(o.clone());
      o2 = observables::just(U(probe.clone())).merge(&v).take(1);
    }
    10 => {
      rx::ev("cause: unsubscribe from a callback");
    }
    11 => {
      rx::ev("cause: on_error_resume_next after a failure, then take(1)");
      if !hot(k) {
        rx::end();
      }
      let p = probe.clone();
      o2 = o.on_error_resume_next(move |_| observables::just(U(p.clone())));
    }
    _ => {
      rx::ev("cause: take_while");
      let p = probe.clone();
      o2 = o.take_while(move |_| {
        let _p = &p;
        false
      });
    }
  }
  let after = rx::choose(2);
  let over = Sh::new(false);
  let count = Sh::new(0i64);
  let subh: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let (a, b) = (over.clone(), over.clone());
  let (sh, cn) = (subh.clone(), count.clone());
  let (o_n, o_e, o_c) = (over.clone(), over.clone(), over.clone());
  rx::conc_raw(2);
  let (p1, p2, p3) = (probe.clone(), probe.clone(), probe.clone());
  let sub = o2.subscribe(
    move |_x| {
      let _p = &p1;
      *cn.g() += 1;
      rx::ev("  got next");
      rx::check(!*o_n.g(), "C01,C19:item delivered after the terminal event");
      if c == 10 {
        if let Some(s) = sh.g().clone() {
          rx::ev("  unsubscribe");
          s.unsubscribe();
        }
      }
    },
    move |_| {
      let _p = &p2;
      rx::ev("  got error");
      rx::check(!*o_e.g(), "C01,C19:error delivered after the terminal event");
      *a.g() = true;
    },
    move || {
      let _p = &p3;
      rx::ev("  got complete");
      rx::check(!*o_c.g(), "C01,C19:complete delivered after the terminal event");
      *b.g() = true;
    },
  );
  *subh.g() = Some(sub.clone());
  // let it get going
  if after == 1 {
    thread::sleep(ms(3));
    h.next();
    thread::sleep(ms(22));
    h.next();
    thread::sleep(ms(2));
    rx::settle();
    rx::check(sub.is_subscribed() || *over.g() || c == 10, "C05:is_subscribed() is false on a live subscription");
  }
  match c {
    0 => {
      sub.unsubscribe();
    }
    3 | 4 => trig.next(),
    5 => trig.error(),
    6 => {
      h.error();
      thread::sleep(ms(1));
      h.error();
    }
    7 => h.complete(),
    8 | 11 => h.error(),
    9 => {}
    _ => {
      // the items come from the clock or from the source
      thread::sleep(ms(1));
      h.next();
    }
  }
  // some causes wait for the clock
  let mut w = 0;
  while sub.is_subscribed() && w < 9 {
    thread::sleep(ms(5));
    w += 1;
  }
  if sub.is_subscribed() {
    // the clock did not give the item the operator waits for
    rx::ev("unsubscribe (nothing ended it)");
    sub.unsubscribe();
  }
  rx::ev("ended; one period passes");
  thread::sleep(ms(11));
  rx::settle();
  rx::check(rx::live_threads() == 0, "C15:a scheduler thread outlives its subscription by more than a timer period");
  rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after the end");
  // sources that go on do no harm
  let got = *count.g();
  let was = *over.g();
  h.next();
  trig.next();
  rx::settle();
  let mut i = 0;
  while i < h.up.g().len() {
    rx::check(!h.up.g()[i].is_subscribed(), "C06:the source still sees is_subscribed() after the end");
    i += 1;
  }
  i = 0;
  while i < trig.up.g().len() {
    rx::check(!trig.up.g()[i].is_subscribed(), "C06:the source still sees is_subscribed() after the end");
    i += 1;
  }
  h.complete();
  trig.complete();
  rx::settle();
  thread::sleep(ms(11));
  rx::settle();
  rx::check(*count.g() == got && *over.g() == was, "C05,C06:an event emitted after the end is delivered");
  rx::check(rx::live_threads() == 0, "C15:a thread is started by an event after the end");
  // the handles go, the client's sources and their observers too
  drop(subh.g().take());
  drop(sub);
  drop(o);
  drop(o2);
  drop(h);
  drop(trig);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks, closures or items still owned after the end");
  rx::end();
}
macro_rules! sc { ($($f:ident $k:ident;)*) => { $( pub fn $f() { thr(K::$k) } )* }; }
sc! {
  sc_thr_interval Interval;
  sc_thr_timer Timer;
  sc_thr_observe_on ObserveOn;
  sc_thr_subscribe_on SubscribeOn;
  sc_thr_debounce Debounce;
  sc_thr_timeout Timeout;
  sc_thr_interval_obs IntervalObs;
  sc_thr_timer_sub TimerSub;
  sc_thr_sub_interval SubInterval;
  sc_thr_interval_debounce IntervalDebounce;
  sc_thr_flat_timer FlatTimer;
  sc_thr_merge_intervals MergeIntervals;
  sc_thr_obs_obs ObsObs;
  sc_thr_timeout_obs TimeoutObs;
  sc_thr_obs_timeout ObsTimeout;
  sc_thr_sample_interval SampleInterval;
  sc_thr_delay_interval DelayInterval;
  sc_thr_switch_interval SwitchInterval;
  sc_thr_concat_timers ConcatTimers;
  sc_thr_zip_intervals ZipIntervals;
  sc_thr_take_until_timer TakeUntilTimer;
  sc_thr_ref_interval RefInterval;
  sc_thr_replay_interval ReplayInterval;
  sc_thr_flat_obs FlatObs;
  sc_thr_combine_intervals CombineIntervals;
  sc_thr_amb_intervals AmbIntervals;
  sc_thr_skip_until_timer SkipUntilTimer;
  sc_thr_resume_interval ResumeInterval;
  sc_thr_window_interval WindowInterval;
  sc_thr_group_interval GroupInterval;
  sc_thr_sub_obs SubObs;
  sc_thr_concat_intervals ConcatIntervals;
  sc_thr_seq_eq_intervals SeqEqIntervals;
}
