//! Time-based sources and operators in virtual time.
use crate::core::*;
use crate::rx;
use another_rxrust::prelude::*;
use another_rxrust::prelude::schedulers::*;
use std::sync::Arc;
use std::thread;
use std::time::Duration;

fn ms(n: u64) -> Duration {
  Duration::from_nanos(n * rx::unit())
}
fn units(d: Duration) -> u64 {
  let (n, u) = (d.as_nanos() as u64, rx::unit());
  if n % u == 0 { n / u } else { 1_000_000 + n / u }
}
#[derive(Clone)]
struct L {
  log: Sh<Vec<(u64, Ev)>>,
  timed_out: Sh<bool>,
  late: Sh<bool>,
}
impl L {
  fn new() -> L {
    L { log: Sh::new(Vec::new()), timed_out: Sh::new(false), late: Sh::new(false) }
  }
  fn add(&self, ev: Ev) {
    match &ev {
      Ev::N(v) => rx::ev_val("  got next", v),
      Ev::E(_) => rx::ev("  got error"),
      Ev::C => rx::ev("  got complete"),
    }
    let n = self.log.g().len();
    if n > 0 {
      let over = match &self.log.g()[n - 1].1 {
        Ev::N(_) => false,
        _ => true,
      };
      rx::check(!over, "C01,C19,C16:event after the terminal");
    }
    self.log.g().push((rx::now_ms(), ev));
  }
  fn sub<X: ToVal + Clone + Send + Sync + 'static>(&self, o: &Obs<X>, stop_at: usize) -> Subscription<'static> {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let h: Sh<Option<Subscription<'static>>> = Sh::new(None);
    let h2 = h.clone();
    let s = o.subscribe(
      move |x: X| {
        a.add(Ev::N(x.v()));
        if a.log.g().len() == stop_at {
          if let Some(s) = h2.g().clone() {
            rx::ev("  unsubscribe");
            s.unsubscribe();
          }
        }
      },
      move |e: RxError| {
        match e.downcast_ref::<std::io::Error>() {
          Some(x) => {
            *b.timed_out.g() = match x.kind() {
              std::io::ErrorKind::TimedOut => true,
              _ => false,
            }
          }
          None => {}
        }
        b.add(Ev::E(err_of(&e)));
      },
      move || c.add(Ev::C),
    );
    *h.g() = Some(s.clone());
    s
  }
  fn expect(&self, want: &Vec<(u64, Ev)>) {
    let l = self.log.g();
    let mut i = 0;
    while i < want.len() {
      if i >= l.len() {
        match &want[i].1 {
          Ev::N(_) => rx::check(false, "C16:an item is missing"),
          Ev::C => rx::check(false, "C16:completion is missing"),
          Ev::E(_) => rx::check(false, "C16:the error is missing"),
        }
        return;
      }
      let same = match (&l[i].1, &want[i].1) {
        (Ev::N(a), Ev::N(b)) => vsame(a, b),
        (Ev::C, Ev::C) => true,
        (Ev::E(a), Ev::E(b)) => match (a, b) {
          (Some(a), Some(b)) => rx::tok_same(&a.0, &b.0),
          (None, None) => *self.timed_out.g(),
          _ => false,
        },
        _ => false,
      };
      rx::check(same, "C16:another event than the clock demands");
      rx::check(l[i].0 == want[i].0, "C16:an event at another time than the clock demands");
      i += 1;
    }
    rx::check(l.len() == want.len(), "C16:an event too many");
  }
}
fn tick(n: u64) -> Ev {
  Ev::N(Val::I(n as i64))
}
fn passed(ends: bool, wait: u64) {
  if ends {
    rx::ev("one period passes");
    thread::sleep(ms(wait));
    rx::settle();
    rx::check(rx::live_threads() == 0, "C15,C16:a thread is still running a period after the end");
  }
}

/// interval until unsubscribed at a chosen time
pub fn sc_time_interval_unsub() {
  rx::set_props("C16,C07");
  let d = if rx::choose(2) == 0 { 7 } else { 10 };
  let ts = [3u64, 8, 18, 24, 39];
  let k = rx::choose(5) as usize;
  let o = observables::interval(ms(d), new_thread_scheduler());
  let l = L::new();
  rx::conc_raw(3);
  let s = l.sub(&o, 999);
  let t0 = rx::now_ms();
  thread::sleep(ms(ts[k]));
  rx::ev("unsubscribe");
  s.unsubscribe();
  let mut want = Vec::new();
  let mut n = 0;
  while (n + 1) * d < ts[k] {
    want.push((t0 + (n + 1) * d, tick(n)));
    n += 1;
  }
  l.expect(&want);
  thread::sleep(ms(25));
  l.expect(&want);
  passed(true, 1);
  rx::end();
}
/// interval, two subscriptions begun at different times
pub fn sc_time_interval_twice() {
  rx::set_props("C16,C07");
  let o = observables::interval(ms(10), new_thread_scheduler());
  let (l, l2) = (L::new(), L::new());
  rx::conc_raw(1);
  let s = l.sub(&o, 999);
  thread::sleep(ms(13));
  let s2 = l2.sub(&o, 999);
  thread::sleep(ms(12));
  s.unsubscribe();
  thread::sleep(ms(21));
  s2.unsubscribe();
  let mut want = Vec::new();
  want.push((10, tick(0)));
  want.push((20, tick(1)));
  l.expect(&want);
  let mut want = Vec::new();
  want.push((23, tick(0)));
  want.push((33, tick(1)));
  want.push((43, tick(2)));
  l2.expect(&want);
  passed(true, 11);
  rx::end();
}
/// interval ended from its own callback or by take(n); on a thread or synchronously
pub fn sc_time_interval_stop() {
  rx::set_props("C16,C07");
  let d = 10;
  let n = rx::choose(3) as usize + 1;
  let l = L::new();
  let how = rx::choose(3);
  let mut want = Vec::new();
  let mut i = 0;
  while i < n {
    want.push(((i as u64 + 1) * d, tick(i as u64)));
    i += 1;
  }
  rx::conc_raw(2);
  if how == 0 {
    let o = observables::interval(ms(d), new_thread_scheduler());
    l.sub(&o, n);
  } else if how == 1 {
    let o = observables::interval(ms(d), new_thread_scheduler()).take(n);
    l.sub(&o, 999);
    want.push((n as u64 * d, Ev::C));
  } else {
    let o = observables::interval(ms(d), default_scheduler()).take(n);
    l.sub(&o, 999);
    want.push((n as u64 * d, Ev::C));
    l.expect(&want);
  }
  thread::sleep(ms(45));
  l.expect(&want);
  passed(true, 1);
  rx::end();
}
pub fn sc_time_timer() {
  rx::set_props("C16,C07");
  let ds = [1u64, 10, 25];
  let d = ds[rx::choose(3) as usize];
  let how = rx::choose(4);
  let l = L::new();
  let mut want = Vec::new();
  rx::conc_raw(3);
  if how == 3 {
    let o = observables::timer(ms(d), default_scheduler());
    l.sub(&o, 999);
    rx::check(rx::now_ms() == d, "C16:an event at another time than the clock demands");
  } else {
    let o = observables::timer(ms(d), new_thread_scheduler());
    if how == 2 {
      // unsubscribed too early
      if d < 5 {
        rx::end();
      }
      let s = l.sub(&o, 999);
      thread::sleep(ms(d - 3));
      rx::ev("unsubscribe");
      s.unsubscribe();
    } else {
      l.sub(&o, if how == 1 { 1 } else { 999 });
    }
  }
  if how != 2 {
    want.push((d, Ev::N(Val::U)));
  }
  if how == 0 || how == 3 {
    want.push((d, Ev::C));
  }
  thread::sleep(ms(d + 1));
  l.expect(&want);
  passed(true, 1);
  rx::end();
}

/// a source on a thread of its own: items with gaps, then an end
struct Scr {
  gaps: Vec<u64>,
  /// 0 silence, 1 complete, 2 error
  end: u32,
  /// the gap before the end
  last: u64,
}
fn script(grid: &'static [u64], max: u32) -> Scr {
  let n = rx::choose(max + 1);
  let mut gaps = Vec::new();
  let mut i = 0;
  while i < n {
    gaps.push(grid[rx::choose(grid.len() as u32) as usize]);
    i += 1;
  }
  let end = rx::choose(3);
  let last = if end > 0 { grid[rx::choose(grid.len() as u32) as usize] } else { 0 };
  Scr { gaps, end, last }
}
/// (time, event) as emitted
type Sent = Sh<Vec<(u64, Ev)>>;
fn source(s: Scr, sent: &Sent, own_thread: bool) -> (Obs<Tok>, Sh<Option<Observer<'static, Tok>>>) {
  let up: Sh<Option<Observer<'static, Tok>>> = Sh::new(None);
  let (u2, sent) = (up.clone(), sent.clone());
  let s = Sh::new(s);
  (
    Observable::create(move |o: Observer<'static, Tok>| {
      *u2.g() = Some(o.clone());
      let (s, sent) = (s.clone(), sent.clone());
      if own_thread {
        thread::spawn(move || run(&s, &sent, &o));
      } else {
        run(&s, &sent, &o);
      }
    }),
    up,
  )
}
fn run(s: &Sh<Scr>, sent: &Sent, o: &Observer<'static, Tok>) {
  let s = s.g();
  let mut i = 0;
  while i < s.gaps.len() {
    thread::sleep(ms(s.gaps[i]));
    let x = rx::fresh();
    rx::ev_val("source: next", &Val::T(x));
    sent.g().push((rx::now_ms(), Ev::N(Val::T(x))));
    o.next(x);
    i += 1;
  }
  if s.end == 0 {
    return;
  }
  thread::sleep(ms(s.last));
  if s.end == 1 {
    rx::ev("source: complete");
    sent.g().push((rx::now_ms(), Ev::C));
    o.complete();
  } else {
    let e = fresh_err();
    rx::ev("source: error");
    sent.g().push((rx::now_ms(), Ev::E(Some(e))));
    o.error(mkerr(e));
  }
}
pub fn sc_time_delay() {
  delay(true)
}
pub fn sc_time_delay_sync() {
  delay(false)
}
fn delay(own: bool) {
  rx::set_props("C16,C07");
  let ds = [0u64, 4, 10];
  let d = ds[rx::choose(3) as usize];
  let sent: Sent = Sh::new(Vec::new());
  let sc = script(&[1, 7], 3);
  let end = sc.end;
  let (src, up) = source(sc, &sent, own);
  let o = src.delay(ms(d));
  let l = L::new();
  rx::conc_raw(2);
  l.sub(&o, 999);
  rx::check(up.g().is_some(), "C16:the source is not subscribed");
  thread::sleep(ms(99));
  let got = l.log.g();
  let s = sent.g();
  rx::check(got.len() == s.len(), "C16:delay loses or adds events");
  if got.len() == s.len() {
    let mut i = 0;
    while i < s.len() {
      match (&s[i].1, &got[i].1) {
        (Ev::N(a), Ev::N(b)) => {
          rx::check(vsame(a, b), "C16:delay reorders items");
          rx::check(got[i].0 == s[i].0 + d, "C16:delay hands an item on at another time than d after receiving it");
        }
        (Ev::C, Ev::C) => rx::check(true, "C16:delay completes"),
        (Ev::E(a), Ev::E(b)) => match (a, b) {
          (Some(a), Some(b)) => rx::check(rx::tok_same(&a.0, &b.0), "C16,C04:error payload changed"),
          _ => rx::check(false, "C16,C04:error payload lost"),
        },
        _ => rx::check(false, "C16:delay changes the terminal"),
      }
      i += 1;
    }
  }
  rx::end();
}
pub fn sc_time_timeout() {
  timeout(true, 3)
}
pub fn sc_time_timeout_sync() {
  timeout(false, 2)
}
fn timeout(own: bool, max: u32) {
  rx::set_props("C16,C07");
  let d = 10;
  let sent: Sent = Sh::new(Vec::new());
  let sc = script(&[3, 9, 11, 32], max);
  // expected
  let mut t = 0;
  let mut had = false;
  let mut want: Vec<(u64, u32)> = Vec::new();
  let mut over = false;
  let mut i = 0;
  while i < sc.gaps.len() && !over {
    if had && sc.gaps[i] > d {
      want.push((t + d, 9));
      over = true;
    } else {
      t += sc.gaps[i];
      want.push((t, 0));
      had = true;
    }
    i += 1;
  }
  if !over {
    if sc.end == 0 || had && sc.last > d {
      if had {
        want.push((t + d, 9));
      }
    } else {
      want.push((t + sc.last, sc.end));
    }
  }
  let (src, up) = source(sc, &sent, own);
  let o = src.timeout(ms(d), new_thread_scheduler());
  let l = L::new();
  rx::conc_raw(if own { 1 } else { 2 });
  let sub = l.sub(&o, 999);
  rx::check(up.g().is_some(), "C16:the source is not subscribed");
  thread::sleep(ms(140));
  let mut w: Vec<(u64, Ev)> = Vec::new();
  let s = sent.g();
  let mut i = 0;
  while i < want.len() {
    let (t, k) = want[i];
    w.push((
      t,
      if k == 9 {
        Ev::E(None)
      } else if k == 1 {
        Ev::C
      } else {
        // the i-th event of the source
        if i < s.len() { s[i].1.clone() } else { Ev::C }
      },
    ));
    i += 1;
  }
  l.expect(&w);
  let ended = want.len() > 0 && want[want.len() - 1].1 > 0;
  rx::check(sub.is_subscribed() != ended, "C05:is_subscribed() does not tell whether the subscription ended");
  if ended {
    if let Some(u) = up.g().clone() {
      rx::check(!u.is_subscribed(), "C06,C16:the source still sees is_subscribed() after the end");
    }
    passed(true, 1);
  }
  rx::end();
}
/// timeout: unsubscribed, or ended downstream, meanwhile
pub fn sc_time_timeout_unsub() {
  rx::set_props("C16,C07");
  let sent: Sent = Sh::new(Vec::new());
  let mut gaps = Vec::new();
  gaps.push(3);
  gaps.push(9);
  let (src, up) = source(Scr { gaps, end: 0, last: 0 }, &sent, true);
  let o = src.timeout(ms(10), new_thread_scheduler());
  let l = L::new();
  rx::conc_raw(2);
  let k = rx::choose(5) as usize;
  let sub = l.sub(&o, if k == 3 { 1 } else if k == 4 { 2 } else { 999 });
  rx::check(up.g().is_some(), "C16:the source is not subscribed");
  let mut n = 2;
  if k < 3 {
    thread::sleep(ms([1u64, 5, 15][k]));
    rx::ev("unsubscribe");
    sub.unsubscribe();
    n = k;
  } else if k == 3 {
    n = 1;
  }
  thread::sleep(ms(60));
  rx::check(l.log.g().len() == n, "C16,C05:an event too many or too few");
  passed(true, 1);
  rx::end();
}
/// timeout: the subscriber's callback makes the source emit again
pub fn sc_time_timeout_reent() {
  rx::set_props("C16,C07");
  let up: Sh<Option<Observer<'static, u64>>> = Sh::new(None);
  let u2 = up.clone();
  let o = Observable::create(move |s: Observer<'static, u64>| *u2.g() = Some(s)).timeout(ms(10), new_thread_scheduler());
  let up2 = up.clone();
  let log: Sh<Vec<(u64, u64)>> = Sh::new(Vec::new());
  let (a, b) = (log.clone(), log.clone());
  rx::conc_raw(1);
  let _sub = o.subscribe(
    move |x: u64| {
      rx::ev("  got next");
      a.g().push((rx::now_ms(), x));
      if x == 0 {
        let u = up2.g().clone().unwrap();
        u.next(1);
      }
    },
    move |_| {
      rx::ev("  got error");
      b.g().push((rx::now_ms(), 99));
    },
    || {},
  );
  let u = up.g().clone().unwrap();
  u.next(0);
  thread::sleep(ms(6));
  u.next(2);
  thread::sleep(ms(6));
  u.next(3);
  thread::sleep(ms(30));
  let l = log.g();
  rx::check(l.len() == 5, "C16:an item is missing or the timeout comes although every gap is short");
  if l.len() == 5 {
    rx::check(l[2] == (6, 2) && l[3] == (12, 3) && l[4] == (22, 99), "C16:another event than the clock demands");
  }
  passed(true, 1);
  rx::end();
}
/// debounce and sample: a subsequence of what was emitted
fn subseq<X: ToVal + Clone + Send + Sync + 'static>(which: u32) {
  rx::set_props("C16,C07");
  let sent: Sent = Sh::new(Vec::new());
  let sc = script(&[2, 9, 13], if which == 2 { 2 } else { 3 });
  let end = sc.end;
  let (src, up) = source(sc, &sent, true);
  let o = match which {
    0 => src.debounce(ms(10), new_thread_scheduler()),
    1 => src.sample(observables::interval(ms(10), new_thread_scheduler())),
    _ => src.debounce(ms(5), new_thread_scheduler()).debounce(ms(4), new_thread_scheduler()),
  };
  let l = L::new();
  rx::conc_raw(if which == 2 { 1 } else { 2 });
  let sub = l.sub(&o, 999);
  rx::check(up.g().is_some(), "C16:the source is not subscribed");
  thread::sleep(ms(80));
  if sub.is_subscribed() {
    rx::check(end == 0, "C16:the terminal is lost");
    sub.unsubscribe();
  }
  let got = l.log.g();
  let s = sent.g();
  let mut i = 0;
  let mut k = 0;
  while i < got.len() {
    match &got[i].1 {
      Ev::N(v) => {
        let mut found = false;
        while k < s.len() && !found {
          if let Ev::N(x) = &s[k].1 {
            if vsame(x, v) {
              rx::check(s[k].0 <= got[i].0, "C16:an item delivered before it was emitted");
              found = true;
            }
          }
          k += 1;
        }
        rx::check(found, "C16:an item the source did not emit, delivered twice or out of order");
      }
      Ev::C => rx::check(end == 1, "C16:completion without the source's"),
      Ev::E(_) => rx::check(end == 2, "C16:error without the source's"),
    }
    i += 1;
  }
  passed(true, 11);
  rx::end();
}
pub fn sc_time_debounce() {
  subseq::<Tok>(0)
}
pub fn sc_time_sample() {
  subseq::<Tok>(1)
}
pub fn sc_time_debounce_twice() {
  subseq::<Tok>(2)
}
/// time_interval: the time between neighbouring items
pub fn sc_time_time_interval() {
  rx::set_props("C16,C07");
  let sent: Sent = Sh::new(Vec::new());
  let sc = script(&[2, 9], 3);
  let (src, up) = source(sc, &sent, false);
  let o = src.time_interval().map(|d| units(d));
  let l = L::new();
  l.sub(&o, 999);
  rx::check(up.g().is_some(), "C16:the source is not subscribed");
  let s = sent.g();
  let got = l.log.g();
  let mut n = 0;
  let mut i = 1;
  while i < s.len() {
    if let (Ev::N(_), Ev::N(_)) = (&s[i - 1].1, &s[i].1) {
      n += 1;
      rx::check(got.len() >= i, "C16:a time interval is missing");
      if got.len() >= i {
        if let Ev::N(v) = &got[i - 1].1 {
          rx::check(vsame(v, &Val::I((s[i].0 - s[i - 1].0) as i64)), "C16:not the time between the items");
        }
      }
    }
    i += 1;
  }
  let m = got.iter().filter(|x| matches!(x.1, Ev::N(_))).count();
  rx::check(m == n || m == n + 1, "C16:time_interval loses or adds items");
  if s.len() > 0 {
    match (&s[s.len() - 1].1, got.last()) {
      (Ev::N(_), Some((_, Ev::N(_)))) | (Ev::N(_), None) | (Ev::C, Some((_, Ev::C))) | (Ev::E(_), Some((_, Ev::E(_)))) => {}
      _ => rx::check(false, "C16:time_interval loses or adds the terminal"),
    }
  }
  rx::end();
}
/// timestamp: every item with the time it was emitted at
pub fn sc_time_timestamp() {
  rx::set_props("C16,C07");
  let sent: Sent = Sh::new(Vec::new());
  let sc = script(&[2, 9], 3);
  let (src, up) = source(sc, &sent, false);
  let t0 = std::time::SystemTime::now();
  let o = src.timestamp().map(move |x| (units(x.0.duration_since(t0).unwrap()), x.1));
  let l = L::new();
  l.sub(&o, 999);
  rx::check(up.g().is_some(), "C16:the source is not subscribed");
  let s = sent.g();
  let got = l.log.g();
  rx::check(got.len() == s.len(), "C16:timestamp loses or adds events");
  let mut i = 0;
  while i < s.len() && i < got.len() {
    if let (Ev::N(a), Ev::N(b)) = (&s[i].1, &got[i].1) {
      rx::check(vsame(&Val::L(vec2(Val::I(s[i].0 as i64), a.clone())), b), "C16:not the item with the time it was emitted at");
    }
    i += 1;
  }
  rx::end();
}

/// the same with durations that are no whole number of milliseconds, or longer than a second
macro_rules! units { ($($a:ident $b:ident $f:ident;)*) => { $(
  pub fn $a() { rx::set_unit(333_333); $f() }
  pub fn $b() { rx::set_unit(1_300_500_250); $f() }
)* }; }
units! {
  sc_timeu_interval_unsub sc_timel_interval_unsub sc_time_interval_unsub;
  sc_timeu_interval_twice sc_timel_interval_twice sc_time_interval_twice;
  sc_timeu_interval_stop sc_timel_interval_stop sc_time_interval_stop;
  sc_timeu_timer sc_timel_timer sc_time_timer;
  sc_timeu_delay sc_timel_delay sc_time_delay;
  sc_timeu_delay_sync sc_timel_delay_sync sc_time_delay_sync;
  sc_timeu_timeout sc_timel_timeout sc_time_timeout;
  sc_timeu_timeout_sync sc_timel_timeout_sync sc_time_timeout_sync;
  sc_timeu_timeout_unsub sc_timel_timeout_unsub sc_time_timeout_unsub;
  sc_timeu_timeout_reent sc_timel_timeout_reent sc_time_timeout_reent;
  sc_timeu_debounce sc_timel_debounce sc_time_debounce;
  sc_timeu_sample sc_timel_sample sc_time_sample;
  sc_timeu_debounce_twice sc_timel_debounce_twice sc_time_debounce_twice;
  sc_timeu_time_interval sc_timel_time_interval sc_time_time_interval;
  sc_timeu_timestamp sc_timel_timestamp sc_time_timestamp;
}

/// one Observable value, three subscriptions: alone, and two that overlap; all see the same, relative to their beginning
fn thrice(which: u32) {
  rx::set_props("C14,C16,C07");
  let end = rx::choose(2);
  let how = rx::choose(3);
  let n = new_thread_scheduler();
  let gaps = [3u64, 6, 2, 14, 4];
  let subs = Sh::new(0i64);
  let s2 = subs.clone();
  let src: Obs<i64> = Observable::create(move |s: Observer<'static, i64>| {
    let tag = if which == 3 { *s2.g() * 1000 } else { 0 };
    *s2.g() += 1;
    thread::spawn(move || {
      let mut i = 0;
      while i < 5 {
        thread::sleep(ms(2 * gaps[i]));
        s.next(tag + i as i64);
        i += 1;
      }
      thread::sleep(ms(4));
      if end == 0 {
        s.complete();
      } else {
        s.error(mkerr(ETok(rx::tok_const(5))));
      }
    });
  });
  // counts the subscriptions of one attempt
  let o: Obs<i64> = match which {
    0 => src.delay(ms(10)),
    1 => src.timeout(ms(20), n),
    2 => src.timeout(ms(40), n),
    3 => src.debounce(ms(10), n),
    4 => src.sample(observables::interval(ms(14), n)),
    5 => src.time_interval().map(|d| units(d) as i64),
    6 => observables::interval(ms(14), n).map(|x| x as i64).take(3),
    7 => observables::timer(ms(14), n).map(|_| 1),
    8 => src.observe_on(n),
    9 => src.subscribe_on(n),
    10 => src.retry(2),
    11 => src.timeout(ms(20), n).retry(2),
    12 => src.flat_map(move |x: i64| observables::timer(ms(10), n).map(move |_| x)),
    13 => src.take_until(observables::timer(ms(24), n)),
    14 => src.skip_until(observables::timer(ms(24), n)),
    15 => {
      let mut v = Vec::new();
      v.push(observables::interval(ms(16), n).map(|x| 100 + x as i64).take(3));
      src.merge(&v)
    }
    16 => {
      let mut v = Vec::new();
      v.push(observables::interval(ms(16), n).map(|x| 100 + x as i64).take(4));
      src.zip(&v).map(|v: Vec<i64>| v[0] * 1000 + v[1])
    }
    17 => src.switch_on_next(observables::interval(ms(16), n).map(|x| 100 + x as i64).take(2)),
    18 => src.observe_on(n).delay(ms(2)),
    19 => src.retry_when(|e: RxError| err_of(&e).is_none()),
    20 => src.timeout(ms(20), n).on_error_resume_next(move |_| observables::interval(ms(6), n).map(|x| 200 + x as i64).take(2)),
    21 => src.timestamp().map(|x: (std::time::SystemTime, i64)| x.1).take_while(|x| x < 3),
    22 => {
      let mut v = Vec::new();
      v.push(observables::interval(ms(16), n).map(|x| 100 + x as i64).take(3));
      src.amb(&v)
    }
    _ => {
      let mut v = Vec::new();
      v.push(observables::timer(ms(16), n).map(|_| 100i64));
      src.concat(&v)
    }
  };
  rx::conc_raw(0);
  let (a, b, c) = (L::new(), L::new(), L::new());
  let t0 = rx::now_ms();
  a.sub(&o, 999);
  thread::sleep(ms(222));
  rx::settle();
  let tb = rx::now_ms();
  let sb = b.sub(&o, 999);
  // never at the same time as the other's events
  thread::sleep(ms(if how == 0 { 23 } else { 35 }));
  let tc = rx::now_ms();
  c.sub(&o, 999);
  if how == 2 {
    thread::sleep(ms(6));
    rx::ev("unsubscribe the second");
    sb.unsubscribe();
  }
  thread::sleep(ms(222));
  rx::settle();
  rx::check(a.log.g().len() > 0 || which == 3 || which == 4, "C16:nothing arrives");
  let mut k = 0;
  while k < 2 {
    let (l, t) = if k == 0 { (&c, tc) } else { (&b, tb) };
    k += 1;
    if k == 2 && how == 2 {
      continue;
    }
    if which == 3 {
      // debounce may skip what it likes
      let own = if k == 1 { 2 } else { 1 };
      let mut last = own * 1000 - 1;
      let mut i = 0;
      while i < l.log.g().len() {
        if let Ev::N(Val::I(x)) = &l.log.g()[i].1 {
          rx::check(*x > last && *x < own * 1000 + 5, "C14,C16:an item of another subscription, delivered twice or out of order");
          last = *x;
        }
        i += 1;
      }
      rx::check(l.log.g().len() > 1 || a.log.g().len() < 2, "C14:a later subscription receives nothing but the end");
      continue;
    }
    rx::check(l.log.g().len() == a.log.g().len(), "C14:a later subscription receives more or fewer events than one that is alone");
    let mut i = 0;
    while i < l.log.g().len() && i < a.log.g().len() {
      let (x, y) = (&a.log.g()[i], &l.log.g()[i]);
      let same = match (&x.1, &y.1) {
        (Ev::N(p), Ev::N(q)) => vsame(p, q),
        (Ev::C, Ev::C) => true,
        (Ev::E(Some(p)), Ev::E(Some(q))) => rx::tok_same(&p.0, &q.0),
        (Ev::E(None), Ev::E(None)) => true,
        _ => false,
      };
      rx::check(same && x.0 - t0 == y.0 - t, "C14:a later subscription receives other events than one that is alone");
      i += 1;
    }
  }
  rx::check(rx::live_threads() == 0, "C15,C16:a thread is still running a period after the end");
  rx::end();
}
macro_rules! thrice { ($($f:ident $k:expr;)*) => { $( pub fn $f() { thrice($k) } )* }; }
thrice! {
  sc_ttwice_delay 0; sc_ttwice_timeout 1; sc_ttwice_timeout_not 2; sc_ttwice_debounce 3; sc_ttwice_sample 4; sc_ttwice_time_interval 5;
  sc_ttwice_interval 6; sc_ttwice_timer 7; sc_ttwice_observe_on 8; sc_ttwice_subscribe_on 9; sc_ttwice_retry 10; sc_ttwice_timeout_retry 11;
  sc_ttwice_flat_timer 12; sc_ttwice_take_until 13; sc_ttwice_skip_until 14; sc_ttwice_merge 15; sc_ttwice_zip 16; sc_ttwice_switch 17;
  sc_ttwice_obs_delay 18; sc_ttwice_retry_when 19; sc_ttwice_timeout_resume 20; sc_ttwice_timestamp 21; sc_ttwice_amb 22; sc_ttwice_concat 23;
}
