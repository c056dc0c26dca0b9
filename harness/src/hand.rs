//! observe_on / subscribe_on: hand-over of events between threads.
use crate::core::*;
use crate::rx;
use another_rxrust::prelude::*;
use another_rxrust::prelude::schedulers::*;
use std::sync::Arc;
use std::thread;

#[derive(Clone)]
struct Sent {
  ev: Ev,
  /// emitted after unsubscribe had returned
  late: bool,
  tid: u32,
}
struct HS {
  sent: Vec<Sent>,
  got: usize,
  running: bool,
  tid: u32,
  over: bool,
  unsub: bool,
  up: Option<Observer<'static, Tok>>,
  /// threads on which the source was subscribed
  sub_tid: u32,
  subscribed: u32,
  /// callbacks must run on another thread than the emitting one
  moved: bool,
}
#[derive(Clone)]
struct H(Sh<HS>);
impl H {
  fn new() -> H {
    H(Sh::new(HS {
      sent: Vec::new(),
      got: 0,
      running: false,
      tid: 99,
      over: false,
      unsub: false,
      up: None,
      sub_tid: 99,
      subscribed: 0,
      moved: false,
    }))
  }
  fn s(&self) -> &mut HS {
    self.0.g()
  }
  fn sending(&self, ev: Ev) {
    let s = self.s();
    match &ev {
      Ev::N(v) => rx::ev_val("source: next", v),
      Ev::E(_) => rx::ev("source: error"),
      Ev::C => rx::ev("source: complete"),
    }
    let late = s.unsub;
    s.sent.push(Sent { ev, late, tid: rx::tid() });
  }
  fn got(&self, ev: Ev) {
    let s = self.s();
    match &ev {
      Ev::N(v) => rx::ev_val("  got next", v),
      Ev::E(_) => rx::ev("  got error"),
      Ev::C => rx::ev("  got complete"),
    }
    rx::check(!s.running, "C09:two callbacks at once");
    rx::check(!s.over, "C01,C09:event after the terminal");
    s.running = true;
    let t = rx::tid();
    if s.moved {
      if s.tid == 99 {
        s.tid = t;
      }
      rx::check(s.tid == t, "C09:callbacks run on different threads");
    }
    let i = s.got;
    if i >= s.sent.len() {
      rx::check(false, "C09:an event the source did not emit");
    } else {
      let x = s.sent[i].clone();
      let same = match (&x.ev, &ev) {
        (Ev::N(a), Ev::N(b)) => vsame(a, b),
        (Ev::C, Ev::C) => true,
        (Ev::E(Some(a)), Ev::E(Some(b))) => rx::tok_same(&a.0, &b.0),
        _ => false,
      };
      rx::check(same, "C09:an event is lost, duplicated or reordered");
      rx::check(!x.late, "C05,C09:an event emitted after unsubscribe returned is delivered");
      rx::check(!s.moved || t != x.tid, "C09:a callback runs on the emitting thread");
    }
    rx::yield_point();
    let s = self.s();
    s.got = i + 1;
    s.running = false;
    match &ev {
      Ev::N(_) => {}
      _ => s.over = true,
    }
  }
}
#[derive(Clone, Copy)]
pub struct HM {
  /// 0 observe_on, 1 map.observe_on, 2 observe_on.map, 3 observe_on twice, 4 subscribe_on, 5 subscribe_on twice,
  /// 6 subscribe_on.observe_on, 7 observe_on.subscribe_on, 8 subscribe_on.map
  chain: u32,
  /// the source emits inside subscribe (else on a thread of its own)
  sync: bool,
  unsub: bool,
  take: usize,
  items: u32,
}
fn chain(c: u32, o: Obs<Tok>) -> Obs<Tok> {
  let n = new_thread_scheduler();
  match c {
    0 => o.observe_on(n),
    1 => o.map(|x| x).observe_on(n),
    2 => o.observe_on(n).map(|x| x),
    3 => o.observe_on(n).observe_on(n),
    4 => o.subscribe_on(n),
    5 => o.subscribe_on(n).subscribe_on(n),
    6 => o.subscribe_on(n).observe_on(n),
    7 => o.observe_on(n).subscribe_on(n),
    _ => o.subscribe_on(n).map(|x| x),
  }
}
fn emit(h: &H, s: &Observer<'static, Tok>, items: u32, end: u32) {
  let mut i = 0;
  while i < items {
    let x = rx::fresh();
    h.sending(Ev::N(Val::T(x)));
    s.next(x);
    i += 1;
  }
  if end == 1 {
    h.sending(Ev::C);
    s.complete();
  } else if end == 2 {
    let e = fresh_err();
    h.sending(Ev::E(Some(e)));
    s.error(mkerr(e));
  }
}
fn hand(m: HM) {
  rx::set_props("C09,C07");
  let probe = Arc::new(());
  let end = rx::choose(3);
  let items = if m.unsub || m.take > 0 { m.items } else { rx::choose(m.items + 1) };
  let h = H::new();
  h.s().moved = match m.chain {
    4 | 5 | 8 => false,
    _ => true,
  };
  let (h2, p2) = (h.clone(), probe.clone());
  let src: Obs<Tok> = Observable::create(move |s: Observer<'static, Tok>| {
    let st = h2.s();
    st.sub_tid = rx::tid();
    st.subscribed += 1;
    st.up = Some(s.clone());
    if m.sync {
      emit(&h2, &s, items, end);
    } else {
      let (h3, p3) = (h2.clone(), p2.clone());
      thread::spawn(move || {
        let _p = &p3;
        emit(&h3, &s, items, end)
      });
    }
  });
  let mut o = chain(m.chain, src);
  if m.take > 0 {
    o = o.take(m.take);
  }
  rx::conc_raw(if m.unsub { 2 } else { 3 });
  let (a, b, c) = (h.clone(), h.clone(), h.clone());
  let (pa, pb, pc) = (probe.clone(), probe.clone(), probe.clone());
  let sub = o.subscribe(
    move |x: Tok| {
      let _p = &pa;
      a.got(Ev::N(x.v()))
    },
    move |e: RxError| {
      let _p = &pb;
      b.got(Ev::E(err_of(&e)))
    },
    move || {
      let _p = &pc;
      let t = h_take(&c, m.take);
      if !t {
        c.got(Ev::C)
      }
    },
  );
  if m.unsub {
    rx::ev("unsubscribe");
    sub.unsubscribe();
    h.s().unsub = true;
    rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after unsubscribe");
  }
  rx::settle();
  let s = h.s();
  let ends = end > 0 || (m.take > 0 && items as usize >= m.take);
  rx::check(m.unsub || s.subscribed == 1, "C09:the source was not subscribed exactly once");
  rx::check(s.subscribed == 0 || (m.chain < 4) == (s.sub_tid == 0), "C09:the source is subscribed on the wrong thread");
  if !m.unsub {
    let want = if m.take > 0 && m.take < s.sent.len() { m.take } else { s.sent.len() };
    rx::check(s.got == want, "C09:events are lost");
    rx::check(s.over == ends, "C09:the terminal is lost");
    rx::check(sub.is_subscribed() != ends, "C05:is_subscribed() does not tell whether the subscription ended");
    if !ends {
      rx::ev("unsubscribe");
      sub.unsubscribe();
      s.unsub = true;
      rx::settle();
    }
  }
  rx::check(rx::live_threads() == 0, "C15:a scheduler thread outlives its subscription");
  if let Some(u) = &s.up {
    rx::check(!u.is_subscribed(), "C06:the source still sees is_subscribed() after the end");
    // a source that goes on does no harm
    let got = s.got;
    u.next(rx::fresh());
    u.complete();
    rx::settle();
    rx::check(h.s().got == got, "C05,C09:an event emitted after unsubscribe returned is delivered");
    rx::check(rx::live_threads() == 0, "C15:a scheduler thread outlives its subscription");
  }
  s.up = None;
  drop(sub);
  drop(o);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}
/// take(n) completes by itself
fn h_take(h: &H, take: usize) -> bool {
  let s = h.s();
  if take > 0 && s.got == take {
    rx::ev("  got complete");
    rx::check(!s.over, "C01,C09:event after the terminal");
    s.over = true;
    return true;
  }
  false
}
macro_rules! sc {
  ($($f:ident $c:expr, $s:expr, $u:expr, $t:expr, $n:expr;)*) => { $( pub fn $f() { hand(HM { chain: $c, sync: $s, unsub: $u, take: $t, items: $n }) } )* };
}
sc! {
  sc_hand_obs_sync 0, true, false, 0, 3;
  sc_hand_obs_thread 0, false, false, 0, 3;
  sc_hand_obs_unsub_sync 0, true, true, 0, 2;
  sc_hand_obs_unsub_thread 0, false, true, 0, 2;
  sc_hand_map_obs 1, false, false, 0, 2;
  sc_hand_obs_map 2, false, false, 0, 2;
  sc_hand_obs_obs 3, false, false, 0, 2;
  sc_hand_obs_obs_unsub 3, false, true, 0, 2;
  sc_hand_obs_take 0, false, false, 1, 2;
  sc_hand_obs_take_sync 0, true, false, 2, 3;
  sc_hand_sub_sync 4, true, false, 0, 3;
  sc_hand_sub_thread 4, false, false, 0, 3;
  sc_hand_sub_unsub_sync 4, true, true, 0, 2;
  sc_hand_sub_unsub_thread 4, false, true, 0, 2;
  sc_hand_sub_sub 5, true, false, 0, 2;
  sc_hand_sub_sub_unsub 5, true, true, 0, 2;
  sc_hand_sub_obs 6, true, false, 0, 2;
  sc_hand_sub_obs_unsub 6, true, true, 0, 1;
  sc_hand_obs_sub 7, true, false, 0, 2;
  sc_hand_sub_map 8, true, false, 0, 2;
  sc_hand_sub_take 4, true, false, 1, 3;
}
