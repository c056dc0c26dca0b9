//! Connectable observables: publish, ref_count, replay.
use crate::conc::CRec;
use crate::core::*;
use crate::run::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;
use std::thread;

#[derive(Clone, Copy, PartialEq)]
pub enum CK {
  Pub,
  Ref,
  Rep,
}
/// the three behind one interface
pub struct Conn {
  pub k: CK,
  ob: Arc<dyn Fn() -> Obs<PTok> + Send + Sync>,
  conn: Option<Arc<dyn Fn() -> Subscription<'static> + Send + Sync>>,
}
impl Conn {
  pub fn obs(&self) -> Obs<PTok> {
    (self.ob)()
  }
  pub fn connect(&self) -> Subscription<'static> {
    (self.conn.clone().unwrap())()
  }
}
impl Clone for Conn {
  fn clone(&self) -> Conn {
    Conn { k: self.k, ob: self.ob.clone(), conn: self.conn.clone() }
  }
}
pub fn mk(k: CK, o: &Obs<PTok>) -> Conn {
  match k {
    CK::Pub => {
      let p = o.publish();
      let q = p.clone();
      Conn { k, ob: Arc::new(move || p.observable()), conn: Some(Arc::new(move || q.connect())) }
    }
    CK::Ref => {
      let p = o.ref_count();
      Conn { k, ob: Arc::new(move || p.observable()), conn: None }
    }
    CK::Rep => {
      let p = o.replay();
      Conn { k, ob: Arc::new(move || p.observable()), conn: None }
    }
  }
}
/// the source under client control
pub struct Src {
  /// the observers handed to the source and not yet seen dead
  pub ups: Vec<Observer<'static, PTok>>,
  /// the latest observer
  pub up: Option<Observer<'static, PTok>>,
  /// subscriptions so far
  pub count: usize,
}
pub fn live_ups(s: &Sh<Src>) -> usize {
  let v = &mut s.g().ups;
  let mut i = 0;
  while i < v.len() {
    if v[i].is_subscribed() {
      i += 1;
    } else {
      v.remove(i);
    }
  }
  v.len()
}
pub struct M {
  pub k: CK,
  pub env: Env,
  pub recs: Vec<Rec>,
  /// items a subscriber still takes
  pub left: Vec<u32>,
  pub hist: Vec<Val>,
  /// the source is subscribed
  pub on: bool,
  /// 0 = open, 1 = completed, 2 = failed
  pub end: u32,
  pub err: Option<ETok>,
  /// source subscriptions so far
  pub count: usize,
}
impl M {
  pub fn open(&self) -> bool {
    let mut i = 0;
    while i < self.recs.len() {
      if self.recs[i].open() {
        return true;
      }
      i += 1;
    }
    false
  }
  pub fn give(&mut self, i: usize, v: &Val) {
    if !self.recs[i].open() {
      return;
    }
    self.recs[i].n(v.clone());
    if self.left[i] > 0 {
      self.left[i] -= 1;
      if self.left[i] == 0 {
        self.recs[i].c();
      }
    }
  }
  pub fn left(&mut self) {
    if self.k != CK::Pub && !self.open() {
      self.on = false;
    }
  }
  pub fn next(&mut self, v: &Val) {
    if !self.on {
      return;
    }
    if self.k == CK::Rep {
      self.hist.push(v.clone());
    }
    let mut i = 0;
    while i < self.recs.len() {
      self.give(i, v);
      i += 1;
    }
    self.left();
  }
  pub fn finish(&mut self, e: Option<ETok>) {
    if !self.on {
      return;
    }
    self.on = false;
    self.end = if e.is_some() { 2 } else { 1 };
    self.err = e;
    let mut i = 0;
    while i < self.recs.len() {
      self.terminal(i);
      i += 1;
    }
  }
  pub fn terminal(&mut self, i: usize) {
    if self.end == 1 {
      self.recs[i].c();
    } else if let Some(e) = self.err {
      self.recs[i].e(e);
    }
  }
}
#[derive(Clone, Copy)]
pub struct HM {
  /// items emitted inside subscribe
  sync: u32,
  /// terminal inside subscribe
  sync_end: bool,
  /// the first subscriber takes one item only
  take: bool,
  /// somebody may subscribe whose own subscription is over already
  ghost: bool,
}
fn hist(k: CK, h: HM) {
  rx::set_props("C13");
  let env = Env::new(0);
  let m = Sh::new(M {
    k,
    env: env.clone(),
    recs: Vec::new(),
    left: Vec::new(),
    hist: Vec::new(),
    on: false,
    end: 0,
    err: None,
    count: 0,
  });
  let src = Sh::new(Src { ups: Vec::new(), up: None, count: 0 });
  let (m2, s2) = (m.clone(), src.clone());
  let o: Obs<PTok> = Observable::create(move |s: Observer<'static, PTok>| {
    rx::ev("  source subscribed");
    rx::check(live_ups(&s2) == 0, "C13:a second source subscription at the same time");
    rx::check(m2.g().on, "C13:the source is subscribed although nobody asked for it");
    s2.g().count += 1;
    s2.g().ups.push(s.clone());
    s2.g().up = Some(s.clone());
    let mut i = 0;
    while i < h.sync {
      let x = PTok::mk(&m2.g().env);
      rx::ev_val("  source: next", &x.val());
      m2.g().next(&x.val());
      s.next(x);
      i += 1;
    }
    if h.sync_end {
      rx::ev("  source: complete");
      m2.g().finish(None);
      s.complete();
    }
  });
  // with an operator in between, the release of the source is the operator's
  let o = if h.ghost { o.map(|x: PTok| x) } else { o };
  let c = mk(k, &o);
  let one = (c.ob)();
  let mut subs: Vec<Subscription<'static>> = Vec::new();
  let mut probes: Vec<Arc<()>> = Vec::new();
  let mut conn: Option<Subscription<'static>> = None;
  let max = if rx::tier() > 0 { 3 } else { 2 };
  let mut stop = false;
  let mut ghosts = 0;
  loop {
    rx::boundary();
    if stop {
      rx::end();
    }
    let a = rx::choose(if h.ghost { 9 } else { 8 });
    if a == 0 {
      if subs.len() >= 3 || (m.g().end != 0 && k != CK::Rep) {
        rx::end();
      }
      let r = Rec::new("C13", "C13,C04");
      let p = Arc::new(());
      let i = subs.len();
      let first = !m.g().open();
      let take = h.take && i == 0;
      m.g().recs.push(r.clone());
      m.g().left.push(if take { 1 } else { 0 });
      let mut fuzzy = false;
      if k == CK::Rep {
        if first && m.g().end == 0 {
          // whoever returns after everyone left starts a new sequence; what a hot source emitted before is unspecified
          fuzzy = m.g().hist.len() > 0 && h.sync == 0;
          if fuzzy {
            r.s().free = true;
            stop = true;
          }
          m.g().hist.clear();
        }
        let mut j = 0;
        while j < m.g().hist.len() {
          let v = m.g().hist[j].clone();
          m.g().give(i, &v);
          j += 1;
        }
        if m.g().end != 0 {
          m.g().terminal(i);
        }
      }
      if k != CK::Pub && first && m.g().end == 0 {
        m.g().on = true;
        m.g().count += 1;
      }
      // several observables of one connectable share it
      let o2 = if i == 1 { (c.ob)() } else { one.clone() };
      rx::ev("subscribe");
      let sub = if take { r.observe(&o2.take(1), &p) } else { r.observe(&o2, &p) };
      subs.push(sub);
      probes.push(p);
      m.g().left();
    } else if a == 1 {
      if subs.len() == 0 {
        rx::end();
      }
      let i = rx::choose(subs.len() as u32) as usize;
      rx::ev("unsubscribe");
      subs[i].unsubscribe();
      m.g().recs[i].s().unsub = true;
      m.g().recs[i].s().late = true;
      m.g().left();
    } else if a == 2 || a == 3 || a == 4 {
      let up = src.g().up.clone();
      match up {
        None => rx::end(),
        Some(up) => {
          if a == 2 {
            let x = PTok::mk(&env);
            rx::ev_val("source: next", &x.val());
            m.g().next(&x.val());
            if m.g().hist.len() > max + h.sync as usize {
              rx::end();
            }
            up.next(x);
          } else if a == 3 {
            rx::ev("source: complete");
            m.g().finish(None);
            up.complete();
          } else {
            let e = fresh_err();
            rx::ev("source: error");
            m.g().finish(Some(e));
            up.error(mkerr(e));
          }
        }
      }
    } else if a == 5 {
      // two connections at a time or one after the terminal are not specified
      if k != CK::Pub || m.g().on || m.g().end != 0 {
        rx::end();
      }
      rx::ev("connect");
      m.g().on = true;
      m.g().count += 1;
      m.g().hist.clear();
      let f = c.conn.clone().unwrap();
      conn = Some(f());
    } else if a == 6 {
      match &conn {
        None => rx::end(),
        Some(x) => {
          rx::ev("disconnect");
          x.unsubscribe();
          m.g().on = false;
        }
      }
    } else if a == 8 {
      // amb and merge subscribe to all their sources, even if the first has ended the whole already
      if ghosts == 1 {
        rx::end();
      }
      ghosts += 1;
      let r = Rec::new("C13", "C13,C01");
      let p = Arc::new(());
      rx::ev("subscribe by an operator that has ended");
      let e = fresh_err();
      r.e(e);
      let o2 = observables::error::<PTok>(mkerr(e)).merge(&[one.clone()]);
      let sub = r.observe(&o2, &p);
      r.settled();
      status(&sub, &r);
      rx::check(Arc::strong_count(&p) == 1, "C13,C17,C06:an observer that has ended is still held");
    } else {
      rx::ev("drop handles");
      let mut i = 0;
      while i < subs.len() {
        if m.g().recs[i].live() {
          rx::end();
        }
        i += 1;
      }
      if m.g().on {
        rx::end();
      }
      drop(conn);
      drop(subs);
      drop(one);
      drop(c);
      drop(o);
      src.g().up = None;
      src.g().ups.clear();
      m.g().recs.clear();
      i = 0;
      while i < probes.len() {
        rx::check(Arc::strong_count(&probes[i]) == 1, "C17,C13:callbacks still owned after the end");
        i += 1;
      }
      rx::check(Arc::strong_count(&env.items) == 2, "C17,C13:items still owned after the connectable is gone");
      rx::end();
    }
    rx::check(src.g().count == m.g().count, "C13:the source is subscribed too often or not at all");
    let n = live_ups(&src);
    if let Some(x) = &conn {
      // both this and the next obligation may fail: look at each
      if x.is_subscribed() != m.g().on && rx::choose(2) == 1 {
        rx::check(false, "C13,C05:the connection's is_subscribed() is wrong");
      }
    }
    if m.g().on {
      rx::check(n == 1, "C13:the source is cut off while somebody listens");
    } else {
      rx::check(n == 0, "C13,C06:the source still sees is_subscribed() although nobody listens");
    }
    if let Some(x) = &conn {
      rx::check(x.is_subscribed() == m.g().on, "C13,C05:the connection's is_subscribed() is wrong");
    }
    let mut i = 0;
    while i < subs.len() {
      m.g().recs[i].settled();
      let r = m.g().recs[i].clone();
      status(&subs[i], &r);
      if !r.live() {
        rx::check(Arc::strong_count(&probes[i]) == 1, "C13,C17,C06:an observer that has ended is still held");
      }
      i += 1;
    }
  }
}

/// callbacks that call back into the connectable or its source
fn creent(k: CK, sync: u32) {
  rx::set_props("C07,C13");
  let env = Env::new(0);
  let src = Sh::new(Src { ups: Vec::new(), up: None, count: 0 });
  let s2 = src.clone();
  let ended = Sh::new(false);
  let (e2, en2) = (ended.clone(), Sh::new(Some(env.clone())));
  let o: Obs<PTok> = Observable::create(move |s: Observer<'static, PTok>| {
    rx::ev("  source subscribed");
    rx::check(k == CK::Pub || live_ups(&s2) == 0, "C13:a second source subscription at the same time");
    s2.g().count += 1;
    s2.g().ups.push(s.clone());
    s2.g().up = Some(s.clone());
    let mut i = 0;
    while i < sync {
      rx::ev("  source: next");
      if let Some(e) = en2.g() {
        s.next(PTok::mk(e));
      }
      i += 1;
    }
    let _ = &e2;
  });
  let c = Sh::new(Some(mk(k, &o)));
  let recs: Sh<Vec<Rec>> = Sh::new(Vec::new());
  let subs: Sh<Vec<Option<Subscription<'static>>>> = Sh::new(Vec::new());
  let conn: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let budget = Sh::new(0u32);
  let probe = Arc::new(());
  let hook: Sh<Option<Arc<dyn Fn(&Ev) + Send + Sync>>> = Sh::new(None);
  let act: Arc<dyn Fn(u32) + Send + Sync> = {
    let (recs, subs, conn, src, c, hook, ended, env) =
      (recs.clone(), subs.clone(), conn.clone(), src.clone(), c.clone(), hook.clone(), ended.clone(), env.clone());
    let pr = Sh::new(Some(probe.clone()));
    let connecting = Sh::new(false);
    Arc::new(move |a: u32| {
      if a == 0 {
        if recs.g().len() >= (if rx::tier() > 0 { 3 } else { 2 }) {
          rx::end();
        }
        rx::ev("subscribe");
        let r = Rec::new("C13", "C13");
        r.s().free = true;
        r.s().hook = hook.g().clone();
        let i = recs.g().len();
        recs.g().push(r.clone());
        subs.g().push(None);
        let c2 = c.g().clone().unwrap();
        let p = pr.g().clone().unwrap();
        let sub = r.observe(&(c2.ob)(), &p);
        rx::check(!sub.is_subscribed() || r.live(), "C05:is_subscribed() is true after the end");
        subs.g()[i] = Some(sub);
      } else if a == 1 {
        if recs.g().len() == 0 {
          rx::end();
        }
        let i = rx::choose(recs.g().len() as u32) as usize;
        let sub = subs.g()[i].clone();
        if let Some(sub) = sub {
          rx::ev("unsubscribe");
          sub.unsubscribe();
          recs.g()[i].s().unsub = true;
          rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after the end");
        }
      } else if a < 5 {
        let up = src.g().up.clone();
        if let Some(up) = up {
          if a == 2 {
            rx::ev("source: next");
            up.next(PTok::mk(&env));
          } else if a == 3 {
            rx::ev("source: complete");
            *ended.g() = true;
            up.complete();
          } else {
            rx::ev("source: error");
            *ended.g() = true;
            up.error(mkerr(fresh_err()));
          }
        }
      } else if a == 5 {
        if k != CK::Pub {
          return;
        }
        if conn.g().is_some() {
          rx::ev("disconnect");
          let x = conn.g().take();
          if let Some(x) = x {
            x.unsubscribe();
          }
        } else {
          if *connecting.g() {
            return;
          }
          *connecting.g() = true;
          rx::ev("connect");
          let c2 = c.g().clone().unwrap();
          let f = c2.conn.clone().unwrap();
          let x = f();
          *connecting.g() = false;
          *conn.g() = Some(x);
        }
      }
    })
  };
  {
    let (budget, act) = (budget.clone(), act.clone());
    *hook.g() = Some(Arc::new(move |_: &Ev| {
      if *budget.g() == 0 {
        return;
      }
      let a = rx::choose(7);
      if a == 6 {
        return;
      }
      *budget.g() -= 1;
      rx::ev("    callback:");
      act(a);
    }));
  }
  let mut steps = 0;
  loop {
    rx::boundary();
    *budget.g() = 1;
    let a = rx::choose(6);
    if a == 2 {
      steps += 1;
      if steps > 2 {
        rx::end();
      }
    }
    act(a);
    if *ended.g() {
      // what a connectable does after the source's end is checked elsewhere
      let n = live_ups(&src);
      rx::check(n <= 1 || k == CK::Pub, "C13:a second source subscription at the same time");
      rx::end();
    }
    let mut live = false;
    let mut i = 0;
    while i < recs.g().len() {
      if recs.g()[i].live() {
        live = true;
      }
      if let Some(sub) = &subs.g()[i] {
        rx::check(sub.is_subscribed() == recs.g()[i].live(), "C05,C13:is_subscribed() is wrong");
      }
      i += 1;
    }
    let n = live_ups(&src);
    if k == CK::Pub {
      rx::check(n == 1 || conn.g().is_none(), "C13:the source is cut off while connected");
      rx::check(n == 0 || conn.g().is_some(), "C13,C06:the source still sees is_subscribed() after the disconnect");
    } else if live {
      rx::check(n == 1, "C13:the source is cut off while somebody listens");
    } else {
      rx::check(n == 0, "C13,C06:the source still sees is_subscribed() although nobody listens");
    }
  }
}

/// several threads
#[derive(Clone, Copy, PartialEq)]
pub enum CM {
  /// two subscribers arrive at the same time
  Join2,
  /// the only subscriber leaves while another arrives
  Swap,
  /// a subscriber arrives while the source emits
  Late,
  /// a subscriber arrives while the source emits and completes
  LateEnd,
  /// the only subscriber leaves while the source completes
  EndLeave,
  /// two subscribers leave at the same time
  Leave2,
  /// two subscribers arrive, the source emits and completes inside subscribe
  Cold2,
}
fn cconc(k: CK, m: CM) {
  rx::set_props("C13,C12");
  let env = Env::new(0);
  let src = Sh::new(Src { ups: Vec::new(), up: None, count: 0 });
  let sent: Sh<Vec<Val>> = Sh::new(Vec::new());
  let (s2, se2) = (src.clone(), sent.clone());
  let en2 = Sh::new(Some(env.clone()));
  let o: Obs<PTok> = Observable::create(move |s: Observer<'static, PTok>| {
    rx::ev("  source subscribed");
    rx::check(k == CK::Pub || live_ups(&s2) == 0, "C13:a second source subscription at the same time");
    s2.g().count += 1;
    s2.g().ups.push(s.clone());
    s2.g().up = Some(s.clone());
    if m == CM::Cold2 {
      let mut i = 0;
      while i < 2 {
        let x = PTok::mk(en2.g().as_ref().unwrap());
        rx::ev_val("  source: next", &x.val());
        if s2.g().count == 1 {
          se2.g().push(x.val());
        }
        s.next(x);
        i += 1;
      }
      rx::ev("  source: complete");
      s.complete();
    }
  });
  let c = mk(k, &o);
  let (a, b) = (CRec::new("C13,C19"), CRec::new("C13,C19"));
  let (pa, pb) = (Arc::new(()), Arc::new(()));
  let mut suba = None;
  let mut subb = None;
  if m != CM::Join2 && m != CM::Cold2 {
    suba = Some(a.observe(&(c.ob)(), &pa));
  }
  if m == CM::Leave2 {
    subb = Some(b.observe(&(c.ob)(), &pb));
  }
  let conn = if k == CK::Pub && m != CM::Cold2 {
    let f = c.conn.clone().unwrap();
    Some(f())
  } else {
    None
  };
  rx::conc(3);
  // the other thread
  let got: Sh<Option<Subscription<'static>>> = Sh::new(None);
  {
    let (a, b, c, src, sent, env, got, sub, pa) =
      (a.clone(), b.clone(), c.clone(), src.clone(), sent.clone(), Sh::new(Some(env.clone())), got.clone(), suba.clone(), pa.clone());
    thread::spawn(move || match m {
      CM::Join2 | CM::Cold2 => {
        rx::ev("other: subscribe");
        let s = a.observe(&(c.ob)(), &pa);
        *got.g() = Some(s);
      }
      CM::Swap | CM::Leave2 => {
        rx::ev("other: unsubscribe");
        sub.unwrap().unsubscribe();
        a.s().unsub = true;
      }
      CM::EndLeave => {
        let up = src.g().up.clone().unwrap();
        rx::ev("source: complete");
        a.emitting();
        up.complete();
      }
      CM::Late | CM::LateEnd => {
        let up = src.g().up.clone().unwrap();
        let mut i = 0;
        while i < 2 {
          let x = PTok::mk(env.g().as_ref().unwrap());
          rx::ev_val("source: next", &x.val());
          sent.g().push(x.val());
          a.emitting();
          b.emitting();
          up.next(x);
          i += 1;
        }
        if m == CM::LateEnd {
          rx::ev("source: complete");
          a.emitting();
          b.emitting();
          up.complete();
        }
      }
    });
  }
  if m == CM::Cold2 && k == CK::Pub {
    rx::ev("connect");
    let f = c.conn.clone().unwrap();
    f();
  } else if m == CM::Join2 || m == CM::Swap || m == CM::Late || m == CM::LateEnd || m == CM::Cold2 {
    rx::ev("main: subscribe");
    subb = Some(b.observe(&(c.ob)(), &pb));
  } else if m == CM::EndLeave {
    rx::ev("main: unsubscribe");
    suba.clone().unwrap().unsubscribe();
    a.s().unsub = true;
  } else {
    rx::ev("main: unsubscribe");
    subb.clone().unwrap().unsubscribe();
    b.s().unsub = true;
  }
  rx::settle();
  let n = live_ups(&src);
  match m {
    CM::Join2 | CM::Swap => {
      rx::check(n == 1, "C13:not exactly one source subscription");
      if m == CM::Join2 {
        rx::check(src.g().count == 1, "C13:the source is subscribed twice");
      }
      let up = src.g().up.clone().unwrap();
      let x = PTok::mk(&env);
      rx::ev_val("source: next", &x.val());
      a.emitting();
      b.emitting();
      up.next(x.clone());
      let ib = b.items();
      rx::check(ib.len() == 1 && vsame(&ib[0], &x.val()), "C13:a subscriber does not get the item");
      let ia = a.items();
      if m == CM::Join2 {
        rx::check(ia.len() == 1 && vsame(&ia[0], &x.val()), "C13:a subscriber does not get the item");
      } else {
        rx::check(ia.len() == 0, "C13,C05:item after unsubscribe");
        rx::check(Arc::strong_count(&pa) == 1, "C13,C17,C06:an observer that has left is still held");
      }
    }
    CM::Late | CM::LateEnd => {
      seq(&a.items(), sent.g(), 0);
      if m == CM::LateEnd {
        rx::check(a.terminal() == 1, "C13:the terminal is lost");
        rx::check(a.terminal_is_last(), "C13:terminal before the last item");
        rx::check(n == 0 || k != CK::Rep, "C13,C06:the source still sees is_subscribed() after its end");
      } else {
        rx::check(n == 1, "C13:not exactly one source subscription");
      }
      let ib = b.items();
      if k == CK::Rep {
        seq(&ib, sent.g(), 0);
        if m == CM::LateEnd {
          rx::check(b.terminal() == 1, "C13:a late subscriber never gets the terminal");
          rx::check(b.terminal_is_last(), "C13:terminal before the last item");
        }
      } else {
        rx::check(ib.len() <= sent.g().len(), "C13:an item delivered twice");
        seq(&ib, sent.g(), sent.g().len() - ib.len());
      }
    }
    CM::Leave2 | CM::EndLeave => {
      rx::check(n == 0 || k == CK::Pub, "C13,C06:the source still sees is_subscribed() although nobody listens");
      rx::check(Arc::strong_count(&pa) == 1, "C13,C17,C06:an observer that has ended is still held");
      rx::check(Arc::strong_count(&pb) == 1, "C13,C17,C06:an observer that has ended is still held");
    }
    CM::Cold2 => {
      rx::check(n == 0, "C13,C06:the source still sees is_subscribed() after its end");
      if k == CK::Rep {
        seq(&a.items(), sent.g(), 0);
        seq(&b.items(), sent.g(), 0);
        rx::check(a.terminal() == 1 && b.terminal() == 1, "C13:the terminal is lost");
        rx::check(src.g().count == 1, "C13:the source is subscribed twice");
      } else if k == CK::Pub {
        let ia = a.items();
        rx::check(ia.len() <= 2, "C13:an item delivered twice");
        seq(&ia, sent.g(), 2 - ia.len());
      }
    }
  }
  drop(conn);
  rx::end();
}
/// `g` is `s[from..]`
fn seq(g: &Vec<Val>, s: &Vec<Val>, from: usize) {
  rx::check(g.len() <= s.len() - from, "C13,C12:an item delivered twice");
  rx::check(g.len() >= s.len() - from, "C13,C12:an item is lost");
  let mut i = 0;
  while i < g.len() && i + from < s.len() {
    rx::check(vsame(&g[i], &s[i + from]), "C13,C12:another item, or items out of order");
    i += 1;
  }
}
macro_rules! cs {
  ($($k:ident: $a:ident $b:ident $c:ident $d:ident $e:ident $f:ident $r0:ident $r1:ident $z0:ident $z1:ident $x1:ident $x2:ident $x3:ident $x4:ident $x5:ident $x6:ident $x7:ident;)*) => { $(
    pub fn $a() { hist(CK::$k, HM { sync: 0, sync_end: false, take: false, ghost: false }) }
    pub fn $b() { hist(CK::$k, HM { sync: 0, sync_end: false, take: true, ghost: false }) }
    pub fn $c() { hist(CK::$k, HM { sync: 2, sync_end: false, take: false, ghost: false }) }
    pub fn $d() { hist(CK::$k, HM { sync: 2, sync_end: false, take: true, ghost: false }) }
    pub fn $e() { hist(CK::$k, HM { sync: 2, sync_end: true, take: false, ghost: false }) }
    pub fn $f() { hist(CK::$k, HM { sync: 2, sync_end: true, take: true, ghost: false }) }
    pub fn $r0() { creent(CK::$k, 0) }
    pub fn $r1() { creent(CK::$k, 1) }
    pub fn $z0() { hist(CK::$k, HM { sync: 0, sync_end: false, take: false, ghost: true }) }
    pub fn $z1() { hist(CK::$k, HM { sync: 2, sync_end: false, take: false, ghost: true }) }
    pub fn $x1() { cconc(CK::$k, CM::Join2) }
    pub fn $x2() { cconc(CK::$k, CM::Swap) }
    pub fn $x3() { cconc(CK::$k, CM::Late) }
    pub fn $x4() { cconc(CK::$k, CM::LateEnd) }
    pub fn $x5() { cconc(CK::$k, CM::EndLeave) }
    pub fn $x6() { cconc(CK::$k, CM::Leave2) }
    pub fn $x7() { cconc(CK::$k, CM::Cold2) }
  )* };
}
cs! {
  Pub: sc_conn_pub_hot sc_conn_pub_hot_take sc_conn_pub_warm sc_conn_pub_warm_take sc_conn_pub_cold sc_conn_pub_cold_take sc_connr_pub_hot sc_connr_pub_warm sc_connz_pub_hot sc_connz_pub_warm
    sc_connc_pub_join sc_connc_pub_swap sc_connc_pub_late sc_connc_pub_end sc_connc_pub_endleave sc_connc_pub_leave sc_connc_pub_cold;
  Ref: sc_conn_ref_hot sc_conn_ref_hot_take sc_conn_ref_warm sc_conn_ref_warm_take sc_conn_ref_cold sc_conn_ref_cold_take sc_connr_ref_hot sc_connr_ref_warm sc_connz_ref_hot sc_connz_ref_warm
    sc_connc_ref_join sc_connc_ref_swap sc_connc_ref_late sc_connc_ref_end sc_connc_ref_endleave sc_connc_ref_leave sc_connc_ref_cold;
  Rep: sc_conn_rep_hot sc_conn_rep_hot_take sc_conn_rep_warm sc_conn_rep_warm_take sc_conn_rep_cold sc_conn_rep_cold_take sc_connr_rep_hot sc_connr_rep_warm sc_connz_rep_hot sc_connz_rep_warm
    sc_connc_rep_join sc_connc_rep_swap sc_connc_rep_late sc_connc_rep_end sc_connc_rep_endleave sc_connc_rep_leave sc_connc_rep_cold;
}
