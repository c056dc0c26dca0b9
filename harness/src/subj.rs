//! The four subjects: call histories and concurrent use.
use crate::conc::CRec;
use crate::core::*;
use crate::run::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;
use std::thread;

#[derive(Clone, Copy, PartialEq)]
pub enum K {
  Plain,
  Behavior,
  Replay,
  Async,
}
pub trait Subj<T: ItemT>: Clone + Send + Sync + 'static {
  fn mk(x: T) -> Self;
  fn nx(&self, x: T);
  fn er(&self, e: RxError);
  fn co(&self);
  fn ob(&self) -> Obs<T>;
  fn kind() -> K;
}
macro_rules! subj {
  ($t:ty, $k:expr, |$x:ident| $mk:expr) => {
    impl<T: ItemT> Subj<T> for $t {
      fn mk($x: T) -> Self { $mk }
      fn nx(&self, x: T) { self.next(x) }
      fn er(&self, e: RxError) { self.error(e) }
      fn co(&self) { self.complete() }
      fn ob(&self) -> Obs<T> { self.observable() }
      fn kind() -> K { $k }
    }
  };
}
pub type SPlain<T> = subjects::Subject<'static, T>;
pub type SBehavior<T> = subjects::BehaviorSubject<'static, T>;
pub type SReplay<T> = subjects::ReplaySubject<'static, T>;
pub type SAsync<T> = subjects::AsyncSubject<'static, T>;
subj!(SPlain<T>, K::Plain, |_x| subjects::Subject::new());
subj!(SBehavior<T>, K::Behavior, |x| subjects::BehaviorSubject::new(x));
subj!(SReplay<T>, K::Replay, |_x| subjects::ReplaySubject::new());
subj!(SAsync<T>, K::Async, |_x| subjects::AsyncSubject::new());

/// what a subject has to remember
pub struct Model {
  k: K,
  last: Option<Val>,
  hist: Vec<Val>,
  /// 0 = open, 1 = completed, 2 = failed
  end: u32,
  err: Option<ETok>,
}
impl Model {
  pub fn new(k: K, x: Val) -> Model {
    Model { k, last: if k == K::Behavior { Some(x) } else { None }, hist: Vec::new(), end: 0, err: None }
  }
  fn terminal(&self, r: &Rec) {
    if self.end == 1 {
      r.c();
    } else if self.end == 2 {
      if let Some(e) = self.err {
        r.e(e);
      }
    }
  }
  /// what a new observer is handed at once
  pub fn hand_over(&self, r: &Rec) {
    match self.k {
      K::Plain => {}
      K::Behavior => {
        if self.end == 0 {
          if let Some(x) = &self.last {
            r.n(x.clone());
          }
        } else {
          self.terminal(r);
        }
      }
      K::Replay => {
        let mut i = 0;
        while i < self.hist.len() {
          r.n(self.hist[i].clone());
          i += 1;
        }
        self.terminal(r);
      }
      K::Async => {
        if self.end == 1 {
          if let Some(x) = &self.last {
            r.n(x.clone());
          }
        }
        self.terminal(r);
      }
    }
  }
  pub fn next(&mut self, x: &Val, live: &Vec<Rec>) {
    if self.end != 0 {
      return;
    }
    self.last = Some(x.clone());
    if self.k == K::Replay {
      self.hist.push(x.clone());
    }
    if self.k != K::Async {
      let mut i = 0;
      while i < live.len() {
        live[i].n(x.clone());
        i += 1;
      }
    }
  }
  pub fn finish(&mut self, e: Option<ETok>, live: &Vec<Rec>) {
    if self.end != 0 {
      return;
    }
    self.end = if e.is_some() { 2 } else { 1 };
    self.err = e;
    let mut i = 0;
    while i < live.len() {
      if self.k == K::Async && self.end == 1 {
        if let Some(x) = &self.last {
          live[i].n(x.clone());
        }
      }
      self.terminal(&live[i]);
      i += 1;
    }
  }
}

/// all call histories with up to three observers, one of them behind an operator
pub fn hist<T: ItemT + ToVal, S: Subj<T>>() {
  rx::set_props("C10");
  let env = Env::new(0);
  let x0 = T::mk(&env);
  let s = S::mk(x0.clone());
  let mut m = Model::new(S::kind(), x0.val());
  drop(x0);
  let mut recs: Vec<Rec> = Vec::new();
  let mut subs: Vec<Subscription<'static>> = Vec::new();
  let mut probes: Vec<Arc<()>> = Vec::new();
  let max = if rx::tier() > 0 { 3 } else { 2 };
  loop {
    rx::boundary();
    let a = rx::choose(6);
    if a == 0 {
      if recs.len() >= 3 {
        rx::end();
      }
      if m.k == K::Plain && m.end != 0 {
        // not specified
        rx::end();
      }
      let r = Rec::new("C10", "C10");
      let p = Arc::new(());
      m.hand_over(&r);
      // the first observer listens through an operator
      let sub = if recs.len() == 0 {
        rx::ev("subscribe, through an operator");
        r.observe(&s.ob().filter(|_x| true), &p)
      } else {
        rx::ev("subscribe");
        r.observe(&s.ob(), &p)
      };
      recs.push(r);
      subs.push(sub);
      probes.push(p);
    } else if a == 1 {
      if subs.len() == 0 {
        rx::end();
      }
      let i = rx::choose(subs.len() as u32) as usize;
      rx::ev("unsubscribe");
      subs[i].unsubscribe();
      recs[i].s().unsub = true;
      recs[i].s().late = true;
    } else if a == 2 {
      let x = T::mk(&env);
      rx::ev_val("next", &x.val());
      m.next(&x.val(), &recs);
      if m.hist.len() > max {
        rx::end();
      }
      s.nx(x);
    } else if a == 3 {
      let e = fresh_err();
      rx::ev("error");
      m.finish(Some(e), &recs);
      s.er(mkerr(e));
    } else if a == 4 {
      rx::ev("complete");
      m.finish(None, &recs);
      s.co();
    } else {
      rx::ev("drop the subject");
      drop(s);
      let mut i = 0;
      let mut any = false;
      while i < subs.len() {
        if recs[i].live() {
          any = true;
        }
        i += 1;
      }
      if any {
        rx::end();
      }
      drop(subs);
      drop(recs);
      i = 0;
      while i < probes.len() {
        rx::check(Arc::strong_count(&probes[i]) == 1, "C17,C10:callbacks still owned after the end");
        i += 1;
      }
      rx::check(Arc::strong_count(&env.items) == 1, "C17:items still owned after the subject is gone");
      rx::end();
    }
    let mut i = 0;
    while i < subs.len() {
      recs[i].settled();
      status(&subs[i], &recs[i]);
      if !recs[i].live() {
        rx::check(Arc::strong_count(&probes[i]) == 1, "C10,C17,C06:the subject holds an observer that has ended");
      }
      i += 1;
    }
  }
}

/// callbacks that call back into the subject
pub fn sreent<T: ItemT + ToVal, S: Subj<T>>() {
  rx::set_props("C07");
  let env = Env::new(0);
  let x0 = T::mk(&env);
  let s = S::mk(x0);
  let sl = Sh::new(Some(s));
  let recs: Sh<Vec<Rec>> = Sh::new(Vec::new());
  let subs: Sh<Vec<Option<Subscription<'static>>>> = Sh::new(Vec::new());
  let probe = Arc::new(());
  let budget = Sh::new(0u32);
  let limit = if rx::tier() > 0 { 2 } else { 1 };
  let hook: Sh<Option<Arc<dyn Fn(&Ev) + Send + Sync>>> = Sh::new(None);
  let subscribe: Cb = {
    let (recs, subs, sl, probe, hook) = (recs.clone(), subs.clone(), sl.clone(), Sh::new(Some(probe.clone())), hook.clone());
    let pr = probe.g().take().unwrap();
    let weak = Arc::downgrade(&pr);
    drop(pr);
    Arc::new(move || {
      let s = sl.g().clone();
      let p = weak.upgrade();
      if let (Some(s), Some(p)) = (s, p) {
        let r = Rec::new("C10", "C10");
        r.s().free = true;
        r.s().hook = hook.g().clone();
        let i = recs.g().len();
        recs.g().push(r.clone());
        subs.g().push(None);
        let sub = r.observe(&s.ob(), &p);
        rx::check(!sub.is_subscribed() || r.live(), "C05:is_subscribed() is true after the end");
        subs.g()[i] = Some(sub);
      }
    })
  };
  {
    let (recs, subs, sl, budget, subscribe, env) = (recs.clone(), subs.clone(), sl.clone(), budget.clone(), subscribe.clone(), Sh::new(Some(env.clone())));
    let items = Arc::downgrade(&env.g().as_ref().unwrap().items);
    drop(env.g().take());
    *hook.g() = Some(Arc::new(move |_: &Ev| {
      if *budget.g() == 0 {
        return;
      }
      let a = rx::choose(6);
      if a == 0 {
        return;
      }
      *budget.g() -= 1;
      let s = sl.g().clone();
      if let Some(s) = s {
        if a == 1 {
          if recs.g().len() >= 3 {
            rx::end();
          }
          rx::ev("    callback: subscribe");
          subscribe();
        } else if a == 2 {
          let i = rx::choose(subs.g().len() as u32) as usize;
          let sub = subs.g()[i].clone();
          if let Some(sub) = sub {
            rx::ev("    callback: unsubscribe");
            sub.unsubscribe();
            recs.g()[i].s().unsub = true;
            rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after the end");
          }
        } else if a == 3 {
          rx::ev("    callback: next");
          if items.upgrade().is_some() {
            let e2 = Env::new(0);
            s.nx(T::mk(&e2));
          }
        } else if a == 4 {
          rx::ev("    callback: error");
          s.er(mkerr(fresh_err()));
        } else {
          rx::ev("    callback: complete");
          s.co();
        }
      }
    }));
  }
  let mut nexts = 0;
  loop {
    rx::boundary();
    *budget.g() = limit;
    let a = rx::choose(6);
    let s = sl.g().clone().unwrap();
    if a == 0 {
      if recs.g().len() >= 2 {
        rx::end();
      }
      rx::ev("subscribe");
      subscribe();
    } else if a == 1 {
      if subs.g().len() == 0 {
        rx::end();
      }
      let i = rx::choose(subs.g().len() as u32) as usize;
      rx::ev("unsubscribe");
      let sub = subs.g()[i].clone();
      if let Some(sub) = sub {
        sub.unsubscribe();
      }
      recs.g()[i].s().unsub = true;
      recs.g()[i].s().late = true;
    } else if a == 2 {
      nexts += if S::kind() == K::Replay { 1 } else { 0 };
      if nexts > 2 {
        rx::end();
      }
      rx::ev("next");
      s.nx(T::mk(&env));
    } else if a == 3 {
      rx::ev("error");
      s.er(mkerr(fresh_err()));
    } else if a == 4 {
      rx::ev("complete");
      s.co();
    } else {
      let mut i = 0;
      while i < recs.g().len() {
        if recs.g()[i].live() {
          rx::end();
        }
        recs.g()[i].s().hook = None;
        i += 1;
      }
      rx::check(Arc::strong_count(&probe) == 1, "C10,C17,C06:the subject holds an observer that has ended");
      rx::end();
    }
    drop(s);
    let mut i = 0;
    while i < recs.g().len() {
      if let Some(sub) = &subs.g()[i] {
        rx::check(!sub.is_subscribed() || recs.g()[i].live(), "C05:is_subscribed() is true after the end");
      }
      i += 1;
    }
  }
}

/// producers, a late subscriber and a leaving subscriber on different threads
#[derive(Clone, Copy)]
pub struct SMode {
  pub producers: usize,
  pub join: bool,
  pub leave: bool,
  /// 0 = nobody ends it, 1 = a producer completes at its end, 2 = another thread completes, 3 = another thread fails
  pub end: u32,
}
pub fn sconc<S: Subj<Tok>>(m: SMode) {
  rx::set_props("C12,C19");
  let env = Env::new(0);
  let x0 = Tok::mk(&env);
  let k = S::kind();
  let s = S::mk(x0);
  let cp = if m.end > 1 { "C19,C12,C01" } else { "C12,C19,C01" };
  let (a, b, c) = (CRec::new(cp), CRec::new(cp), CRec::new(cp));
  let (pa, pb, pc) = (Arc::new(()), Arc::new(()), Arc::new(()));
  let sent: Sh<Vec<Vec<Val>>> = Sh::new(Vec::new());
  let ending = Sh::new(0u32);
  let suba = a.observe(&s.ob(), &pa);
  let subc = if m.leave { Some(c.observe(&s.ob(), &pc)) } else { None };
  rx::conc(2);
  let mut i = 0;
  while i < m.producers {
    sent.g().push(Vec::new());
    let (s, a, b, c, sent) = (s.clone(), a.clone(), b.clone(), c.clone(), sent.clone());
    let fin = m.end == 1 && i == 0;
    thread::spawn(move || {
      let e2 = Env::new(0);
      let mut n = 0;
      while n < 2 {
        let x = Tok::mk(&e2);
        rx::ev_val(if i == 0 { "producer 0: next" } else { "producer 1: next" }, &x.val());
        sent.g()[i].push(x.val());
        a.emitting();
        b.emitting();
        c.emitting();
        s.nx(x);
        n += 1;
      }
      if fin {
        rx::ev("producer 0: complete");
        a.emitting();
        b.emitting();
        c.emitting();
        s.co();
      }
    });
    i += 1;
  }
  if m.end > 1 {
    let (s, a, b, c) = (s.clone(), a.clone(), b.clone(), c.clone());
    let err = m.end == 3;
    thread::spawn(move || {
      a.emitting();
      b.emitting();
      c.emitting();
      if err {
        rx::ev("third thread: error");
        s.er(mkerr(fresh_err()));
      } else {
        rx::ev("third thread: complete");
        s.co();
      }
    });
  }
  let mut subb = None;
  if m.join {
    rx::ev("late subscriber: subscribe");
    subb = Some(b.observe(&s.ob(), &pb));
  }
  if let Some(sc) = &subc {
    rx::ev("leaving subscriber: unsubscribe");
    sc.unsubscribe();
    c.s().unsub = true;
    rx::check(!sc.is_subscribed(), "C05:is_subscribed() is true after unsubscribe");
  }
  rx::settle();
  let ended = m.end != 0;
  // who stayed gets everything
  if ended {
    rx::check(a.terminal() == if m.end == 3 { 2 } else { 1 }, "C12,C19,C10:the terminal is lost");
    rx::check(!suba.is_subscribed(), "C05:is_subscribed() is true after the end");
    rx::check(Arc::strong_count(&pa) == 1, "C10,C17,C06:the subject holds an observer that has ended");
  }
  if m.end <= 1 && !(m.end == 1 && m.producers > 1) {
    all_items(k, &x0, &a, &sent, false);
    if ended {
      rx::check(a.terminal_is_last(), "C12,C19:terminal before the last item");
    }
  }
  if m.join {
    if ended && k != K::Plain {
      rx::check(b.terminal() == if m.end == 3 { 2 } else { 1 }, "C12,C10:a late subscriber never gets the terminal");
      rx::check(Arc::strong_count(&pb) == 1, "C10,C17,C06:the subject holds an observer that has ended");
    }
    if !ended {
      match k {
        K::Replay => all_items(k, &x0, &b, &sent, false),
        K::Plain => suffix(&b.items(), &sent, 0),
        K::Behavior => {
          let g = b.items();
          rx::check(g.len() > 0, "C12,C10:a late subscriber gets no value");
          // the initial value, then everything, or a suffix
          if vsame(&g[0], &x0.val()) {
            all_items(k, &x0, &b, &sent, true);
          } else {
            suffix(&g, &sent, 1);
          }
        }
        K::Async => rx::check(b.items().len() == 0, "C10,C12:an item before completion"),
      }
    } else if m.end == 1 && m.producers == 1 {
      match k {
        K::Replay => all_items(k, &x0, &b, &sent, false),
        K::Async => all_items(k, &x0, &b, &sent, false),
        _ => {}
      }
    }
  }
  if m.leave {
    let g = c.items();
    prefix(&g, if k == K::Behavior { 1 } else { 0 }, &sent);
    rx::check(Arc::strong_count(&pc) == 1, "C10,C17,C06:the subject holds an observer that has left");
  }
  drop(subb);
  rx::end();
}
fn find(v: &Val, sent: &Sh<Vec<Vec<Val>>>) -> (usize, usize) {
  let s = sent.g();
  let mut i = 0;
  while i < s.len() {
    let mut j = 0;
    while j < s[i].len() {
      if vsame(&s[i][j], v) {
        return (i, j);
      }
      j += 1;
    }
    i += 1;
  }
  (99, 0)
}
/// every item once, each producer's in its order
fn all_items(k: K, x0: &Tok, r: &CRec, sent: &Sh<Vec<Vec<Val>>>, _late: bool) {
  let g = r.items();
  let s = sent.g();
  if k == K::Async {
    if r.terminal() == 1 {
      let l = &s[0][s[0].len() - 1];
      rx::check(g.len() == 1 && vsame(&g[0], l), "C10,C12:not the last item");
    } else {
      rx::check(g.len() == 0, "C10,C12:an item before completion");
    }
    return;
  }
  let first = if k == K::Behavior { 1 } else { 0 };
  if first == 1 {
    rx::check(g.len() > 0 && vsame(&g[0], &x0.val()), "C10,C12:the current value is not handed over");
  }
  let mut pos = Vec::new();
  let mut i = 0;
  while i < s.len() {
    pos.push(0usize);
    i += 1;
  }
  i = first;
  while i < g.len() {
    let (p, j) = find(&g[i], sent);
    rx::check(p != 99, "C12:an item nobody sent");
    rx::check(j == pos[p], "C12:item duplicated or reordered");
    pos[p] += 1;
    i += 1;
  }
  i = 0;
  while i < s.len() {
    rx::check(pos[i] == s[i].len(), "C12:item lost");
    i += 1;
  }
}
/// per producer a gap-free suffix
fn suffix(g: &Vec<Val>, sent: &Sh<Vec<Vec<Val>>>, _from: usize) {
  let s = sent.g();
  let mut pos: Vec<Option<usize>> = Vec::new();
  let mut i = 0;
  while i < s.len() {
    pos.push(None);
    i += 1;
  }
  i = 0;
  while i < g.len() {
    let (p, j) = find(&g[i], sent);
    rx::check(p != 99, "C12:an item nobody sent");
    if let Some(q) = pos[p] {
      rx::check(j == q, "C12:a gap, a duplicate or a reordering in a late subscriber's items");
    }
    pos[p] = Some(j + 1);
    i += 1;
  }
  i = 0;
  while i < s.len() {
    if let Some(q) = pos[i] {
      rx::check(q == s[i].len(), "C12:a late subscriber loses an item");
    }
    i += 1;
  }
}
fn prefix(g: &Vec<Val>, from: usize, sent: &Sh<Vec<Vec<Val>>>) {
  let s = sent.g();
  let mut pos = Vec::new();
  let mut i = 0;
  while i < s.len() {
    pos.push(0usize);
    i += 1;
  }
  i = from;
  while i < g.len() {
    let (p, j) = find(&g[i], sent);
    rx::check(p != 99, "C12:an item nobody sent");
    rx::check(j == pos[p], "C12:a leaving subscriber's items have a gap or are reordered");
    pos[p] += 1;
    i += 1;
  }
}
/// several threads that all come or go
#[derive(Clone, Copy, PartialEq)]
pub enum JM {
  /// two subscribe
  Join2,
  /// two subscribe while a third leaves
  Join2Leave,
  /// one subscribes, one leaves, one emits
  JoinLeaveNext,
  /// two leave while a third emits
  Leave2Next,
  /// one completes, the other fails
  Ends,
  /// two emit, a third subscribes
  Join2Next,
}
pub fn sjoin<S: Subj<Tok>>(m: JM) {
  rx::set_props("C12,C19");
  let env = Env::new(0);
  let x0 = Tok::mk(&env);
  let k = S::kind();
  let s = S::mk(x0.clone());
  let cp = "C12,C19,C01";
  let (a, b, c, d) = (CRec::new(cp), CRec::new(cp), CRec::new(cp), CRec::new(cp));
  let (pa, pb, pc, pd) = (Arc::new(()), Arc::new(()), Arc::new(()), Arc::new(()));
  // what was sent before anything races
  let y = Tok::mk(&env);
  s.nx(y.clone());
  // c leaves, a stays, b and d come
  let suba = a.observe(&s.ob(), &pa);
  let subc = c.observe(&s.ob(), &pc);
  let subd: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let mut subb = None;
  let raced: Sh<Vec<Val>> = Sh::new(Vec::new());
  rx::conc(2);
  let nexts = m == JM::JoinLeaveNext || m == JM::Leave2Next || m == JM::Join2Next;
  if nexts {
    let (s, raced, a, b, c, d) = (s.clone(), raced.clone(), a.clone(), b.clone(), c.clone(), d.clone());
    thread::spawn(move || {
      let e2 = Env::new(0);
      let mut i = 0;
      let n = if rx::tier() > 0 || k == K::Plain || k == K::Behavior { 2 } else { 1 };
      while i < n {
        let x = Tok::mk(&e2);
        rx::ev_val("producer: next", &x.val());
        raced.g().push(x.val());
        a.emitting();
        b.emitting();
        c.emitting();
        d.emitting();
        s.nx(x);
        i += 1;
      }
    });
  }
  if m == JM::Join2Leave || m == JM::JoinLeaveNext {
    let (c, subc) = (c.clone(), subc.clone());
    thread::spawn(move || {
      rx::ev("third: unsubscribe");
      subc.unsubscribe();
      c.s().unsub = true;
    });
  }
  if m == JM::Join2 || m == JM::Join2Leave || m == JM::Join2Next {
    let (s, d, subd, pd) = (s.clone(), d.clone(), subd.clone(), pd.clone());
    thread::spawn(move || {
      rx::ev("other: subscribe");
      let x = d.observe(&s.ob(), &pd);
      *subd.g() = Some(x);
    });
  }
  if m == JM::Leave2Next {
    let (c, subc) = (c.clone(), subc.clone());
    thread::spawn(move || {
      rx::ev("other: unsubscribe");
      subc.unsubscribe();
      c.s().unsub = true;
    });
    rx::ev("main: unsubscribe");
    suba.unsubscribe();
    a.s().unsub = true;
  } else if m == JM::Ends {
    let (s2, a, c) = (s.clone(), a.clone(), c.clone());
    thread::spawn(move || {
      rx::ev("other: error");
      a.emitting();
      c.emitting();
      s2.er(mkerr(fresh_err()));
    });
    rx::ev("main: complete");
    s.co();
  } else {
    rx::ev("main: subscribe");
    subb = Some(b.observe(&s.ob(), &pb));
  }
  rx::settle();
  if m == JM::Ends {
    rx::check(a.terminal() != 0 && c.terminal() != 0, "C12,C19,C10:the terminal is lost");
    rx::check(!suba.is_subscribed() && !subc.is_subscribed(), "C05:is_subscribed() is true after the end");
    rx::check(Arc::strong_count(&pa) == 1 && Arc::strong_count(&pc) == 1, "C10,C17,C06:the subject holds an observer that has ended");
    if k != K::Plain {
      b.emitting();
      b.observe(&s.ob(), &pb);
      rx::check(b.terminal() != 0, "C10,C12:a late subscriber never gets the terminal");
      if k == K::Replay {
        let g = b.items();
        rx::check(g.len() == 1 && vsame(&g[0], &y.val()), "C10,C12:a late subscriber does not get the history");
      }
      rx::check(Arc::strong_count(&pb) == 1, "C10,C17,C06:the subject holds an observer that has ended");
    }
    rx::end();
  }
  // who left holds nothing
  let aleft = m == JM::Leave2Next;
  let cleft = m != JM::Join2 && m != JM::Join2Next;
  if cleft {
    rx::check(Arc::strong_count(&pc) == 1, "C10,C17,C06:the subject holds an observer that has left");
  }
  if aleft {
    rx::check(Arc::strong_count(&pa) == 1, "C10,C17,C06:the subject holds an observer that has left");
  }
  // everything goes to everyone who is there now
  let z = Tok::mk(&env);
  rx::ev_val("main: next", &z.val());
  a.emitting();
  b.emitting();
  c.emitting();
  d.emitting();
  s.nx(z.clone());
  rx::ev("main: complete");
  s.co();
  let last = z.val();
  // present from the start
  let mut want: Vec<Val> = Vec::new();
  if k == K::Behavior || k == K::Replay {
    want.push(y.val());
  }
  let mut i = 0;
  while i < raced.g().len() {
    want.push(raced.g()[i].clone());
    i += 1;
  }
  want.push(last.clone());
  if !aleft {
    whole(k, &a, &want, 0);
    rx::check(!suba.is_subscribed(), "C05:is_subscribed() is true after the end");
  } else {
    begin(k, &a, &want);
  }
  if cleft {
    begin(k, &c, &want);
  } else {
    whole(k, &c, &want, 0);
  }
  // came in between
  if subb.is_some() {
    whole(k, &b, &want, 1);
    rx::check(Arc::strong_count(&pb) == 1, "C10,C17,C06:the subject holds an observer that has ended");
  }
  if subd.g().is_some() {
    whole(k, &d, &want, 1);
    rx::check(Arc::strong_count(&pd) == 1, "C10,C17,C06:the subject holds an observer that has ended");
  }
  rx::end();
}
/// all of `want` and the terminal; who came late may miss the beginning
fn whole(k: K, r: &CRec, want: &Vec<Val>, late: usize) {
  let g = r.items();
  rx::check(r.terminal() == 1, "C12,C10:the terminal is lost");
  rx::check(r.terminal_is_last(), "C12,C19:terminal before the last item");
  if k == K::Async {
    rx::check(g.len() == 1 && vsame(&g[0], &want[want.len() - 1]), "C12,C10:not the last item");
    return;
  }
  rx::check(g.len() <= want.len(), "C12,C10:an item delivered twice");
  if late == 0 || k == K::Replay {
    rx::check(g.len() == want.len(), "C12,C10:an item is lost");
  }
  // a BehaviorSubject hands over a value before the next one comes, so the raced-in value may be missed by nobody
  rx::check(g.len() >= if k == K::Behavior { 2 } else { 1 }, "C12,C10:an item is lost");
  let o = want.len() - g.len();
  let mut i = 0;
  while i < g.len() {
    rx::check(vsame(&g[i], &want[i + o]), "C12,C10:another item, a gap, or items out of order");
    i += 1;
  }
}
fn begin(k: K, r: &CRec, want: &Vec<Val>) {
  let g = r.items();
  rx::check(r.terminal() == 0, "C05,C12:terminal after unsubscribe");
  rx::check(k != K::Async || g.len() == 0, "C10,C12:an item before completion");
  rx::check(g.len() < want.len(), "C05,C12:item after unsubscribe");
  let mut i = 0;
  while i < g.len() {
    rx::check(vsame(&g[i], &want[i]), "C12:a leaving subscriber's items have a gap or are reordered");
    i += 1;
  }
}
macro_rules! s_scs {
  ($($s:ident $h:ident $r:ident $c1:ident $c2:ident $c3:ident $c4:ident $c5:ident $j1:ident $j2:ident $j3:ident $j4:ident $j5:ident $j6:ident;)*) => { $(
    pub fn $j1() { sjoin::<$s<Tok>>(JM::Join2) }
    pub fn $j2() { sjoin::<$s<Tok>>(JM::Join2Leave) }
    pub fn $j3() { sjoin::<$s<Tok>>(JM::JoinLeaveNext) }
    pub fn $j4() { sjoin::<$s<Tok>>(JM::Leave2Next) }
    pub fn $j5() { sjoin::<$s<Tok>>(JM::Ends) }
    pub fn $j6() { sjoin::<$s<Tok>>(JM::Join2Next) }
    pub fn $h() { hist::<Tok, $s<Tok>>() }
    pub fn $r() { sreent::<Tok, $s<Tok>>() }
    pub fn $c1() { sconc::<$s<Tok>>(SMode { producers: 1, join: true, leave: true, end: 0 }) }
    pub fn $c2() { sconc::<$s<Tok>>(SMode { producers: 2, join: true, leave: false, end: 0 }) }
    pub fn $c3() { sconc::<$s<Tok>>(SMode { producers: 1, join: true, leave: false, end: 1 }) }
    pub fn $c4() { sconc::<$s<Tok>>(SMode { producers: 1, join: true, leave: false, end: 2 }) }
    pub fn $c5() { sconc::<$s<Tok>>(SMode { producers: 1, join: false, leave: true, end: 3 }) }
  )* };
}
s_scs! {
  SPlain sc_subj_plain sc_sreent_plain sc_sconc1_plain sc_sconc2_plain sc_sconc3_plain sc_sconc4_plain sc_sconc5_plain sc_sjoin1_plain sc_sjoin2_plain sc_sjoin3_plain sc_sjoin4_plain sc_sjoin5_plain sc_sjoin6_plain;
  SBehavior sc_subj_behavior sc_sreent_behavior sc_sconc1_behavior sc_sconc2_behavior sc_sconc3_behavior sc_sconc4_behavior sc_sconc5_behavior sc_sjoin1_behavior sc_sjoin2_behavior sc_sjoin3_behavior sc_sjoin4_behavior sc_sjoin5_behavior sc_sjoin6_behavior;
  SReplay sc_subj_replay sc_sreent_replay sc_sconc1_replay sc_sconc2_replay sc_sconc3_replay sc_sconc4_replay sc_sconc5_replay sc_sjoin1_replay sc_sjoin2_replay sc_sjoin3_replay sc_sjoin4_replay sc_sjoin5_replay sc_sjoin6_replay;
  SAsync sc_subj_async sc_sreent_async sc_sconc1_async sc_sconc2_async sc_sconc3_async sc_sconc4_async sc_sconc5_async sc_sjoin1_async sc_sjoin2_async sc_sjoin3_async sc_sjoin4_async sc_sjoin5_async sc_sjoin6_async;
}
