//! Most general clients of pipelines with several sources.
use crate::core::*;
use crate::rx;
use crate::run::*;
use another_rxrust::prelude::*;
use std::sync::Arc;

/// definition of a combining operator; sources are numbered from 0
pub trait MSpec {
  fn start(&mut self, _o: &Rec) {}
  fn next(&mut self, i: usize, x: &Val, o: &Rec);
  fn error(&mut self, _i: usize, e: ETok, o: &Rec) {
    o.e(e);
  }
  fn complete(&mut self, i: usize, o: &Rec);
  /// while the output is open: 0 = source i must not be subscribed, 1 = it must be, 2 = either
  fn want(&self, i: usize) -> u32;
  /// source i may still look subscribed after the end (amb's losers until they try to emit)
  fn lazy(&self, _i: usize) -> bool {
    false
  }
  /// what happens on a terminal of source i is not specified
  fn skip_error(&self, _i: usize) -> bool {
    false
  }
  fn skip_complete(&self, _i: usize) -> bool {
    false
  }
  /// a terminal of source i ends the output in any case
  fn main(&self, _i: usize) -> bool {
    false
  }
  /// at most that many items, whatever the input
  fn cap(&self) -> Option<u32> {
    None
  }
}
pub type BMSpec = Box<dyn MSpec>;

pub struct MOp<T: ItemT, X: Clone + Send + Sync + 'static> {
  pub b: fn(&Env, Vec<Obs<T>>) -> Obs<X>,
  pub s: fn(&Env, usize) -> BMSpec,
  pub ks: &'static [u32],
  /// numbers of sources to try
  pub ns: &'static [usize],
}

/// one subscription
#[derive(Clone)]
pub struct MCur<T: ItemT> {
  pub rec: Rec,
  pub spec: Sh<BMSpec>,
  pub ups: Sh<Vec<Option<Observer<'static, T>>>>,
  pub ended: Sh<Vec<bool>>,
}
#[derive(Clone)]
pub struct MCtx<T: ItemT> {
  pub env: Sh<Option<Env>>,
  pub curs: Sh<Vec<MCur<T>>>,
  pub at: Sh<usize>,
  pub cold: bool,
}
fn src_ev(i: usize, a: u32) {
  rx::ev(match (i, a) {
    (0, 0) => "source 0: next",
    (0, 1) => "source 0: error",
    (0, _) => "source 0: complete",
    (1, 0) => "source 1: next",
    (1, 1) => "source 1: error",
    (1, _) => "source 1: complete",
    (_, 0) => "source 2: next",
    (_, 1) => "source 2: error",
    (_, _) => "source 2: complete",
  });
}
impl<T: ItemT> MCtx<T> {
  pub fn cur(&self) -> MCur<T> {
    self.curs.g()[*self.at.g()].clone()
  }
  /// source i emits event a
  pub fn emit(&self, c: &MCur<T>, i: usize, up: &Observer<'static, T>, a: u32) {
    src_ev(i, a);
    let spec = c.spec.g();
    let heard = c.rec.open() && !c.ended.g()[i] && spec.want(i) != 0;
    let mut free = c.rec.s().free;
    // what this event does is not specified: from here on only what holds in any case
    if heard && !free && ((a == 1 && spec.skip_error(i)) || (a == 2 && spec.skip_complete(i))) {
      c.rec.s().free = true;
      free = true;
    }
    if a == 0 {
      let env = self.env.g().clone().unwrap();
      let x = T::mk(&env);
      rx::ev_val("   item", &x.val());
      drop(env);
      if heard && !free {
        spec.next(i, &x.val(), &c.rec);
      }
      up.next(x);
    } else if a == 1 {
      let e = fresh_err();
      c.ended.g()[i] = true;
      if heard && !free {
        spec.error(i, e, &c.rec);
      }
      up.error(mkerr(e));
    } else {
      c.ended.g()[i] = true;
      if heard && !free {
        spec.complete(i, &c.rec);
      }
      up.complete();
    }
    if heard && a != 0 && spec.main(i) {
      rx::check(!c.rec.live(), "C03,C04:the source has ended, the subscriber is not told");
    }
  }
  /// the i-th source
  pub fn src(&self, i: usize) -> Obs<T> {
    let me = self.clone();
    let pr = self.env.g().as_ref().unwrap().probe.clone();
    Observable::create(move |s: Observer<'static, T>| {
      let _p = &pr;
      let c = me.cur();
      if !c.rec.s().free {
        rx::check(c.ups.g()[i].is_none(), "C14,C03:a source is subscribed twice by one subscription");
        rx::check(!c.rec.open() || c.spec.g().want(i) != 0, "C03,C04:a source is subscribed too early");
      }
      c.ups.g()[i] = Some(s.clone());
      if me.cold {
        loop {
          rx::boundary();
          rx::check(
            c.rec.live() || !s.is_subscribed() || c.spec.g().lazy(i),
            "C06:the source still sees is_subscribed() after the end",
          );
          if !s.is_subscribed() {
            return;
          }
          let a = rx::choose(4);
          if a == 3 {
            return;
          }
          me.emit(&c, i, &s, a);
          if a != 0 {
            return;
          }
        }
      }
    })
  }
  pub fn check(&self, c: &MCur<T>, sub: &Subscription<'static>) {
    c.rec.settled();
    status(sub, &c.rec);
    let mut i = 0;
    while i < c.ups.g().len() {
      let open = c.rec.open() && !c.rec.s().may_c && !c.rec.s().free;
      let w = c.spec.g().want(i);
      match &c.ups.g()[i] {
        None => rx::check(!open || w != 1, "C03,C04,C06:a source has not been subscribed"),
        Some(up) => {
          let is = up.is_subscribed();
          if c.rec.live() {
            rx::check(!open || w != 0 || !is, "C06,C03:a source no longer needed is still subscribed");
            rx::check(!open || w != 1 || c.ended.g()[i] || is, "C03,C05:the source is cut off while the subscription lives");
          } else {
            rx::check(!is || c.spec.g().lazy(i), "C06:the source still sees is_subscribed() after the end");
          }
        }
      }
      i += 1;
    }
  }
}

pub fn pick_n(ns: &'static [usize]) -> usize {
  ns[rx::choose(ns.len() as u32) as usize]
}
pub fn setup<T: ItemT, X: Out>(op: &MOp<T, X>, cold: bool, n: usize, env: &Env) -> (MCtx<T>, Obs<X>) {
  let ctx = MCtx { env: Sh::new(Some(env.clone())), curs: Sh::new(Vec::new()), at: Sh::new(0), cold };
  let mut v = Vec::new();
  let mut i = 0;
  while i < n {
    v.push(ctx.src(i));
    i += 1;
  }
  let o = (op.b)(env, v);
  (ctx, o)
}
pub fn mk_cur<T: ItemT, X: Out>(op: &MOp<T, X>, env: &Env, n: usize, rec: Rec) -> MCur<T> {
  let mut u = Vec::new();
  let mut e = Vec::new();
  let mut i = 0;
  while i < n {
    u.push(None);
    e.push(false);
    i += 1;
  }
  MCur { rec, spec: Sh::new((op.s)(env, n)), ups: Sh::new(u), ended: Sh::new(e) }
}

/// one subscription, its sources emit in any order (also after their own terminal), hot or already inside subscribe
pub fn mhot<T: ItemT, X: Out>(op: &MOp<T, X>) {
  one(op, false)
}
pub fn mcold<T: ItemT, X: Out>(op: &MOp<T, X>) {
  one(op, true)
}
fn one<T: ItemT, X: Out>(op: &MOp<T, X>, cold: bool) {
  rx::set_props("C03");
  let n = pick_n(op.ns);
  let env = Env::new(pick_k_few(op.ks));
  let (ctx, o) = setup(op, cold, n, &env);
  let c = mk_cur(op, &env, n, Rec::new("C03", "C03,C04"));
  ctx.curs.g().push(c.clone());
  c.spec.g().start(&c.rec);
  let sub = c.rec.observe(&o, &env.probe);
  ctx.check(&c, &sub);
  loop {
    rx::boundary();
    let a = rx::choose(5);
    c.rec.s().late = c.rec.s().unsub;
    if a == 4 {
      if c.rec.live() {
        rx::end();
      }
      rx::ev("drop handles");
      drop(sub);
      drop(o);
      drop(c);
      drop(ctx.env.g().take());
      ctx.curs.g().pop();
      drop(ctx);
      rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
      rx::check(Arc::strong_count(&env.items) == 1, "C17:items still owned after the end");
      rx::end();
    }
    if a == 3 {
      rx::ev("unsubscribe");
      sub.unsubscribe();
      c.rec.s().unsub = true;
    } else {
      let i = rx::choose(n as u32) as usize;
      let up = c.ups.g()[i].clone();
      match up {
        None => rx::end(),
        Some(up) => ctx.emit(&c, i, &up, a),
      }
    }
    ctx.check(&c, &sub);
  }
}

/// two subscriptions of one Observable value, events in any interleaving
pub fn mtwin<T: ItemT, X: Out>(op: &MOp<T, X>) {
  rx::set_props("C14");
  let n = op.ns[0];
  let env = Env::new(pick_k_few(op.ks));
  let (ctx, o) = setup(op, false, n, &env);
  let mut subs: Vec<Subscription<'static>> = Vec::new();
  loop {
    rx::boundary();
    let a = rx::choose(5);
    let m = subs.len();
    if a == 4 {
      if m >= 2 {
        rx::end();
      }
      rx::ev(if m == 0 { "subscribe #1" } else { "subscribe #2" });
      let c = mk_cur(op, &env, n, Rec::new("C14,C03", "C14,C04"));
      *ctx.at.g() = m;
      ctx.curs.g().push(c.clone());
      c.spec.g().start(&c.rec);
      subs.push(c.rec.observe(&o, &env.probe));
    } else {
      if m == 0 {
        rx::end();
      }
      let j = if m == 2 { rx::choose(2) as usize } else { 0 };
      *ctx.at.g() = j;
      let c = ctx.cur();
      if !c.rec.open() {
        rx::end();
      }
      rx::ev(if j == 0 { "on #1:" } else { "on #2:" });
      if a == 3 {
        rx::ev("unsubscribe");
        subs[j].unsubscribe();
        c.rec.s().unsub = true;
        c.rec.s().late = true;
      } else {
        let i = rx::choose(n as u32) as usize;
        if c.ended.g()[i] {
          rx::end();
        }
        let up = c.ups.g()[i].clone();
        match up {
          None => rx::end(),
          Some(up) => ctx.emit(&c, i, &up, a),
        }
      }
    }
    let mut j = 0;
    while j < subs.len() {
      let c = ctx.curs.g()[j].clone();
      ctx.check(&c, &subs[j]);
      j += 1;
    }
  }
}

/// callbacks that call back into the library
pub fn mreent<X: Out>(op: &MOp<PTok, X>) {
  rx::set_props("C07");
  let n = op.ns[0];
  let env = Env::new(pick_k_few(op.ks));
  let (ctx, o) = setup(op, false, n, &env);
  env.aux.s().free = true;
  let rec = Rec::new("C03", "C03,C04");
  rec.s().free = true;
  let c = mk_cur(op, &env, n, rec);
  c.rec.s().cap = c.spec.g().cap();
  ctx.curs.g().push(c.clone());
  let subh: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let inh = Sh::new(false);
  let osl = Sh::new(Some(o));
  let act: Cb = {
    let (c, ctx, subh, inh, osl) = (c.clone(), ctx.clone(), subh.clone(), inh.clone(), osl.clone());
    Arc::new(move || {
      if *inh.g() {
        return;
      }
      let a = rx::choose(6);
      if a == 0 {
        return;
      }
      *inh.g() = true;
      let late = c.rec.s().late;
      if a == 1 {
        if let Some(s) = subh.g().clone() {
          rx::ev("    callback: unsubscribe");
          s.unsubscribe();
          c.rec.s().unsub = true;
          rx::check(!s.is_subscribed(), "C05:is_subscribed() is true after the end");
        }
      } else if a == 5 {
        let o = osl.g().clone();
        let env = ctx.env.g().clone();
        if let (Some(o), Some(env)) = (o, env) {
          rx::ev("    callback: subscribe");
          let keep = std::mem::replace(c.ups.g(), none_vec(c.ups.g().len()));
          let r2 = Rec::new("C03", "C03,C04");
          r2.s().free = true;
          let s = r2.observe(&o, &env.probe);
          s.unsubscribe();
          rx::check(!s.is_subscribed(), "C05:is_subscribed() is true after the end");
          *c.ups.g() = keep;
        }
      } else {
        let i = rx::choose(c.ups.g().len() as u32) as usize;
        let up = c.ups.g()[i].clone();
        if let Some(up) = up {
          c.rec.s().late = c.rec.s().unsub;
          rx::ev("    callback:");
          ctx.emit(&c, i, &up, a - 2);
        }
      }
      c.rec.s().late = late;
      *inh.g() = false;
    })
  };
  {
    let act = act.clone();
    c.rec.s().hook = Some(Arc::new(move |_: &Ev| act()));
  }
  *env.hook.g() = Some(act);
  *subh.g() = Some(c.rec.observe(osl.g().as_ref().unwrap(), &env.probe));
  loop {
    rx::boundary();
    let a = rx::choose(5);
    c.rec.s().late = c.rec.s().unsub;
    if a == 4 {
      if c.rec.live() {
        rx::end();
      }
      rx::ev("drop handles");
      drop(subh.g().take());
      drop(osl.g().take());
      drop(env.hook.g().take());
      c.rec.s().hook = None;
      drop(ctx.env.g().take());
      *c.ups.g() = Vec::new();
      drop(c);
      ctx.curs.g().pop();
      drop(ctx);
      rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
      rx::check(Arc::strong_count(&env.items) == 1, "C17:items still owned after the end");
      rx::end();
    }
    if a == 3 {
      rx::ev("unsubscribe");
      subh.g().as_ref().unwrap().unsubscribe();
      c.rec.s().unsub = true;
    } else {
      let i = rx::choose(n as u32) as usize;
      let up = c.ups.g()[i].clone();
      match up {
        None => rx::end(),
        Some(up) => ctx.emit(&c, i, &up, a),
      }
    }
    let s = subh.g().as_ref().unwrap();
    rx::check(!s.is_subscribed() || c.rec.live(), "C05:is_subscribed() is true after the end");
    let mut i = 0;
    while i < n {
      if let Some(up) = &c.ups.g()[i] {
        rx::check(c.rec.live() || !up.is_subscribed() || c.spec.g().lazy(i), "C06:the source still sees is_subscribed() after the end");
      }
      i += 1;
    }
  }
}
fn none_vec<T: ItemT>(n: usize) -> Vec<Option<Observer<'static, T>>> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n {
    v.push(None);
    i += 1;
  }
  v
}
