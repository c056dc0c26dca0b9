//! Most general clients of a single-input pipeline.
use crate::core::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;

/// an operator (or chain) under analysis and its definition
pub struct Op<T: ItemT, X: Clone + Send + Sync + 'static> {
  pub b: fn(&Env, &Vec<T>, Obs<T>) -> Obs<X>,
  pub s: fn(&Env, &Vec<Val>) -> BSpec,
  /// parameters to try
  pub ks: &'static [u32],
  /// how many item constants it takes
  pub nc: usize,
  /// chains: how the parameter is picked
  pub pick: Option<(fn(u32) -> u32, u32)>,
}
pub trait Out: ToVal + Clone + Send + Sync + 'static {}
impl<X: ToVal + Clone + Send + Sync + 'static> Out for X {}

pub fn pick_k(ks: &'static [u32]) -> u32 {
  if ks.len() == 0 {
    return 0;
  }
  let i = rx::choose(ks.len() as u32);
  ks[i as usize]
}
pub fn pick_op<T: ItemT, X: Out>(op: &Op<T, X>, few: bool) -> u32 {
  match op.pick {
    Some((f, a)) => f(a),
    None => if few { pick_k_few(op.ks) } else { pick_k(op.ks) },
  }
}
/// the small parameters only
pub fn pick_k_few(ks: &'static [u32]) -> u32 {
  if ks.len() == 0 {
    return 0;
  }
  let n = if rx::tier() > 0 || ks.len() < 3 { ks.len() } else { 3 };
  let i = rx::choose(n as u32);
  ks[i as usize]
}
pub fn consts<T: ItemT>(e: &Env, n: usize) -> (Vec<T>, Vec<Val>) {
  let mut a = Vec::new();
  let mut b = Vec::new();
  let mut i = 0;
  while i < n {
    let t = T::mk(e);
    b.push(t.val());
    a.push(t);
    i += 1;
  }
  (a, b)
}
pub fn status(sub: &Subscription<'static>, rec: &Rec) {
  rx::check(sub.is_subscribed() || !rec.live(), "C05:is_subscribed() is false on a live subscription");
  rx::check(!sub.is_subscribed() || rec.live(), "C05:is_subscribed() is true after the end");
}
pub fn upstream<T: Clone + Send + Sync>(up: &Observer<'static, T>, rec: &Rec) {
  rx::check(rec.live() || !up.is_subscribed(), "C06:the source still sees is_subscribed() after the end");
  rx::check(!rec.open() || up.is_subscribed(), "C02,C03,C05:the source is cut off while the subscription lives");
}

/// source under full control of the client: any event at any time, also after its own terminal
pub fn hot<T: ItemT, X: Out>(op: &Op<T, X>) {
  rx::set_props("C02");
  let env = Env::new(pick_op(op, false));
  let (cs, cv) = consts::<T>(&env, op.nc);
  let slot: Sh<Option<Observer<'static, T>>> = Sh::new(None);
  let s2 = slot.clone();
  let (times, old) = (Sh::new(0usize), Sh::new(None));
  let (t2, o2) = (times.clone(), old.clone());
  let pr = env.probe.clone();
  let o = (op.b)(&env, &cs, Observable::create(move |s: Observer<'static, T>| {
    let _p = &pr;
    *t2.g() += 1;
    *o2.g() = s2.g().take();
    *s2.g() = Some(s);
  }));
  drop(cs);
  let rec = Rec::new("C02", "C04");
  let mut spec = (op.s)(&env, &cv);
  spec.start(&rec);
  let sub = rec.observe(&o, &env.probe);
  rec.settled();
  status(&sub, &rec);
  rx::check(!rec.open() || slot.g().is_some(), "C02:the source is not subscribed");
  *times.g() = 0;
  loop {
    rx::boundary();
    let a = rx::choose(5);
    let was = rec.open();
    rec.s().late = rec.s().unsub;
    env.aux.s().free = !rec.open();
    if a == 4 {
      if rec.live() {
        rx::end();
      }
      rx::ev("drop handles");
      drop(slot.g().take());
      drop(old.g().take());
      drop(slot);
      drop(sub);
      drop(o);
      rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
      rx::check(Arc::strong_count(&env.items) == 1, "C17:items still owned after the end");
      rx::end();
    }
    if a == 3 {
      rx::ev("unsubscribe");
      sub.unsubscribe();
      rec.s().unsub = true;
    } else {
      match slot.g().clone() {
        None => rx::end(),
        Some(up) => {
          if a == 0 {
            let x = T::mk(&env);
            rx::ev_val("source: next", &x.val());
            if rec.open() {
              spec.next(&x.val(), &rec);
            }
            up.next(x);
          } else if a == 1 {
            let e = fresh_err();
            rx::ev("source: error");
            if rec.open() {
              spec.error(e, &rec);
            }
            up.error(mkerr(e));
          } else {
            rx::ev("source: complete");
            if rec.open() {
              spec.complete(&rec);
            }
            up.complete();
          }
        }
      }
    }
    rec.settled();
    env.aux.settled();
    status(&sub, &rec);
    if let Some(up) = slot.g().clone() {
      upstream(&up, &rec);
    }
    if spec.resub() {
      let n = if was && a < 3 && spec.again() { 1 } else { 0 };
      rx::check(*times.g() == n, "C04:the source is not subscribed as often as the argument allows");
      if let Some(up) = old.g() {
        rx::check(!up.is_subscribed(), "C06:a failed attempt's source still sees is_subscribed()");
      }
      *times.g() = 0;
      *old.g() = None;
    }
  }
}

/// two subscriptions of the same Observable value, events in any interleaving
pub fn twin<T: ItemT, X: Out>(op: &Op<T, X>) {
  rx::set_props("C14");
  let env = Env::new(pick_op(op, false));
  let (cs, cv) = consts::<T>(&env, op.nc);
  let slots: Sh<Vec<Observer<'static, T>>> = Sh::new(Vec::new());
  let who = Sh::new(0usize);
  let (s2, w2) = (slots.clone(), who.clone());
  let pr = env.probe.clone();
  let o = (op.b)(&env, &cs, Observable::create(move |s: Observer<'static, T>| {
    let _p = &pr;
    let w = *w2.g();
    if w < s2.g().len() {
      s2.g()[w] = s;
    } else {
      s2.g().push(s);
    }
  }));
  let recs = [Rec::new("C14,C02", "C14,C04"), Rec::new("C14,C02", "C14,C04")];
  let mut specs = [(op.s)(&env, &cv), (op.s)(&env, &cv)];
  let mut subs: Vec<Subscription<'static>> = Vec::new();
  loop {
    rx::boundary();
    let a = rx::choose(4);
    if a == 3 {
      let n = subs.len();
      if n >= 2 {
        rx::end();
      }
      rx::ev(if n == 0 { "subscribe #1" } else { "subscribe #2" });
      let had = slots.g().len();
      *who.g() = n;
      specs[n].start(&recs[n]);
      subs.push(recs[n].observe(&o, &env.probe));
      if slots.g().len() == had {
        // nothing was subscribed upstream: right if the subscription ended at once
        recs[n].settled();
        rx::check(!recs[n].open(), "C14,C02:the source is not subscribed");
        rx::end();
      }
    } else {
      let n = subs.len();
      if n == 0 {
        rx::end();
      }
      let i = if n == 2 { rx::choose(2) as usize } else { 0 };
      if !recs[i].open() {
        rx::end();
      }
      let up = slots.g()[i].clone();
      *who.g() = i;
      env.aux.s().free = false;
      if a == 0 {
        let x = T::mk(&env);
        rx::ev_val(if i == 0 { "source #1: next" } else { "source #2: next" }, &x.val());
        specs[i].next(&x.val(), &recs[i]);
        up.next(x);
      } else if a == 1 {
        rx::ev(if i == 0 { "source #1: complete" } else { "source #2: complete" });
        specs[i].complete(&recs[i]);
        up.complete();
      } else if specs[i].resub() && rx::choose(2) == 0 {
        let e = fresh_err();
        rx::ev(if i == 0 { "source #1: error" } else { "source #2: error" });
        specs[i].error(e, &recs[i]);
        up.error(mkerr(e));
      } else {
        rx::ev(if i == 0 { "unsubscribe #1" } else { "unsubscribe #2" });
        subs[i].unsubscribe();
        recs[i].s().unsub = true;
        recs[i].s().late = true;
      }
    }
    let mut i = 0;
    while i < subs.len() {
      recs[i].settled();
      status(&subs[i], &recs[i]);
      upstream(&slots.g()[i], &recs[i]);
      i += 1;
    }
    env.aux.settled();
  }
}

#[derive(Clone)]
struct Cur {
  rec: Rec,
  spec: Sh<BSpec>,
  heard: Sh<bool>,
}
/// a source that emits inside subscribe; the same Observable is subscribed again, also from a callback
pub fn cold<T: ItemT, X: Out>(op: &Op<T, X>) {
  rx::set_props("C02");
  let env = Env::new(pick_op(op, true));
  let (cs, cv) = consts::<T>(&env, op.nc);
  let cur: Sh<Vec<Cur>> = Sh::new(Vec::new());
  let (c2, e2) = (cur.clone(), Sh::new(0i64));
  let eaux = env.aux.clone();
  let eitems = env.items.clone();
  let eenv = Sh::new(Some(env.clone()));
  let een = eenv.clone();
  let nev = Sh::new(0u32);
  drop(eitems);
  let pr = env.probe.clone();
  let o = (op.b)(
    &env,
    &cs,
    Observable::create(move |s: Observer<'static, T>| {
      let _p = &pr;
      let c = c2.g()[c2.g().len() - 1].clone();
      let env = een.g().clone().unwrap();
      *c.heard.g() = true;
      loop {
        rx::boundary();
        upstream(&s, &c.rec);
        if !s.is_subscribed() {
          return;
        }
        let a = rx::choose(4);
        if c.spec.g().resub() {
          // nested attempts are on the stack
          *nev.g() += 1;
          if *nev.g() > if rx::tier() > 0 { 7 } else { 5 } {
            rx::end();
          }
        }
        eaux.s().free = !c.rec.open();
        if a == 0 {
          let x = T::mk(&env);
          rx::ev_val("source: next", &x.val());
          if c.rec.open() {
            c.spec.g().next(&x.val(), &c.rec);
          }
          s.next(x);
        } else if a == 1 {
          let e = fresh_err();
          rx::ev("source: error");
          if c.rec.open() {
            c.spec.g().error(e, &c.rec);
          }
          s.error(mkerr(e));
          if c.spec.g().resub() {
            rx::check(!s.is_subscribed(), "C06:a failed attempt's source still sees is_subscribed()");
            let b = rx::choose(4);
            if b == 1 {
              rx::ev("source: next after its terminal");
              s.next(T::mk(&env));
            } else if b == 2 {
              rx::ev("source: error after its terminal");
              s.error(mkerr(fresh_err()));
            } else if b == 3 {
              rx::ev("source: complete after its terminal");
              s.complete();
            }
            return;
          }
        } else if a == 2 {
          rx::ev("source: complete");
          if c.rec.open() {
            c.spec.g().complete(&c.rec);
          }
          s.complete();
        } else {
          return;
        }
        c.rec.settled();
        if a != 0 {
          // misbehaviour: one more event after the terminal
          eaux.s().free = true;
          let b = rx::choose(4);
          if b == 1 {
            rx::ev("source: next after its terminal");
            s.next(T::mk(&env));
          } else if b == 2 {
            rx::ev("source: error after its terminal");
            s.error(mkerr(fresh_err()));
          } else if b == 3 {
            rx::ev("source: complete after its terminal");
            s.complete();
          }
          upstream(&s, &c.rec);
          return;
        }
      }
    }),
  );
  drop(cs);
  let mut round = 0;
  let mut subs: Vec<Subscription<'static>> = Vec::new();
  while round < 2 {
    let rec = if round == 0 { Rec::new("C02", "C04") } else { Rec::new("C14", "C14") };
    let spec = Sh::new((op.s)(&env, &cv));
    if round == 1 {
      let (o, cur, env, cv, b) = (o.clone(), cur.clone(), Sh::new(Some(env.clone())), cv.clone(), op.s);
      let eh = eenv.clone();
      drop(env);
      // a nested subscription, once, from within a callback
      let used = Sh::new(false);
      rec.s().hook = Some(Arc::new(move |ev: &Ev| {
        if *used.g() || rx::choose(2) == 0 {
          return;
        }
        *used.g() = true;
        rx::ev("subscribe again inside the callback");
        let rec = Rec::new("C14", "C14");
        let env = eh.g().clone().unwrap();
        let spec = Sh::new(b(&env, &cv));
        let heard = Sh::new(false);
        cur.g().push(Cur { rec: rec.clone(), spec: spec.clone(), heard: heard.clone() });
        spec.g().start(&rec);
        let sub = rec.observe(&o, &env.probe);
        rec.settled();
        status(&sub, &rec);
        rx::check(!rec.open() || *heard.g(), "C14:the source is not subscribed");
        sub.unsubscribe();
        cur.g().pop();
      }));
    }
    let heard = Sh::new(false);
    cur.g().push(Cur { rec: rec.clone(), spec: spec.clone(), heard: heard.clone() });
    spec.g().start(&rec);
    rx::ev(if round == 0 { "subscribe" } else { "subscribe again" });
    let sub = rec.observe(&o, &env.probe);
    rec.settled();
    env.aux.settled();
    status(&sub, &rec);
    rx::check(!rec.open() || *heard.g(), if round == 0 { "C02:the source is not subscribed" } else { "C14:the source is not subscribed" });
    cur.g().pop();
    if rec.live() {
      if rx::choose(2) == 0 {
        rx::ev("unsubscribe");
        sub.unsubscribe();
        rec.s().unsub = true;
        status(&sub, &rec);
      } else {
        subs.push(sub);
      }
    }
    rec.s().hook = None;
    rx::boundary();
    round += 1;
  }
  if subs.len() == 0 {
    drop(o);
    drop(subs);
    drop(eenv.g().take());
    rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
    rx::check(Arc::strong_count(&env.items) == 1, "C17:items still owned after the end");
  }
  rx::end();
}

/// callbacks (and operator closures) that call back into the library; items that own a resource
pub fn reent<X: Out>(op: &Op<PTok, X>) {
  reent_with(op, false)
}
/// the same with the combining function of scan/reduce calling back
pub fn reentf<X: Out>(op: &Op<PTok, X>) {
  reent_with(op, true)
}
fn reent_with<X: Out>(op: &Op<PTok, X>, fold: bool) {
  rx::set_props("C07");
  let env = Env::new(pick_op(op, true));
  let (cs, cv) = consts::<PTok>(&env, op.nc);
  let slot: Sh<Option<Observer<'static, PTok>>> = Sh::new(None);
  let s2 = slot.clone();
  let pr = env.probe.clone();
  let o = (op.b)(&env, &cs, Observable::create(move |s: Observer<'static, PTok>| {
    let _p = &pr;
    *s2.g() = Some(s);
  }));
  drop(cs);
  env.aux.s().free = true;
  let rec = Rec::new("C02", "C04");
  rec.s().free = true;
  rec.s().cap = (op.s)(&env, &cv).cap();
  let subh: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let inh = Sh::new(false);
  let again: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let osl = Sh::new(Some(o));
  let esl = Sh::new(Some(env.clone()));
  let act: Cb = {
    let (rec, slot, subh, inh, osl, esl) = (rec.clone(), slot.clone(), subh.clone(), inh.clone(), osl.clone(), esl.clone());
    Arc::new(move || {
      if *inh.g() {
        return;
      }
      let a = rx::choose(6);
      if a == 0 {
        return;
      }
      *inh.g() = true;
      let late = rec.s().late;
      if a == 1 {
        if let Some(s) = subh.g().clone() {
          rx::ev("    callback: unsubscribe");
          s.unsubscribe();
          rec.s().unsub = true;
          rx::check(!s.is_subscribed(), "C05:is_subscribed() is true after the end");
        }
      } else if a == 5 {
        let o = osl.g().clone();
        let e = esl.g().clone();
        if let (Some(o), Some(e)) = (o, e) {
          rx::ev("    callback: subscribe");
          let keep = slot.g().clone();
          let r2 = Rec::new("C02", "C04");
          r2.s().free = true;
          let s = r2.observe(&o, &e.probe);
          s.unsubscribe();
          rx::check(!s.is_subscribed(), "C05:is_subscribed() is true after the end");
          *slot.g() = keep;
        }
      } else if let Some(up) = slot.g().clone() {
        rec.s().late = rec.s().unsub;
        if a == 2 {
          let e = esl.g().clone().unwrap();
          rx::ev("    callback: source next");
          up.next(PTok::mk(&e));
        } else if a == 3 {
          rx::ev("    callback: source complete");
          up.complete();
        } else {
          rx::ev("    callback: source error");
          up.error(mkerr(fresh_err()));
        }
      }
      rec.s().late = late;
      *inh.g() = false;
    })
  };
  {
    let act = act.clone();
    rec.s().hook = Some(Arc::new(move |_: &Ev| act()));
  }
  if fold {
    *env.fhook.g() = Some(act);
  } else {
    *env.hook.g() = Some(act);
  }
  *subh.g() = Some(rec.observe(osl.g().as_ref().unwrap(), &env.probe));
  loop {
    rx::boundary();
    let a = rx::choose(5);
    rec.s().late = rec.s().unsub;
    if a == 4 {
      if rec.live() {
        rx::end();
      }
      rx::ev("drop handles");
      drop(slot.g().take());
      drop(subh.g().take());
      drop(osl.g().take());
      drop(esl.g().take());
      drop(env.hook.g().take());
      drop(env.fhook.g().take());
      rec.s().hook = None;
      rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
      rx::check(Arc::strong_count(&env.items) == 1, "C17:items still owned after the end");
      rx::end();
    }
    if a == 3 {
      rx::ev("unsubscribe");
      subh.g().as_ref().unwrap().unsubscribe();
      rec.s().unsub = true;
    } else {
      match slot.g().clone() {
        None => rx::end(),
        Some(up) => {
          if a == 0 {
            rx::ev("source: next");
            up.next(PTok::mk(&env));
          } else if a == 1 {
            rx::ev("source: error");
            up.error(mkerr(fresh_err()));
          } else {
            rx::ev("source: complete");
            up.complete();
          }
        }
      }
    }
    let s = subh.g().as_ref().unwrap();
    rx::check(!s.is_subscribed() || rec.live(), "C05:is_subscribed() is true after the end");
    if let Some(up) = slot.g().clone() {
      rx::check(rec.live() || !up.is_subscribed(), "C06:the source still sees is_subscribed() after the end");
    }
  }
}
