//! Pipelines whose inputs emit on different threads.
use crate::core::*;
use crate::mspecs::mop;
use crate::multi::*;
use crate::run::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;
use std::thread;

/// what a subscriber saw
pub struct CRecS {
  pub got: Vec<Ev>,
  /// the terminal callback has returned
  pub over: bool,
  /// a terminal callback was entered
  pub term: bool,
  /// unsubscribe has returned
  pub unsub: bool,
  /// per thread: the event being emitted was started after the terminal callback / unsubscribe returned
  pub late_t: Vec<bool>,
  pub late_u: Vec<bool>,
  pub contract: &'static str,
  pub slow: bool,
}
#[derive(Clone)]
pub struct CRec(pub Sh<CRecS>);
impl CRec {
  pub fn new(contract: &'static str) -> CRec {
    let mut a = Vec::new();
    let mut b = Vec::new();
    let mut i = 0;
    while i < 8 {
      a.push(false);
      b.push(false);
      i += 1;
    }
    CRec(Sh::new(CRecS {
      got: Vec::new(),
      over: false,
      term: false,
      unsub: false,
      late_t: a,
      late_u: b,
      contract,
      slow: false,
    }))
  }
  pub fn s(&self) -> &mut CRecS {
    self.0.g()
  }
  /// this thread is about to emit an event
  pub fn emitting(&self) {
    let t = rx::tid() as usize;
    let s = self.s();
    s.late_t[t] = s.over;
    s.late_u[t] = s.unsub;
  }
  pub fn got(&self, ev: Ev) {
    let t = rx::tid() as usize;
    let s = self.s();
    match &ev {
      Ev::N(v) => rx::ev_val("  got next", v),
      Ev::E(_) => rx::ev("  got error"),
      Ev::C => rx::ev("  got complete"),
    }
    rx::checkp(!s.late_u[t], "C05,C09", "event delivered although its emission began after unsubscribe returned");
    let last = match &ev {
      Ev::N(_) => false,
      _ => true,
    };
    if last {
      rx::checkp(!s.term, s.contract, "second terminal notification");
      s.term = true;
    }
    rx::checkp(!s.late_t[t], s.contract, "event delivered although its emission began after the terminal callback returned");
    s.got.push(ev);
    if s.slow {
      rx::yield_point();
    }
    if last {
      self.s().over = true;
    }
  }
  pub fn observe<X: Out>(&self, o: &Observable<'static, X>, probe: &Arc<()>) -> Subscription<'static> {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let (pa, pb, pc) = (probe.clone(), probe.clone(), probe.clone());
    o.subscribe(
      move |x: X| {
        let _p = &pa;
        a.got(Ev::N(x.v()));
      },
      move |e: RxError| {
        let _p = &pb;
        b.got(Ev::E(err_of(&e)));
      },
      move || {
        let _p = &pc;
        c.got(Ev::C);
      },
    )
  }
  pub fn items(&self) -> Vec<Val> {
    let mut r = Vec::new();
    let s = self.s();
    let mut i = 0;
    while i < s.got.len() {
      if let Ev::N(v) = &s.got[i] {
        r.push(v.clone());
      }
      i += 1;
    }
    r
  }
  /// 0 = none, 1 = complete, 2 = error
  pub fn terminal(&self) -> u32 {
    let s = self.s();
    let mut r = 0;
    let mut i = 0;
    while i < s.got.len() {
      match &s.got[i] {
        Ev::N(_) => {}
        Ev::C => r = 1,
        Ev::E(_) => r = 2,
      }
      i += 1;
    }
    r
  }
  pub fn terminal_is_last(&self) -> bool {
    let s = self.s();
    let mut i = 0;
    while i + 1 < s.got.len() {
      match &s.got[i] {
        Ev::N(_) => {}
        _ => return false,
      }
      i += 1;
    }
    true
  }
  pub fn error(&self) -> Option<ETok> {
    let s = self.s();
    let mut i = 0;
    while i < s.got.len() {
      if let Ev::E(e) = &s.got[i] {
        return *e;
      }
      i += 1;
    }
    None
  }
}

/// what a source thread does
#[derive(Clone, Copy)]
pub struct Script {
  pub items: u32,
  /// 0 = stays silent, 1 = completes, 2 = fails
  pub end: u32,
}
pub struct CS<T: ItemT> {
  pub scripts: Vec<Script>,
  pub sent: Vec<Vec<Val>>,
  pub errs: Vec<Option<ETok>>,
  pub ups: Vec<Option<Observer<'static, T>>>,
}
fn source<T: ItemT>(i: usize, cs: &Sh<CS<T>>, rec: &CRec, env: &Env) -> Obs<T> {
  let (cs, rec, env) = (cs.clone(), rec.clone(), Sh::new(Some(env.clone())));
  let e0 = env.g().take().unwrap();
  let pr = e0.probe.clone();
  drop(e0);
  Observable::create(move |s: Observer<'static, T>| {
    let _p = &pr;
    let (cs, rec) = (cs.clone(), rec.clone());
    cs.g().ups[i] = Some(s.clone());
    thread::spawn(move || {
      let sc = cs.g().scripts[i];
      let mut n = 0;
      let env = Env::new(0);
      while n < sc.items {
        let x = T::mk(&env);
        rx::ev_val(name(i, 0), &x.val());
        cs.g().sent[i].push(x.val());
        rec.emitting();
        s.next(x);
        n += 1;
      }
      if sc.end == 1 {
        rx::ev(name(i, 2));
        rec.emitting();
        s.complete();
      } else if sc.end == 2 {
        let e = fresh_err();
        rx::ev(name(i, 1));
        cs.g().errs[i] = Some(e);
        rec.emitting();
        s.error(mkerr(e));
      }
    });
  })
}
fn name(i: usize, a: u32) -> &'static str {
  match (i, a) {
    (0, 0) => "source 0: next",
    (0, 1) => "source 0: error",
    (0, _) => "source 0: complete",
    (1, 0) => "source 1: next",
    (1, 1) => "source 1: error",
    (1, _) => "source 1: complete",
    (_, 0) => "source 2: next",
    (_, 1) => "source 2: error",
    (_, _) => "source 2: complete",
  }
}

#[derive(Clone, Copy, PartialEq)]
pub enum J {
  Eq,
  Merge,
  Flat,
  Concat,
  Zip,
  Amb,
  Free,
}
#[derive(Clone, Copy)]
pub struct CMode {
  pub j: J,
  /// scripts may fail or stay silent
  pub err: bool,
  /// the subscriber unsubscribes meanwhile
  pub unsub: bool,
  pub take: usize,
  pub n: usize,
}

fn pick_script(m: &CMode, i: usize) -> Script {
  if m.err {
    let a = rx::choose(4);
    // what a thread does: item+error, item+complete, error, item(s) only
    return match a {
      0 => Script { items: 1, end: 2 },
      1 => Script { items: 1, end: 1 },
      2 => Script { items: 0, end: 2 },
      _ => Script { items: 2, end: 0 },
    };
  }
  if m.take > 0 || m.unsub {
    return Script { items: 2, end: 1 };
  }
  Script { items: rx::choose(3), end: 1 }
}

pub fn cmulti<X: Out>(op: &MOp<Tok, X>, m: CMode) {
  rx::set_props("C11,C19");
  let env = Env::new(0);
  let n = m.n;
  let mut scripts = Vec::new();
  let mut sent = Vec::new();
  let mut errs = Vec::new();
  let mut ups = Vec::new();
  let mut i = 0;
  while i < n {
    scripts.push(if m.j == J::Flat && i == 0 {
      // the outer source opens every inner one
      Script { items: n as u32 - 1, end: if m.err { rx::choose(3) } else { 1 } }
    } else {
      pick_script(&m, i)
    });
    sent.push(Vec::new());
    errs.push(None);
    ups.push(None);
    i += 1;
  }
  if m.err {
    // at least one fails
    let mut k = 0;
    let mut bad = 0;
    while k < n {
      if scripts[k].end == 2 {
        bad += 1;
      }
      k += 1;
    }
    if bad == 0 {
      rx::end();
    }
  }
  let cs = Sh::new(CS { scripts, sent, errs, ups });
  let rec = CRec::new(if m.err { "C19,C01,C11" } else { "C11,C01,C19" });
  let mut v = Vec::new();
  i = 0;
  while i < n {
    v.push(source::<Tok>(i, &cs, &rec, &env));
    i += 1;
  }
  let o = (op.b)(&env, v);
  let probe = env.probe.clone();
  rx::conc(2);
  if m.take > 0 {
    let o2 = o.take(m.take);
    let sub = rec.observe(&o2, &probe);
    finish(&m, &cs, &rec, sub, &probe, Some(o2));
  } else {
    let sub = rec.observe(&o, &probe);
    finish::<X>(&m, &cs, &rec, sub, &probe, None);
  }
  drop(o);
  drop(env);
  drop(cs);
  drop(rec);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}
fn finish<X: Out>(m: &CMode, cs: &Sh<CS<Tok>>, rec: &CRec, sub: Subscription<'static>, probe: &Arc<()>, o: Option<Obs<X>>) {
  if m.unsub {
    rx::ev("unsubscribe");
    sub.unsubscribe();
    rec.s().unsub = true;
    rx::check(!sub.is_subscribed(), "C05:is_subscribed() is true after unsubscribe");
  }
  rx::settle();
  judge(m, cs, rec);
  let ended = rec.s().over || rec.s().unsub;
  rx::check(sub.is_subscribed() != ended, "C05:is_subscribed() does not tell whether the subscription ended");
  if !ended {
    // nothing demands an end (silent sources)
    rx::end();
  }
  let s = cs.g();
  let mut i = 0;
  while i < s.ups.len() {
    if let Some(u) = &s.ups[i] {
      rx::check(m.j == J::Amb || !u.is_subscribed(), "C06:the source still sees is_subscribed() after the end");
    }
    i += 1;
  }
  // release what the client holds
  let mut i = 0;
  while i < s.ups.len() {
    s.ups[i] = None;
    i += 1;
  }
  drop(sub);
  drop(o);
}
fn judge(m: &CMode, cs: &Sh<CS<Tok>>, rec: &CRec) {
  let s = cs.g();
  let got = rec.items();
  let term = rec.terminal();
  let n = s.scripts.len();
  if rec.s().unsub {
    return;
  }
  if m.take > 0 {
    rx::check(got.len() <= m.take, "C11:take delivers more than n items");
    let mut total = 0;
    let mut i = 0;
    while i < n {
      total += s.sent[i].len();
      i += 1;
    }
    if m.j == J::Merge && !m.err {
      rx::check(term == 1, "C11,C19:no completion");
    }
    return;
  }
  if m.err {
    // an error of an input of these operators ends the output
    match m.j {
      J::Merge | J::Flat | J::Zip => {
        rx::check(term == 2, "C19,C04:the error does not end the output");
        let mut ok = false;
        let mut i = 0;
        while i < n {
          if let (Some(a), Some(b)) = (&s.errs[i], rec.error()) {
            if rx::tok_same(&a.0, &b.0) {
              ok = true;
            }
          }
          i += 1;
        }
        rx::check(ok, "C04,C19:another error than the one raised");
      }
      _ => {}
    }
    match m.j {
      J::Merge | J::Flat | J::Concat | J::Amb => {
        let pos = in_order(s, &got, if m.j == J::Flat { 1 } else { 0 });
        let mut i = 0;
        let mut used = 0;
        while i < n {
          if pos[i] > 0 {
            used += 1;
          }
          if let (Some(a), Some(b)) = (&s.errs[i], rec.error()) {
            if rx::tok_same(&a.0, &b.0) && !(m.j == J::Flat && i == 0) {
              rx::check(pos[i] == s.sent[i].len(), "C04,C11:an item raised before the error is lost");
            }
          }
          i += 1;
        }
        rx::check(m.j != J::Amb || used <= 1, "C11:amb lets several inputs through");
        if m.j == J::Amb && used == 1 && term == 2 {
          i = 0;
          while i < n {
            if let (Some(a), Some(b)) = (&s.errs[i], rec.error()) {
              if rx::tok_same(&a.0, &b.0) {
                rx::check(pos[i] > 0, "C11:amb lets several inputs through");
              }
            }
            i += 1;
          }
        }
      }
      J::Eq => rx::check(got.len() <= 1, "C03:more than one answer"),
      _ => {}
    }
    return;
  }
  match m.j {
    J::Merge | J::Flat | J::Concat => {
      let first = if m.j == J::Flat { 1 } else { 0 };
      let mut pos = Vec::new();
      let mut i = 0;
      while i < n {
        pos.push(0usize);
        i += 1;
      }
      let mut k = 0;
      let mut cur = 0;
      while k < got.len() {
        let mut hit = false;
        i = first;
        while i < n && !hit {
          if pos[i] < s.sent[i].len() && vsame(&s.sent[i][pos[i]], &got[k]) {
            pos[i] += 1;
            hit = true;
            if m.j == J::Concat {
              rx::check(i >= cur, "C11,C03:items of concat's sources out of order");
              cur = i;
            }
          }
          i += 1;
        }
        rx::check(hit, "C11:item duplicated, reordered or made up");
        k += 1;
      }
      i = first;
      while i < n {
        rx::check(pos[i] == s.sent[i].len(), "C11:item lost");
        i += 1;
      }
      rx::check(term == 1, "C11,C19:no completion");
      rx::check(rec.terminal_is_last(), "C11:complete before the last item");
    }
    J::Zip => {
      let mut len = s.sent[0].len();
      let mut i = 1;
      while i < n {
        if s.sent[i].len() < len {
          len = s.sent[i].len();
        }
        i += 1;
      }
      let mut used = Vec::new();
      let mut k = 0;
      while k < len {
        used.push(false);
        k += 1;
      }
      k = 0;
      while k < got.len() {
        let mut hit = false;
        let mut j = 0;
        while j < len && !hit {
          if !used[j] {
            let mut t = Vec::new();
            i = 0;
            while i < n {
              t.push(s.sent[i][j].clone());
              i += 1;
            }
            if vsame(&Val::L(t), &got[k]) {
              used[j] = true;
              hit = true;
            }
          }
          j += 1;
        }
        rx::check(hit, "C11:tuple duplicated or wrongly paired");
        k += 1;
      }
      rx::check(got.len() == len, "C11:tuple lost");
      rx::check(term == 1, "C11,C19:no completion");
      rx::check(rec.terminal_is_last(), "C11:complete before the last tuple");
    }
    J::Amb => {
      // exactly one input comes through, completely
      let mut ok = false;
      let mut i = 0;
      while i < n && !ok {
        if s.sent[i].len() == got.len() {
          let mut same = true;
          let mut k = 0;
          while k < got.len() {
            if !vsame(&s.sent[i][k], &got[k]) {
              same = false;
            }
            k += 1;
          }
          if same {
            ok = true;
          }
        }
        i += 1;
      }
      rx::check(ok, "C11:amb lets items of several inputs or of none through");
      rx::check(term == 1, "C11,C19:no completion");
      rx::check(rec.terminal_is_last(), "C11:complete before the last item");
    }
    J::Eq => {
      rx::check(got.len() == 1, "C03:not exactly one answer");
      let mut same = s.sent[0].len() == s.sent[1].len();
      let mut k = 0;
      while same && k < s.sent[0].len() {
        same = veq(&s.sent[0][k], &s.sent[1][k]);
        k += 1;
      }
      rx::check(vsame(&got[0], &Val::B(same)), "C03:the wrong answer");
      rx::check(term == 1, "C03,C19:no completion");
    }
    J::Free => {}
  }
}
/// every item comes from some source, in its order and without a gap
fn in_order(s: &CS<Tok>, got: &Vec<Val>, first: usize) -> Vec<usize> {
  let n = s.scripts.len();
  let mut pos = Vec::new();
  let mut i = 0;
  while i < n {
    pos.push(0usize);
    i += 1;
  }
  let mut k = 0;
  while k < got.len() {
    let mut hit = false;
    i = first;
    while i < n && !hit {
      if pos[i] < s.sent[i].len() && vsame(&s.sent[i][pos[i]], &got[k]) {
        pos[i] += 1;
        hit = true;
      }
      i += 1;
    }
    rx::check(hit, "C11,C19:item duplicated, reordered or made up");
    k += 1;
  }
  pos
}

macro_rules! cscs {
  ($($f:ident $o:ident $j:ident $err:expr, $unsub:expr, $take:expr, $n:expr;)*) => { $(
    pub fn $f() { cmulti(&mop::$o::<Tok>(), CMode { j: J::$j, err: $err, unsub: $unsub, take: $take, n: $n }) }
  )* };
}
cscs! {
  sc_conc_merge merge Merge false, false, 0, 2;
  sc_conc_flat_map flat_map Flat false, false, 0, 3;
  sc_conc_concat concat Concat false, false, 0, 2;
  sc_conc_zip zip Zip false, false, 0, 2;
  sc_conc_amb amb Amb false, false, 0, 2;
  sc_conct_merge merge Merge false, false, 2, 2;
  sc_conct_zip zip Zip false, false, 1, 2;
  sc_conct_flat_map flat_map Flat false, false, 1, 3;
  sc_conce_merge merge Merge true, false, 0, 2;
  sc_conce_flat_map flat_map Flat true, false, 0, 2;
  sc_conce_concat concat Concat true, false, 0, 2;
  sc_conce_zip zip Zip true, false, 0, 2;
  sc_conce_amb amb Amb true, false, 0, 2;
  sc_conce_combine combine Free true, false, 0, 2;
  sc_conce_seq_eq seq_eq Eq true, false, 0, 2;
  sc_conce_take_until take_until Free true, false, 0, 2;
  sc_conce_skip_until skip_until Free true, false, 0, 2;
  sc_conce_sample sample Free true, false, 0, 2;
  sc_conce_switch switch Free true, false, 0, 2;
  sc_concc_take_until take_until Free false, false, 0, 2;
  sc_concc_skip_until skip_until Free false, false, 0, 2;
  sc_concc_sample sample Free false, false, 0, 2;
  sc_concc_combine combine Free false, false, 0, 2;
  sc_concc_seq_eq seq_eq Eq false, false, 0, 2;
  sc_concu_merge merge Merge false, true, 0, 2;
  sc_concu_flat_map flat_map Flat false, true, 0, 3;
  sc_concu_concat concat Concat false, true, 0, 2;
  sc_concu_zip zip Zip false, true, 0, 2;
  sc_concu_amb amb Amb false, true, 0, 2;
  sc_concu_take_until take_until Free false, true, 0, 2;
}
