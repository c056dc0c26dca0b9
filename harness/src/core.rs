//! Tokens, recorders, specifications.
use crate::rx;
use another_rxrust::prelude::*;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::Arc;

/// shared client state (the client is analysed, never run)
pub struct Sh<T>(pub Arc<UnsafeCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
  fn clone(&self) -> Self {
    Sh(Arc::clone(&self.0))
  }
}
impl<T> Sh<T> {
  pub fn new(t: T) -> Sh<T> {
    Sh(Arc::new(UnsafeCell::new(t)))
  }
  pub fn g(&self) -> &mut T {
    unsafe { &mut *self.0.get() }
  }
}

/// an uninterpreted item
#[derive(Copy)]
pub struct Tok(u64);
impl Clone for Tok {
  fn clone(&self) -> Tok {
    *self
  }
}
impl PartialEq for Tok {
  fn eq(&self, o: &Tok) -> bool {
    rx::tok_eq(self, o)
  }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
  fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
    let c = rx::tok_cmp(self, o);
    Some(if c < 0 {
      std::cmp::Ordering::Less
    } else if c == 0 {
      std::cmp::Ordering::Equal
    } else {
      std::cmp::Ordering::Greater
    })
  }
}
impl Ord for Tok {
  fn cmp(&self, o: &Tok) -> std::cmp::Ordering {
    let c = rx::tok_cmp(self, o);
    if c < 0 {
      std::cmp::Ordering::Less
    } else if c == 0 {
      std::cmp::Ordering::Equal
    } else {
      std::cmp::Ordering::Greater
    }
  }
}
impl std::ops::Add for Tok {
  type Output = Tok;
  fn add(self, o: Tok) -> Tok {
    rx::tok_add(&self, &o)
  }
}
impl std::hash::Hash for Tok {
  fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl std::fmt::Debug for Tok {
  fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Ok(())
  }
}

/// an error payload
#[derive(Clone, Copy)]
pub struct ETok(pub Tok);
impl std::fmt::Debug for ETok {
  fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Ok(())
  }
}
pub fn mkerr(e: ETok) -> RxError {
  RxError::from_error(e)
}
pub fn fresh_err() -> ETok {
  ETok(rx::fresh())
}

pub type Obs<T> = Observable<'static, T>;
pub type Cb = Arc<dyn Fn() + Send + Sync>;

/// what the client closures share
pub struct Env {
  /// ownership probe of callbacks and closures
  pub probe: Arc<()>,
  /// ownership probe of items
  pub items: Arc<()>,
  pub n: Sh<i64>,
  /// parameter of the operator
  pub k: u32,
  /// called by the closures given to operators
  pub hook: Sh<Option<Cb>>,
  /// called by the combining functions given to scan and reduce
  pub fhook: Sh<Option<Cb>>,
  /// side effects (tap)
  pub aux: Rec,
}
impl Clone for Env {
  fn clone(&self) -> Env {
    Env {
      probe: self.probe.clone(),
      items: self.items.clone(),
      n: self.n.clone(),
      k: self.k,
      hook: self.hook.clone(),
      fhook: self.fhook.clone(),
      aux: self.aux.clone(),
    }
  }
}
impl Env {
  pub fn new(k: u32) -> Env {
    Env {
      probe: Arc::new(()),
      items: Arc::new(()),
      n: Sh::new(0),
      k,
      hook: Sh::new(None),
      fhook: Sh::new(None),
      aux: Rec::new("C02,C14", "C02,C14"),
    }
  }
  pub fn cbf(&self) {
    let h = self.fhook.g().clone();
    if let Some(h) = h {
      h();
    }
  }
  /// a closure given to an operator is being called
  pub fn cb(&self) {
    let h = self.hook.g().clone();
    if let Some(h) = h {
      h();
    }
  }
}

/// values as the specification sees them
#[derive(Clone)]
pub enum Val {
  T(Tok),
  I(i64),
  B(bool),
  L(Vec<Val>),
  E(ETok),
  U,
}
pub fn vsame(a: &Val, b: &Val) -> bool {
  match (a, b) {
    (Val::T(x), Val::T(y)) => rx::tok_same(x, y),
    (Val::E(x), Val::E(y)) => rx::tok_same(&x.0, &y.0),
    (Val::I(x), Val::I(y)) => *x == *y,
    (Val::B(x), Val::B(y)) => *x == *y,
    (Val::U, Val::U) => true,
    (Val::L(x), Val::L(y)) => {
      if x.len() != y.len() {
        return false;
      }
      let mut i = 0;
      while i < x.len() {
        if !vsame(&x[i], &y[i]) {
          return false;
        }
        i += 1;
      }
      true
    }
    _ => false,
  }
}
/// uninterpreted predicate / functions on specification values; concrete on counters (deep runs)
pub fn vp(f: u32, x: &Val) -> bool {
  match x {
    Val::T(t) => rx::pred(f, t),
    Val::I(i) => dpred(f, *i),
    _ => false,
  }
}
pub fn vap(f: u32, x: &Val) -> Val {
  match x {
    Val::T(t) => Val::T(rx::apply(f, t)),
    Val::I(i) => Val::I(*i * 2 + f as i64),
    _ => Val::U,
  }
}
pub fn vap2(f: u32, x: &Val, y: &Val) -> Val {
  match (x, y) {
    (Val::T(t), Val::T(u)) => Val::T(rx::apply2(f, t, u)),
    (Val::I(t), Val::I(u)) => Val::I(dap2(*t, *u)),
    _ => Val::U,
  }
}
pub fn vadd(x: &Val, y: &Val) -> Val {
  match (x, y) {
    (Val::T(t), Val::T(u)) => Val::T(rx::tok_add(t, u)),
    (Val::I(t), Val::I(u)) => Val::I(*t + *u),
    _ => Val::U,
  }
}
pub fn vlt(x: &Val, y: &Val) -> bool {
  match (x, y) {
    (Val::T(t), Val::T(u)) => rx::tok_cmp(t, u) < 0,
    (Val::I(t), Val::I(u)) => *t < *u,
    _ => false,
  }
}
pub fn veq(x: &Val, y: &Val) -> bool {
  match (x, y) {
    (Val::T(t), Val::T(u)) => rx::tok_eq(t, u),
    (Val::I(t), Val::I(u)) => *t == *u,
    _ => false,
  }
}
/// long runs: where the counter starts selects how predicates answer
pub const LONG: i64 = 1_000_000;
fn dpred(_f: u32, i: i64) -> bool {
  if i >= 2 * LONG {
    // false for long, then true
    i >= 2 * LONG + 202
  } else if i >= LONG {
    // true for long, then false
    i < LONG + 202
  } else {
    i % 3 != 1
  }
}
fn dap2(x: i64, y: i64) -> i64 {
  (x * 3 + y) % 1009
}

pub trait ItemT:
  Clone + Send + Sync + PartialEq + Eq + PartialOrd + std::hash::Hash + std::fmt::Debug + std::ops::Add<Output = Self> + 'static
{
  fn mk(e: &Env) -> Self;
  fn val(&self) -> Val;
  fn p(&self, f: u32) -> bool;
  fn ap(&self, f: u32) -> Self;
  fn ap2(&self, f: u32, o: &Self) -> Self;
}
impl ItemT for Tok {
  fn mk(_: &Env) -> Tok {
    rx::fresh()
  }
  fn val(&self) -> Val {
    Val::T(*self)
  }
  fn p(&self, f: u32) -> bool {
    rx::pred(f, self)
  }
  fn ap(&self, f: u32) -> Tok {
    rx::apply(f, self)
  }
  fn ap2(&self, f: u32, o: &Tok) -> Tok {
    rx::apply2(f, self, o)
  }
}
/// item that owns a probe
#[derive(Clone)]
pub struct PTok {
  t: Tok,
  p: Arc<()>,
}
impl PartialEq for PTok {
  fn eq(&self, o: &PTok) -> bool {
    self.t == o.t
  }
}
impl Eq for PTok {}
impl PartialOrd for PTok {
  fn partial_cmp(&self, o: &PTok) -> Option<std::cmp::Ordering> {
    self.t.partial_cmp(&o.t)
  }
}
impl std::ops::Add for PTok {
  type Output = PTok;
  fn add(self, o: PTok) -> PTok {
    PTok { t: self.t + o.t, p: self.p.clone() }
  }
}
impl std::hash::Hash for PTok {
  fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl std::fmt::Debug for PTok {
  fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Ok(())
  }
}
impl ItemT for PTok {
  fn mk(e: &Env) -> PTok {
    PTok { t: rx::fresh(), p: e.items.clone() }
  }
  fn val(&self) -> Val {
    Val::T(self.t)
  }
  fn p(&self, f: u32) -> bool {
    rx::pred(f, &self.t)
  }
  fn ap(&self, f: u32) -> PTok {
    PTok { t: rx::apply(f, &self.t), p: self.p.clone() }
  }
  /// used where no values are expected: keeps terms small
  fn ap2(&self, _: u32, o: &PTok) -> PTok {
    o.clone()
  }
}
/// counted item for long runs
#[derive(Clone, PartialEq, Eq, PartialOrd, Hash)]
pub struct DTok(pub i64);
impl std::ops::Add for DTok {
  type Output = DTok;
  fn add(self, o: DTok) -> DTok {
    DTok(self.0 + o.0)
  }
}
impl std::fmt::Debug for DTok {
  fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Ok(())
  }
}
impl ItemT for DTok {
  fn mk(e: &Env) -> DTok {
    let n = e.n.g();
    *n += 1;
    // neighbouring items are sometimes equal
    let (b, i) = (*n / LONG * LONG, *n % LONG);
    DTok(b + i / 2 * 2 - i / 4)
  }
  fn val(&self) -> Val {
    Val::I(self.0)
  }
  fn p(&self, f: u32) -> bool {
    dpred(f, self.0)
  }
  fn ap(&self, f: u32) -> DTok {
    DTok(self.0 * 2 + f as i64)
  }
  fn ap2(&self, _: u32, o: &DTok) -> DTok {
    DTok(dap2(self.0, o.0))
  }
}

pub trait ToVal {
  fn v(&self) -> Val;
  fn deliver(&self, rec: &Rec) {
    rec.got(Ev::N(self.v()));
  }
}
/// inner observables: events of the i-th one appear as `[i, kind, payload]`, its arrival as `[i]`
pub fn in_open(i: usize) -> Val { Val::L(vec1(Val::I(i as i64))) }
pub fn in_ev(i: usize, v: Val) -> Val { Val::L(vec2(Val::I(i as i64), v)) }
fn has_err(v: &Val) -> bool {
  match v {
    Val::E(_) => true,
    Val::L(a) => a.iter().any(|x| has_err(x)),
    _ => false,
  }
}
fn in_end(v: &Val) -> bool {
  match v {
    Val::L(a) => a.len() == 2 && match &a[1] {
      Val::L(m) => match &m[0] { Val::I(k) => *k != 0, _ => false },
      _ => false,
    },
    _ => false,
  }
}
impl<T: ToVal + Clone + Send + Sync + 'static> ToVal for Obs<T> {
  fn v(&self) -> Val {
    Val::U
  }
  fn deliver(&self, rec: &Rec) {
    let i = rec.s().inner;
    rec.s().inner = (i + 1) % 3;
    rec.got(Ev::N(in_open(i)));
    let (x, y, z) = (rec.clone(), rec.clone(), rec.clone());
    let over = Sh::new(false);
    let (ox, oy, oz) = (over.clone(), over.clone(), over);
    self.subscribe(
      move |t: T| x.inner_got(&ox, false, in_ev(i, mat_n(t.v()))),
      move |e| y.inner_got(&oy, true, in_ev(i, mat_e(err_of(&e)))),
      move || z.inner_got(&oz, true, in_ev(i, mat_c())),
    );
  }
}
impl ToVal for Tok {
  fn v(&self) -> Val {
    self.val()
  }
}
impl ToVal for PTok {
  fn v(&self) -> Val {
    self.val()
  }
}
impl ToVal for DTok {
  fn v(&self) -> Val {
    self.val()
  }
}
impl ToVal for bool {
  fn v(&self) -> Val {
    Val::B(*self)
  }
}
impl ToVal for usize {
  fn v(&self) -> Val {
    Val::I(*self as i64)
  }
}
impl ToVal for u64 {
  fn v(&self) -> Val {
    Val::I(*self as i64)
  }
}
impl ToVal for i64 {
  fn v(&self) -> Val {
    Val::I(*self)
  }
}
impl ToVal for i32 {
  fn v(&self) -> Val {
    Val::I(*self as i64)
  }
}
impl ToVal for () {
  fn v(&self) -> Val {
    Val::U
  }
}
impl<X: ToVal> ToVal for Vec<X> {
  fn v(&self) -> Val {
    let mut r = Vec::new();
    for x in self.iter() {
      r.push(x.v());
    }
    Val::L(r)
  }
}
impl<X: ToVal, Y: ToVal> ToVal for (X, Y) {
  fn v(&self) -> Val {
    Val::L(vec2(self.0.v(), self.1.v()))
  }
}
pub fn vec2(a: Val, b: Val) -> Vec<Val> {
  let mut r = Vec::new();
  r.push(a);
  r.push(b);
  r
}
pub fn vec1(a: Val) -> Vec<Val> {
  let mut r = Vec::new();
  r.push(a);
  r
}
impl<X: ToVal + Clone + Send + Sync> ToVal for Material<X> {
  fn v(&self) -> Val {
    match self {
      Material::Next(x) => mat_n(x.v()),
      Material::Error(e) => mat_e(err_of(e)),
      Material::Complete => mat_c(),
    }
  }
}
pub fn mat_n(v: Val) -> Val {
  Val::L(vec2(Val::I(0), v))
}
pub fn mat_e(e: Option<ETok>) -> Val {
  Val::L(vec2(
    Val::I(1),
    match e {
      Some(e) => Val::E(e),
      None => Val::U,
    },
  ))
}
pub fn mat_c() -> Val {
  Val::L(vec1(Val::I(2)))
}
pub fn err_of(e: &RxError) -> Option<ETok> {
  match e.downcast_ref::<ETok>() {
    Some(x) => Some(*x),
    None => None,
  }
}

#[derive(Clone)]
pub enum Ev {
  N(Val),
  E(Option<ETok>),
  C,
}

pub struct RecS {
  pub q: VecDeque<Ev>,
  /// the specification has produced its terminal
  pub done: bool,
  /// a terminal was received
  pub over: bool,
  pub unsub: bool,
  /// completion is allowed though not required
  pub may_c: bool,
  /// contract only: no expectation about which events arrive
  pub free: bool,
  /// the source has misbehaved (events after its own terminal)
  pub bad: bool,
  /// properties a wrong item / wrong terminal speaks about
  pub pv: &'static str,
  pub pe: &'static str,
  pub hook: Option<Arc<dyn Fn(&Ev) + Send + Sync>>,
  /// the event being delivered was emitted after unsubscribe returned
  pub late: bool,
  /// inner observables seen
  pub inner: usize,
  /// items the definition still allows, whatever the order of events
  pub cap: Option<u32>,
}
#[derive(Clone)]
pub struct Rec(pub Sh<RecS>);
impl Rec {
  pub fn new(pv: &'static str, pe: &'static str) -> Rec {
    Rec(Sh::new(RecS {
      q: VecDeque::new(),
      done: false,
      over: false,
      unsub: false,
      may_c: false,
      free: false,
      bad: false,
      pv,
      pe,
      hook: None,
      late: false,
      inner: 0,
      cap: None,
    }))
  }
  pub fn s(&self) -> &mut RecS {
    self.0.g()
  }
  // ---- the specification's output
  pub fn n(&self, v: Val) {
    let s = self.s();
    if !s.done && !s.over && !s.unsub {
      s.q.push_back(Ev::N(v));
    }
  }
  pub fn c(&self) {
    let s = self.s();
    if !s.done && !s.over && !s.unsub {
      s.q.push_back(Ev::C);
    }
    s.done = true;
  }
  pub fn e(&self, e: ETok) {
    let s = self.s();
    if !s.done && !s.over && !s.unsub {
      s.q.push_back(Ev::E(Some(e)));
    }
    s.done = true;
  }
  pub fn may_complete(&self) {
    self.s().may_c = true;
  }
  /// the specification still takes input
  pub fn open(&self) -> bool {
    let s = self.s();
    !s.done && !s.over && !s.unsub
  }
  pub fn live(&self) -> bool {
    let s = self.s();
    !s.over && !s.unsub
  }
  /// an event of an inner observable: its own typestate; in the specification's sequence unless that is over
  pub fn inner_got(&self, over: &Sh<bool>, last: bool, v: Val) {
    rx::check(!*over.g(), "C01,C19:event of an inner observable after its terminal event");
    if last {
      *over.g() = true;
    }
    let s = self.s();
    let keep = s.over;
    s.over = false;
    self.got(Ev::N(v));
    s.over = keep || s.over;
  }
  // ---- the subscriber's callbacks
  pub fn got(&self, ev: Ev) {
    let s = self.s();
    match &ev {
      Ev::N(v) => rx::ev_val("  got next", v),
      Ev::E(_) => rx::ev("  got error"),
      Ev::C => rx::ev("  got complete"),
    }
    if s.over {
      match &ev {
        Ev::N(_) => rx::check(false, "C01,C19:item delivered after the terminal event"),
        Ev::E(_) => rx::check(false, "C01,C19,C04:error delivered after the terminal event"),
        Ev::C => rx::check(false, "C01,C19:complete delivered after the terminal event"),
      }
    }
    rx::check(!(s.unsub && s.late), "C05,C06:event delivered after unsubscribe returned");
    if let (Some(n), Ev::N(_)) = (s.cap, &ev) {
      rx::checkp(n > 0, s.pv, "more items than the operator may deliver for any input");
      if n > 0 {
        s.cap = Some(n - 1);
      }
    }
    if !s.free {
      // the order in which several inner observables end is not specified
      if let Ev::N(v) = &ev {
        if in_end(v) && s.q.len() > 1 {
          let sw = match (&s.q[0], &s.q[1]) {
            (Ev::N(a), Ev::N(b)) => in_end(a) && in_end(b) && !vsame(a, v),
            _ => false,
          };
          if sw {
            let f = s.q.pop_front().unwrap();
            let g = s.q.pop_front().unwrap();
            s.q.push_front(f);
            s.q.push_front(g);
          }
        }
      }
      match s.q.pop_front() {
        None => match &ev {
          Ev::N(_) => rx::checkp(false, s.pv, "unexpected item"),
          Ev::E(_) => rx::checkp(false, s.pe, "unexpected error"),
          Ev::C => {
            if !s.may_c {
              rx::checkp(false, s.pv, "unexpected complete");
            }
          }
        },
        Some(x) => match (&x, &ev) {
          (Ev::N(a), Ev::N(b)) => {
            let ok = vsame(a, b);
            // an error that travels as an item (materialized, or the end of an inner observable) is both
            let pp = if !ok && (has_err(a) || has_err(b)) && rx::choose(2) == 1 { s.pe } else { s.pv };
            rx::checkp(ok, pp, "wrong item")
          }
          (Ev::C, Ev::C) => rx::checkp(true, s.pv, "completion"),
          (Ev::E(a), Ev::E(b)) => match (a, b) {
            (Some(a), Some(b)) => rx::checkp(rx::tok_same(&a.0, &b.0), s.pe, "error payload changed"),
            _ => rx::checkp(false, s.pe, "error payload lost"),
          },
          (Ev::N(_), Ev::C) => rx::checkp(false, s.pv, "completed instead of delivering an item"),
          (Ev::N(_), Ev::E(_)) => rx::checkp(false, s.pe, "error instead of an item"),
          (Ev::C, Ev::N(_)) => rx::checkp(false, s.pv, "item instead of completion"),
          (Ev::C, Ev::E(_)) => rx::checkp(false, s.pe, "error instead of completion"),
          (Ev::E(_), Ev::N(_)) => rx::checkp(false, s.pe, "item instead of the error"),
          (Ev::E(_), Ev::C) => rx::checkp(false, s.pe, "completion instead of the error"),
        },
      }
    }
    match &ev {
      Ev::N(_) => {}
      _ => s.over = true,
    }
    if let Some(h) = s.hook.clone() {
      h(&ev);
    }
  }
  /// everything the specification demands so far has been delivered
  pub fn settled(&self) {
    let s = self.s();
    if s.unsub {
      s.q.clear();
    }
    match s.q.front() {
      None => rx::checkp(true, s.pv, "nothing missing"),
      Some(Ev::N(_)) => rx::checkp(false, s.pv, "missing item"),
      Some(Ev::C) => rx::checkp(false, s.pv, "missing completion"),
      Some(Ev::E(_)) => rx::checkp(false, s.pe, "missing error"),
    }
  }
  pub fn observe<X>(&self, o: &Observable<'static, X>, probe: &Arc<()>) -> Subscription<'static>
  where
    X: ToVal + Clone + Send + Sync + 'static,
  {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let (pa, pb, pc) = (probe.clone(), probe.clone(), probe.clone());
    o.subscribe(
      move |x: X| {
        let _p = &pa;
        x.deliver(&a);
      },
      move |e: RxError| {
        let _p = &pb;
        b.got(Ev::E(err_of(&e)));
      },
      move || {
        let _p = &pc;
        c.got(Ev::C);
      },
    )
  }
}

/// a single-input specification
pub trait Spec {
  fn start(&mut self, _o: &Rec) {}
  /// the last event led to another subscription of the source
  fn again(&self) -> bool { false }
  /// an attempt that failed is followed by another one
  fn resub(&self) -> bool { false }
  /// at most that many items, whatever the input
  fn cap(&self) -> Option<u32> { None }
  fn next(&mut self, x: &Val, o: &Rec);
  fn error(&mut self, e: ETok, o: &Rec) {
    o.e(e);
  }
  fn complete(&mut self, o: &Rec) {
    o.c();
  }
}
pub type BSpec = Box<dyn Spec>;
