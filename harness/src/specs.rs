//! Definitions of the single-input operators, as state machines over events.
use crate::core::*;
use crate::rx;
use std::collections::VecDeque;

macro_rules! spec {
  ($n:ident { $($f:ident : $t:ty),* } $($body:tt)*) => {
    pub struct $n { $(pub $f: $t),* }
    impl Spec for $n { $($body)* }
  };
}

spec!(Id {} fn next(&mut self, x: &Val, o: &Rec) { o.n(x.clone()); });
spec!(Map { f: u32 } fn next(&mut self, x: &Val, o: &Rec) { o.n(vap(self.f, x)); });
spec!(Filter { f: u32 } fn next(&mut self, x: &Val, o: &Rec) {
  if vp(self.f, x) { o.n(x.clone()); }
});
spec!(Take { n: u32, i: u32 }
  fn cap(&self) -> Option<u32> { Some(self.n) }
  fn next(&mut self, x: &Val, o: &Rec) {
    if self.i < self.n {
      self.i += 1;
      o.n(x.clone());
    }
    if self.i >= self.n { o.c(); }
  }
  fn start(&mut self, o: &Rec) { if self.n == 0 { o.may_complete(); } }
);
spec!(TakeLast { n: u32, q: VecDeque<Val> }
  fn cap(&self) -> Option<u32> { Some(self.n) }
  fn next(&mut self, x: &Val, _: &Rec) {
    self.q.push_back(x.clone());
    if self.q.len() as u32 > self.n { self.q.pop_front(); }
  }
  fn complete(&mut self, o: &Rec) {
    while let Some(x) = self.q.pop_front() { o.n(x); }
    o.c();
  }
);
spec!(TakeWhile { f: u32 } fn next(&mut self, x: &Val, o: &Rec) {
  if vp(self.f, x) { o.n(x.clone()); } else { o.c(); }
});
spec!(Skip { n: u32, i: u32 } fn next(&mut self, x: &Val, o: &Rec) {
  if self.i >= self.n { o.n(x.clone()); } else { self.i += 1; }
});
spec!(SkipLast { n: u32, q: VecDeque<Val> } fn next(&mut self, x: &Val, o: &Rec) {
  self.q.push_back(x.clone());
  if self.q.len() as u32 > self.n {
    if let Some(x) = self.q.pop_front() { o.n(x); }
  }
});
spec!(SkipWhile { f: u32, open: bool } fn next(&mut self, x: &Val, o: &Rec) {
  if !self.open && !vp(self.f, x) { self.open = true; }
  if self.open { o.n(x.clone()); }
});
spec!(ElementAt { n: u32, i: u32 }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, x: &Val, o: &Rec) {
    if self.i < self.n { self.i += 1; }
    if self.i == self.n {
      if self.n > 0 { o.n(x.clone()); }
      o.c();
    }
  }
  fn start(&mut self, o: &Rec) { if self.n == 0 { o.may_complete(); } }
);
spec!(Distinct { last: Option<Val> } fn next(&mut self, x: &Val, o: &Rec) {
  let same = match &self.last { Some(l) => veq(l, x), None => false };
  if !same { o.n(x.clone()); self.last = Some(x.clone()); }
});
spec!(Scan { acc: Option<Val>, f: u32 } fn next(&mut self, x: &Val, o: &Rec) {
  let r = match &self.acc { Some(a) => vap2(self.f, a, x), None => x.clone() };
  self.acc = Some(r.clone());
  o.n(r);
});
spec!(Reduce { acc: Option<Val>, f: u32 }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, x: &Val, _: &Rec) {
    let r = match &self.acc { Some(a) => vap2(self.f, a, x), None => x.clone() };
    self.acc = Some(r);
  }
  fn complete(&mut self, o: &Rec) {
    if let Some(a) = self.acc.take() { o.n(a); }
    o.c();
  }
);
spec!(Count { n: i64 }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, _: &Val, _: &Rec) { self.n += 1; }
  fn complete(&mut self, o: &Rec) { o.n(Val::I(self.n)); o.c(); }
);
spec!(Sum { acc: Option<Val>, n: i64, cnt: bool }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, x: &Val, _: &Rec) {
    self.n += if self.cnt { 1 } else { 0 };
    let r = match &self.acc { Some(a) => vadd(a, x), None => x.clone() };
    self.acc = Some(r);
  }
  fn complete(&mut self, o: &Rec) {
    if let Some(a) = self.acc.take() {
      if self.cnt { o.n(Val::L(vec2(a, Val::I(self.n)))); } else { o.n(a); }
    }
    o.c();
  }
);
spec!(MinMax { acc: Option<Val>, max: bool }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, x: &Val, _: &Rec) {
    let better = match &self.acc {
      None => true,
      Some(a) => if self.max { vlt(a, x) } else { vlt(x, a) },
    };
    if better { self.acc = Some(x.clone()); }
  }
  fn complete(&mut self, o: &Rec) {
    if let Some(a) = self.acc.take() { o.n(a); }
    o.c();
  }
);
spec!(All { f: u32 }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, x: &Val, o: &Rec) {
    if !vp(self.f, x) { o.n(Val::B(false)); o.c(); }
  }
  fn complete(&mut self, o: &Rec) { o.n(Val::B(true)); o.c(); }
);
spec!(Contains { t: Val }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, x: &Val, o: &Rec) {
    if veq(x, &self.t) { o.n(Val::B(true)); o.c(); }
  }
  // pinned down by the crate's own test: an error answers "no"
  fn error(&mut self, _: ETok, o: &Rec) { o.n(Val::B(false)); o.c(); }
  fn complete(&mut self, o: &Rec) { o.n(Val::B(false)); o.c(); }
);
spec!(DefaultIfEmpty { d: Val, some: bool }
  fn next(&mut self, x: &Val, o: &Rec) { self.some = true; o.n(x.clone()); }
  fn complete(&mut self, o: &Rec) {
    if !self.some { o.n(self.d.clone()); }
    o.c();
  }
);
spec!(Ignore {} fn cap(&self) -> Option<u32> { Some(0) } fn next(&mut self, _: &Val, _: &Rec) {});
spec!(StartWith { v: Vec<Val> }
  fn start(&mut self, o: &Rec) { for x in self.v.iter() { o.n(x.clone()); } }
  fn next(&mut self, x: &Val, o: &Rec) { o.n(x.clone()); }
);
spec!(Buffer { n: u32, b: Vec<Val> }
  fn next(&mut self, x: &Val, o: &Rec) {
    self.b.push(x.clone());
    if self.b.len() as u32 == self.n {
      let b = std::mem::replace(&mut self.b, Vec::new());
      o.n(Val::L(b));
    }
  }
  fn complete(&mut self, o: &Rec) {
    if self.b.len() > 0 {
      let b = std::mem::replace(&mut self.b, Vec::new());
      o.n(Val::L(b));
    }
    o.c();
  }
);
spec!(Materialize {}
  fn next(&mut self, x: &Val, o: &Rec) { o.n(mat_n(x.clone())); }
  fn error(&mut self, e: ETok, o: &Rec) { o.n(mat_e(Some(e))); o.c(); }
  fn complete(&mut self, o: &Rec) { o.n(mat_c()); o.c(); }
);
// source items are decoded by the client: predicate 7 = "is a completion", predicate 8 = "is an error"
spec!(Demat {}
  fn next(&mut self, x: &Val, o: &Rec) {
    if vp(7, x) { o.c(); }
    else if vp(8, x) { if let Val::T(t) = x { o.e(ETok(*t)); } }
    else { o.n(x.clone()); }
  }
);
spec!(Tap { aux: Rec }
  fn next(&mut self, x: &Val, o: &Rec) { self.aux.s().q.push_back(Ev::N(mat_n(x.clone()))); o.n(x.clone()); }
  fn error(&mut self, e: ETok, o: &Rec) { self.aux.s().q.push_back(Ev::N(mat_e(Some(e)))); o.e(e); }
  fn complete(&mut self, o: &Rec) { self.aux.s().q.push_back(Ev::N(mat_c())); o.c(); }
);
spec!(Window { n: u32, i: u32, w: usize, open: bool }
  fn next(&mut self, x: &Val, o: &Rec) {
    if !self.open { self.open = true; o.n(in_open(self.w)); }
    o.n(in_ev(self.w, mat_n(x.clone())));
    self.i += 1;
    if self.i == self.n {
      o.n(in_ev(self.w, mat_c()));
      self.i = 0;
      self.open = false;
      self.w = (self.w + 1) % 3;
    }
  }
  fn error(&mut self, e: ETok, o: &Rec) {
    if self.open { o.n(in_ev(self.w, mat_e(Some(e)))); }
    o.e(e);
  }
  fn complete(&mut self, o: &Rec) {
    if self.open { o.n(in_ev(self.w, mat_c())); }
    o.c();
  }
);
/// groups of the keys `pred(5)` = true / false
spec!(Group { g: Vec<bool> }
  fn next(&mut self, x: &Val, o: &Rec) {
    let k = vp(5, x);
    let mut i = 0;
    while i < self.g.len() && self.g[i] != k { i += 1; }
    if i == self.g.len() { self.g.push(k); o.n(in_open(i)); }
    o.n(in_ev(i, mat_n(x.clone())));
  }
  fn error(&mut self, e: ETok, o: &Rec) {
    let mut i = 0;
    while i < self.g.len() { o.n(in_ev(i, mat_e(Some(e)))); i += 1; }
    o.e(e);
  }
  fn complete(&mut self, o: &Rec) {
    let mut i = 0;
    while i < self.g.len() { o.n(in_ev(i, mat_c())); i += 1; }
    o.c();
  }
);
/// composition: what the first definition puts out is fed to the second
pub struct Seq {
  pub a: BSpec,
  pub b: BSpec,
  mid: Rec,
}
impl Seq {
  pub fn new(a: BSpec, b: BSpec) -> Seq {
    Seq { a, b, mid: Rec::new("C02", "C04") }
  }
  fn pump(&mut self, o: &Rec) {
    loop {
      let e = self.mid.s().q.pop_front();
      match e {
        None => break,
        Some(e) => {
          if o.open() {
            match e {
              Ev::N(v) => self.b.next(&v, o),
              Ev::E(Some(e)) => self.b.error(e, o),
              Ev::E(None) => {}
              Ev::C => self.b.complete(o),
            }
          }
        }
      }
    }
    if self.mid.s().may_c {
      o.may_complete();
    }
  }
}
impl Spec for Seq {
  fn start(&mut self, o: &Rec) {
    self.b.start(o);
    if o.open() {
      self.a.start(&self.mid);
    }
    self.pump(o);
  }
  fn next(&mut self, x: &Val, o: &Rec) {
    if self.mid.open() {
      self.a.next(x, &self.mid);
      self.pump(o);
    }
  }
  fn error(&mut self, e: ETok, o: &Rec) {
    if self.mid.open() {
      self.a.error(e, &self.mid);
      self.pump(o);
    }
  }
  fn complete(&mut self, o: &Rec) {
    if self.mid.open() {
      self.a.complete(&self.mid);
      self.pump(o);
    }
  }
}

/// n attempts altogether, any number if n is 0
spec!(Retry { n: u32, i: u32, when: bool, re: bool }
  fn next(&mut self, x: &Val, o: &Rec) { self.re = false; o.n(x.clone()); }
  fn complete(&mut self, o: &Rec) { self.re = false; o.c(); }
  fn error(&mut self, e: ETok, o: &Rec) {
    self.re = if self.when { vp(3, &Val::T(e.0)) } else { self.n == 0 || self.i < self.n };
    if !self.re {
      o.e(e);
    } else if self.n != 0 {
      self.i += 1;
    }
  }
  fn resub(&self) -> bool { true }
  fn again(&self) -> bool { self.re }
);
