//! Definitions of the combining operators and the operators under analysis.
use crate::core::*;
use crate::multi::*;
use crate::ops::cl;
use crate::rx;
use another_rxrust::prelude::*;
use std::collections::VecDeque;

fn bools(n: usize, b: bool) -> Vec<bool> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n {
    v.push(b);
    i += 1;
  }
  v
}
/// how far one source may run ahead of another
fn backlog(x: &Val) -> usize {
  if let Val::I(_) = x { return 10_000; }
  if rx::tier() > 0 { 3 } else { 2 }
}
fn every(v: &Vec<bool>) -> bool {
  let mut i = 0;
  while i < v.len() {
    if !v[i] {
      return false;
    }
    i += 1;
  }
  true
}
macro_rules! mspec {
  ($n:ident { $($f:ident : $t:ty),* } $($body:tt)*) => {
    pub struct $n { $(pub $f: $t),* }
    impl MSpec for $n { $($body)* }
  };
}
mspec!(Merge { d: Vec<bool> }
  fn next(&mut self, _i: usize, x: &Val, o: &Rec) { o.n(x.clone()); }
  fn complete(&mut self, i: usize, o: &Rec) { self.d[i] = true; if every(&self.d) { o.c(); } }
  fn want(&self, i: usize) -> u32 { if self.d[i] { 0 } else { 1 } }
);
// source 0 is the outer one; its j-th item opens source j
mspec!(FlatMap { d: Vec<bool>, opened: usize }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) {
    if i == 0 {
      if self.opened + 1 >= self.d.len() { rx::end(); }
      self.opened += 1;
      self.d[self.opened] = false;
    } else { o.n(x.clone()); }
  }
  fn complete(&mut self, i: usize, o: &Rec) { self.d[i] = true; if every(&self.d) { o.c(); } }
  fn want(&self, i: usize) -> u32 { if self.d[i] { 0 } else { 1 } }
);
mspec!(Concat { at: usize, n: usize }
  fn next(&mut self, _i: usize, x: &Val, o: &Rec) { o.n(x.clone()); }
  fn complete(&mut self, _i: usize, o: &Rec) { self.at += 1; if self.at == self.n { o.c(); } }
  fn want(&self, i: usize) -> u32 { if i == self.at { 1 } else { 0 } }
);
mspec!(Zip { q: Vec<VecDeque<Val>>, d: Vec<bool> }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) {
    self.q[i].push_back(x.clone());
    if self.q[i].len() > backlog(x) { rx::end(); }
    let mut j = 0;
    while j < self.q.len() { if self.q[j].len() == 0 { return; } j += 1; }
    let mut t = Vec::new();
    j = 0;
    while j < self.q.len() { if let Some(x) = self.q[j].pop_front() { t.push(x); } j += 1; }
    o.n(Val::L(t));
    self.may(o);
  }
  fn complete(&mut self, i: usize, o: &Rec) {
    self.d[i] = true;
    if every(&self.d) { o.c(); } else { self.may(o); }
  }
  fn want(&self, i: usize) -> u32 { if self.d[i] { 0 } else { 1 } }
);
impl Zip {
  // no further tuple is possible
  fn may(&self, o: &Rec) {
    let mut j = 0;
    while j < self.q.len() { if self.d[j] && self.q[j].len() == 0 { o.may_complete(); } j += 1; }
  }
}
mspec!(CombineLatest { l: Vec<Option<Val>>, d: Vec<bool> }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) {
    self.l[i] = Some(x.clone());
    let mut t = Vec::new();
    let mut j = 0;
    while j < self.l.len() {
      match &self.l[j] { Some(x) => t.push(x.clone()), None => return }
      j += 1;
    }
    o.n(Val::L(t));
  }
  fn complete(&mut self, i: usize, o: &Rec) {
    self.d[i] = true;
    if self.l[i].is_none() { o.may_complete(); }
    if every(&self.d) { o.c(); }
  }
  fn want(&self, i: usize) -> u32 { if self.d[i] { 0 } else { 1 } }
);
mspec!(Amb { w: Option<usize>, tried: Vec<bool> }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) { if self.win(i) { o.n(x.clone()); } }
  fn error(&mut self, i: usize, e: ETok, o: &Rec) { if self.win(i) { o.e(e); } }
  fn complete(&mut self, i: usize, o: &Rec) { if self.win(i) { o.c(); } }
  fn want(&self, i: usize) -> u32 {
    match self.w {
      None => 1,
      Some(w) => if w == i { 1 } else if self.tried[i] { 0 } else { 2 },
    }
  }
  fn lazy(&self, i: usize) -> bool { !self.tried[i] }
);
impl Amb {
  fn win(&mut self, i: usize) -> bool {
    self.tried[i] = true;
    match self.w {
      None => { self.w = Some(i); true }
      Some(w) => w == i,
    }
  }
}
// source 1 is the trigger
mspec!(TakeUntil {}
  fn next(&mut self, i: usize, x: &Val, o: &Rec) { if i == 0 { o.n(x.clone()); } else { o.c(); } }
  fn complete(&mut self, i: usize, o: &Rec) { if i == 0 { o.c(); } }
  fn want(&self, i: usize) -> u32 { if i == 0 { 1 } else { 2 } }
  fn main(&self, i: usize) -> bool { i == 0 }
  fn skip_error(&self, i: usize) -> bool { i == 1 }
);
mspec!(SkipUntil { open: bool }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) {
    if i == 0 { if self.open { o.n(x.clone()); } } else { self.open = true; }
  }
  fn complete(&mut self, i: usize, o: &Rec) { if i == 0 { o.c(); } }
  fn want(&self, i: usize) -> u32 { if i == 0 { 1 } else { 2 } }
  fn main(&self, i: usize) -> bool { i == 0 }
  fn skip_error(&self, i: usize) -> bool { i == 1 }
);
mspec!(Sample { v: Option<Val> }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) {
    if i == 0 { self.v = Some(x.clone()); }
    else if let Some(v) = self.v.take() { o.n(v); }
  }
  fn complete(&mut self, i: usize, o: &Rec) { if i == 0 { o.c(); } }
  fn want(&self, i: usize) -> u32 { if i == 0 { 1 } else { 2 } }
  fn main(&self, i: usize) -> bool { i == 0 }
  fn skip_error(&self, i: usize) -> bool { i == 1 }
  fn skip_complete(&self, i: usize) -> bool { i == 1 }
);
mspec!(SeqEq { q: Vec<Vec<Val>>, d: Vec<bool> }
  fn cap(&self) -> Option<u32> { Some(1) }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) { 
    self.q[i].push(x.clone());
    if self.q[i].len() > backlog(x) { rx::end(); }
    self.judge(o);
  }
  fn complete(&mut self, i: usize, o: &Rec) { self.d[i] = true; self.judge(o); }
  fn want(&self, i: usize) -> u32 { if self.d[i] { 0 } else { 1 } }
);
impl SeqEq {
  // q keeps only what has not been matched by all others yet
  fn judge(&mut self, o: &Rec) {
    loop {
      let n = self.q.len();
      let mut full = true;
      let mut some = false;
      let mut short = false;
      let mut i = 0;
      while i < n {
        if self.q[i].len() == 0 { full = false; if self.d[i] { short = true; } } else { some = true; }
        i += 1;
      }
      if some && short { o.n(Val::B(false)); o.c(); return; }
      // two items at the same position differ
      let mut a = 0;
      while a < n {
        let mut b = a + 1;
        while b < n {
          if self.q[a].len() > 0 && self.q[b].len() > 0 && !veq(&self.q[a][0], &self.q[b][0]) {
            o.n(Val::B(false));
            o.c();
            return;
          }
          b += 1;
        }
        a += 1;
      }
      if !full { break; }
      i = 0;
      while i < n { self.q[i].remove(0); i += 1; }
    }
    if every(&self.d) { o.n(Val::B(true)); o.c(); }
  }
}
// items of source 0 until source 1 emits, then only those of source 1; terminals are not specified
mspec!(Switch { sw: bool, d: bool }
  fn next(&mut self, i: usize, x: &Val, o: &Rec) {
    if i == 1 { self.sw = true; }
    if i == 1 || !self.sw { o.n(x.clone()); }
  }
  fn complete(&mut self, i: usize, o: &Rec) {
    if i == 1 { o.c(); } else { self.d = true; o.may_complete(); }
  }
  fn want(&self, i: usize) -> u32 { if i == 1 { 1 } else { 2 } }
  fn skip_error(&self, i: usize) -> bool { i == 0 && self.sw }
  fn skip_complete(&self, i: usize) -> bool { i == 1 && !self.sw && !self.d }
);
// source 1 is what the function returns for the error of source 0
mspec!(Resume { e: bool, got: Rec }
  fn next(&mut self, _i: usize, x: &Val, o: &Rec) { o.n(x.clone()); }
  fn error(&mut self, i: usize, e: ETok, o: &Rec) {
    if i == 0 { self.e = true; self.got.s().q.push_back(Ev::E(Some(e))); } else { o.e(e); }
  }
  fn complete(&mut self, _i: usize, o: &Rec) { o.c(); }
  fn want(&self, i: usize) -> u32 { if (i == 1) == self.e { 1 } else { 0 } }
);

pub static N23: [usize; 2] = [2, 3];
pub static N2: [usize; 1] = [2];
pub static N3: [usize; 1] = [3];

fn rest<T: ItemT>(v: &Vec<Obs<T>>) -> Vec<Obs<T>> {
  let mut r = Vec::new();
  let mut i = 1;
  while i < v.len() {
    r.push(v[i].clone());
    i += 1;
  }
  r
}
macro_rules! m_ops {
  ($($name:ident [$ns:expr] <$x:ty> |$e:ident, $v:ident| $b:expr, |$e2:ident, $n:ident| $s:expr;)*) => {
    pub mod mop { use super::*; $(
      pub fn $name<T: ItemT>() -> MOp<T, $x> where $x: Clone + Send + Sync {
        fn b<T: ItemT>($e: &Env, $v: Vec<Obs<T>>) -> Obs<$x> { $b }
        fn s($e2: &Env, $n: usize) -> BMSpec { Box::new($s) }
        MOp { b: b::<T>, s, ks: &crate::ops::K0, ns: $ns }
      }
    )* }
  };
}
fn vd(n: usize) -> Vec<VecDeque<Val>> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n { v.push(VecDeque::new()); i += 1; }
  v
}
fn vv(n: usize) -> Vec<Vec<Val>> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n { v.push(Vec::new()); i += 1; }
  v
}
fn vn(n: usize) -> Vec<Option<Val>> {
  let mut v = Vec::new();
  let mut i = 0;
  while i < n { v.push(None); i += 1; }
  v
}
fn fm_done(n: usize) -> Vec<bool> {
  let mut v = bools(n, true);
  v[0] = false;
  v
}
/// functions given to combine_latest put this in front, so that a tuple shows it went through them
fn join<T: ItemT>(v: Vec<T>) -> Vec<T> { v }

m_ops! {
  merge [&N23] <T> |e, v| v[0].merge(&rest(&v)), |e, n| Merge { d: bools(n, false) };
  concat [&N23] <T> |e, v| v[0].concat(&rest(&v)), |e, n| Concat { at: 0, n };
  zip [&N23] <Vec<T>> |e, v| v[0].zip(&rest(&v)), |e, n| Zip { q: vd(n), d: bools(n, false) };
  combine [&N23] <Vec<T>> |e, v| v[0].combine_latest(&rest(&v), cl!(e, |x: Vec<T>| join(x))), |e, n| CombineLatest { l: vn(n), d: bools(n, false) };
  amb [&N23] <T> |e, v| v[0].amb(&rest(&v)), |e, n| Amb { w: None, tried: bools(n, false) };
  take_until [&N2] <T> |e, v| v[0].take_until(v[1].clone()), |e, n| TakeUntil {};
  skip_until [&N2] <T> |e, v| v[0].skip_until(v[1].clone()), |e, n| SkipUntil { open: false };
  sample [&N2] <T> |e, v| v[0].sample(v[1].clone()), |e, n| Sample { v: None };
  seq_eq [&N23] <bool> |e, v| v[0].sequence_equal(&rest(&v)), |e, n| SeqEq { q: vv(n), d: bools(n, false) };
  switch [&N2] <T> |e, v| v[0].switch_on_next(v[1].clone()), |e, n| Switch { sw: false, d: false };
  flat_map [&N3] <T> |e, v| {
      let e2 = e.clone();
      let cnt = Sh::new(0usize);
      let r = rest(&v);
      v[0].flat_map(move |_x: T| {
        // bounded number of inner observables
        *e2.n.g() += 1;
        if *e2.n.g() > if rx::tier() > 0 { 3 } else { 2 } { rx::end(); }
        e2.cb();
        let i = *cnt.g();
        *cnt.g() = if i + 1 >= r.len() { 0 } else { i + 1 };
        r[i].clone()
      })
    }, |e, n| FlatMap { d: fm_done(n), opened: 0 };
  resume [&N2] <T> |e, v| {
      let e2 = e.clone();
      let r = v[1].clone();
      v[0].on_error_resume_next(move |x| {
        e2.cb();
        e2.aux.s().over = false;
        e2.aux.got(Ev::E(err_of(&x)));
        r.clone()
      })
    }, |e, n| Resume { e: false, got: e.aux.clone() };
}
macro_rules! scs {
  ($($f:ident $r:ident $o:ident $t:ty;)*) => { $(pub fn $f() { $r(&mop::$o::<$t>()) })* };
}
scs! {
  sc_mhot_merge mhot merge Tok; sc_mcold_merge mcold merge Tok; sc_mtwin_merge mtwin merge Tok;
  sc_mhot_concat mhot concat Tok; sc_mcold_concat mcold concat Tok; sc_mtwin_concat mtwin concat Tok;
  sc_mhot_zip mhot zip Tok; sc_mcold_zip mcold zip Tok; sc_mtwin_zip mtwin zip Tok;
  sc_mhot_combine mhot combine Tok; sc_mcold_combine mcold combine Tok; sc_mtwin_combine mtwin combine Tok;
  sc_mhot_amb mhot amb Tok; sc_mcold_amb mcold amb Tok; sc_mtwin_amb mtwin amb Tok;
  sc_mhot_take_until mhot take_until Tok; sc_mcold_take_until mcold take_until Tok; sc_mtwin_take_until mtwin take_until Tok;
  sc_mhot_skip_until mhot skip_until Tok; sc_mcold_skip_until mcold skip_until Tok; sc_mtwin_skip_until mtwin skip_until Tok;
  sc_mhot_sample mhot sample Tok; sc_mcold_sample mcold sample Tok; sc_mtwin_sample mtwin sample Tok;
  sc_mhot_seq_eq mhot seq_eq Tok; sc_mcold_seq_eq mcold seq_eq Tok; sc_mtwin_seq_eq mtwin seq_eq Tok;
  sc_mhot_switch mhot switch Tok; sc_mcold_switch mcold switch Tok; sc_mtwin_switch mtwin switch Tok;
  sc_mhot_flat_map mhot flat_map Tok; sc_mcold_flat_map mcold flat_map Tok;
  sc_mhot_resume mhot resume Tok; sc_mcold_resume mcold resume Tok; sc_mtwin_resume mtwin resume Tok;
  sc_mreent_merge mreent merge PTok; sc_mreent_concat mreent concat PTok; sc_mreent_zip mreent zip PTok;
  sc_mreent_combine mreent combine PTok; sc_mreent_amb mreent amb PTok; sc_mreent_take_until mreent take_until PTok;
  sc_mreent_skip_until mreent skip_until PTok; sc_mreent_sample mreent sample PTok; sc_mreent_seq_eq mreent seq_eq PTok;
  sc_mreent_switch mreent switch PTok; sc_mreent_flat_map mreent flat_map PTok; sc_mreent_resume mreent resume PTok;
}
