//! Chains of single-input operators: the definition of a chain is the composition of the definitions.
use crate::core::*;
use crate::ops::{cl, clf};
use crate::run::*;
use crate::rx;
use crate::specs::*;
use another_rxrust::prelude::*;
use std::collections::VecDeque;

/// the second definition reads what the first one writes
struct Pipe {
  a: BSpec,
  b: BSpec,
  mid: Rec,
}
impl Pipe {
  fn drain(&mut self, o: &Rec) {
    loop {
      let ev = self.mid.s().q.pop_front();
      match ev {
        None => return,
        Some(x) => {
          if o.open() {
            match x {
              Ev::N(v) => self.b.next(&v, o),
              Ev::C => self.b.complete(o),
              Ev::E(e) => self.b.error(e.unwrap(), o),
            }
          }
        }
      }
    }
  }
}
impl Spec for Pipe {
  fn start(&mut self, o: &Rec) {
    self.b.start(o);
    self.a.start(&self.mid);
    self.drain(o);
  }
  fn next(&mut self, x: &Val, o: &Rec) {
    if self.mid.open() {
      self.a.next(x, &self.mid);
    }
    self.drain(o);
  }
  fn error(&mut self, e: ETok, o: &Rec) {
    if self.mid.open() {
      self.a.error(e, &self.mid);
    }
    self.drain(o);
  }
  fn complete(&mut self, o: &Rec) {
    if self.mid.open() {
      self.a.complete(&self.mid);
    }
    self.drain(o);
  }
}
pub const NOPS: u32 = 18;
fn build<T: ItemT>(i: u32, f: u32, e: &Env, c: &Vec<T>, o: Obs<T>) -> Obs<T> {
  match i {
    0 => o.map(cl!(e, |x: T| x.ap(1 + f))),
    1 => o.filter(cl!(e, |x: T| x.p(20 + f))),
    2 => o.take(2),
    3 => o.take_last(1),
    4 => o.take_while(cl!(e, |x: T| x.p(30 + f))),
    5 => o.skip(1),
    6 => o.skip_last(1),
    7 => o.skip_while(cl!(e, |x: T| x.p(40 + f))),
    8 => o.distinct_until_changed(),
    9 => o.scan(clf!(e, |p: (T, T)| p.0.ap2(50 + f, &p.1))),
    10 => o.reduce(clf!(e, |p: (T, T)| p.0.ap2(50 + f, &p.1))),
    11 => o.default_if_empty(c[0].clone()),
    12 => o.ignore_elements(),
    13 => o.start_with(vec![c[0].clone(), c[1].clone()].into_iter()),
    14 => o.sum(),
    15 => o.max(),
    16 => o.materialize().dematerialize(),
    _ => o.element_at(2),
  }
}
fn spec(i: u32, f: u32, c: &Vec<Val>) -> BSpec {
  match i {
    0 => Box::new(Map { f: 1 + f }),
    1 => Box::new(Filter { f: 20 + f }),
    2 => Box::new(Take { n: 2, i: 0 }),
    3 => Box::new(TakeLast { n: 1, q: VecDeque::new() }),
    4 => Box::new(TakeWhile { f: 30 + f }),
    5 => Box::new(Skip { n: 1, i: 0 }),
    6 => Box::new(SkipLast { n: 1, q: VecDeque::new() }),
    7 => Box::new(SkipWhile { f: 40 + f, open: false }),
    8 => Box::new(Distinct { last: None }),
    9 => Box::new(Scan { acc: None, f: 50 + f }),
    10 => Box::new(Reduce { acc: None, f: 50 + f }),
    11 => Box::new(DefaultIfEmpty { d: c[0].clone(), some: false }),
    12 => Box::new(Ignore {}),
    13 => Box::new(StartWith { v: c.clone() }),
    14 => Box::new(Sum { acc: None, n: 0, cnt: false }),
    15 => Box::new(MinMax { acc: None, max: true }),
    16 => Box::new(Id {}),
    _ => Box::new(ElementAt { n: 2, i: 0 }),
  }
}
/// the first operator is given, the others vary (one more, two more in the thorough tier)
fn pick(first: u32) -> u32 {
  let mut k = first * NOPS + rx::choose(NOPS);
  if rx::tier() > 0 {
    k = k * (NOPS + 1) + rx::choose(NOPS + 1);
  } else {
    k = k * (NOPS + 1) + NOPS;
  }
  k
}
fn b<T: ItemT>(e: &Env, c: &Vec<T>, o: Obs<T>) -> Obs<T> {
  let (i, j, l) = (e.k / (NOPS + 1) / NOPS, e.k / (NOPS + 1) % NOPS, e.k % (NOPS + 1));
  let o = build(j, 1, e, c, build(i, 0, e, c, o));
  if l < NOPS {
    build(l, 2, e, c, o)
  } else {
    o
  }
}
fn s(e: &Env, c: &Vec<Val>) -> BSpec {
  let (i, j, l) = (e.k / (NOPS + 1) / NOPS, e.k / (NOPS + 1) % NOPS, e.k % (NOPS + 1));
  let p = Pipe { a: spec(i, 0, c), b: spec(j, 1, c), mid: Rec::new("C02", "C02") };
  if l < NOPS {
    Box::new(Pipe { a: Box::new(p), b: spec(l, 2, c), mid: Rec::new("C02", "C02") })
  } else {
    Box::new(p)
  }
}
fn chain<T: ItemT>(first: u32) -> Op<T, T> {
  Op { b: b::<T>, s, ks: &crate::ops::K0, nc: 2, pick: Some((pick, first)) }
}
pub fn sc_chot_map() { hot(&chain::<Tok>(0)) }
pub fn sc_creent_map() { reent(&chain::<PTok>(0)) }
pub fn sc_chot_filter() { hot(&chain::<Tok>(1)) }
pub fn sc_creent_filter() { reent(&chain::<PTok>(1)) }
pub fn sc_chot_take() { hot(&chain::<Tok>(2)) }
pub fn sc_creent_take() { reent(&chain::<PTok>(2)) }
pub fn sc_chot_take_last() { hot(&chain::<Tok>(3)) }
pub fn sc_creent_take_last() { reent(&chain::<PTok>(3)) }
pub fn sc_chot_take_while() { hot(&chain::<Tok>(4)) }
pub fn sc_creent_take_while() { reent(&chain::<PTok>(4)) }
pub fn sc_chot_skip() { hot(&chain::<Tok>(5)) }
pub fn sc_creent_skip() { reent(&chain::<PTok>(5)) }
pub fn sc_chot_skip_last() { hot(&chain::<Tok>(6)) }
pub fn sc_creent_skip_last() { reent(&chain::<PTok>(6)) }
pub fn sc_chot_skip_while() { hot(&chain::<Tok>(7)) }
pub fn sc_creent_skip_while() { reent(&chain::<PTok>(7)) }
pub fn sc_chot_distinct() { hot(&chain::<Tok>(8)) }
pub fn sc_creent_distinct() { reent(&chain::<PTok>(8)) }
pub fn sc_chot_scan() { hot(&chain::<Tok>(9)) }
pub fn sc_creent_scan() { reent(&chain::<PTok>(9)) }
pub fn sc_chot_reduce() { hot(&chain::<Tok>(10)) }
pub fn sc_creent_reduce() { reent(&chain::<PTok>(10)) }
pub fn sc_chot_default() { hot(&chain::<Tok>(11)) }
pub fn sc_creent_default() { reent(&chain::<PTok>(11)) }
pub fn sc_chot_ignore() { hot(&chain::<Tok>(12)) }
pub fn sc_creent_ignore() { reent(&chain::<PTok>(12)) }
pub fn sc_chot_start_with() { hot(&chain::<Tok>(13)) }
pub fn sc_creent_start_with() { reent(&chain::<PTok>(13)) }
pub fn sc_chot_sum() { hot(&chain::<Tok>(14)) }
pub fn sc_creent_sum() { reent(&chain::<PTok>(14)) }
pub fn sc_chot_max() { hot(&chain::<Tok>(15)) }
pub fn sc_creent_max() { reent(&chain::<PTok>(15)) }
pub fn sc_chot_roundtrip() { hot(&chain::<Tok>(16)) }
pub fn sc_creent_roundtrip() { reent(&chain::<PTok>(16)) }
pub fn sc_chot_element_at() { hot(&chain::<Tok>(17)) }
pub fn sc_creent_element_at() { reent(&chain::<PTok>(17)) }
