//! Markers understood by the analyser (never executed).
#![allow(unused_variables)]
use crate::core::Tok;
use std::sync::Arc;
macro_rules! marks { ($($(#[$m:meta])* fn $n:ident $(<$g:ident>)? ($($a:ident : $t:ty),*) $(-> $r:ty)? ;)*) => {
  $(#[inline(never)] pub fn $n $(<$g>)? ($($a:$t),*) $(-> $r)? { loop {} })* } }
marks! {
  fn choose(n: u32) -> u32;
  fn fresh() -> Tok;
  fn tok_const(i: u32) -> Tok;
  fn tok_eq(a: &Tok, b: &Tok) -> bool;
  fn tok_same(a: &Tok, b: &Tok) -> bool;
  fn tok_cmp(a: &Tok, b: &Tok) -> i32;
  fn tok_add(a: &Tok, b: &Tok) -> Tok;
  fn apply(f: u32, x: &Tok) -> Tok;
  fn apply2(f: u32, x: &Tok, y: &Tok) -> Tok;
  fn pred(f: u32, x: &Tok) -> bool;
  fn boundary();
  fn depth() -> u32;
  fn check(c: bool, l: &str);
  fn checkp(c: bool, p: &str, l: &str);
  fn assume(c: bool);
  fn end() -> !;
  fn note(l: &str);
  fn ev(l: &str);
  fn ev_tok(l: &str, t: &Tok);
  fn ev_val<T>(l: &str, t: &T);
  fn settle();
  fn now_ms() -> u64;
  fn unit() -> u64;
  fn set_unit(ns: u64);
  fn live_threads() -> u32;
  fn tid() -> u32;
  fn yield_point();
  fn set_props(p: &str);
  fn conc(b: u32);
  fn conc_raw(b: u32);
  fn tier() -> u32;
  fn cond_wait_until<T>(c: &std::sync::Condvar, g: T, d: std::time::Duration) -> T;
  fn timed_out(b: bool) -> std::sync::WaitTimeoutResult;
  fn mk_waker(w: Arc<crate::shim::WakeCell>) -> std::task::Waker;
}
