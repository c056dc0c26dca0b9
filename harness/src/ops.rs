//! The single-input operators and their definitions.
use crate::core::*;
use crate::run::*;
use crate::rx;
use crate::specs;
use crate::specs::*;
use another_rxrust::prelude::*;
use std::any::Any;
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

pub static K0: [u32; 0] = [];
pub static K012: [u32; 5] = [0, 1, 2, 3, 1000];
pub static KR: [u32; 5] = [1, 2, 0, 3, 4];
pub static K12: [u32; 4] = [1, 2, 3, 1000];

pub fn k(e: &Env) -> usize {
  e.k as usize
}

/// a closure argument of an operator: calls the re-entrancy hook, holds the ownership probe
macro_rules! cl {
  ($e:ident, |$($a:ident $(: $t:ty)?),*| $b:expr) => {{
    let e = $e.clone();
    move |$($a $(: $t)?),*| { e.cb(); $b }
  }};
}
macro_rules! clf {
  ($e:ident, |$($a:ident $(: $t:ty)?),*| $b:expr) => {{
    let e = $e.clone();
    move |$($a $(: $t)?),*| { e.cbf(); $b }
  }};
}
pub(crate) use cl;
pub(crate) use clf;

macro_rules! t_ops {
  ($($name:ident [$ks:expr, $nc:expr] <$x:ty> |$e:ident, $c:ident, $o:ident| $b:expr, |$e2:ident, $v2:ident| $s:expr;)*) => {
    pub mod op { use super::*; $(
      pub fn $name<T: ItemT>() -> Op<T, $x> where $x: Clone + Send + Sync {
        fn b<T: ItemT>($e: &Env, $c: &Vec<T>, $o: Obs<T>) -> Obs<$x> { $b }
        fn s($e2: &Env, $v2: &Vec<Val>) -> BSpec { Box::new($s) }
        Op { b: b::<T>, s, ks: $ks, nc: $nc, pick: None }
      }
    )* }
  };
}

t_ops! {
  id [&K0, 0] <T> |e, c, o| o, |e, c| Id {};
  map [&K0, 0] <T> |e, c, o| o.map(cl!(e, |x: T| x.ap(1))), |e, c| Map { f: 1 };
  filter [&K0, 0] <T> |e, c, o| o.filter(cl!(e, |x: T| x.p(2))), |e, c| Filter { f: 2 };
  take [&K012, 0] <T> |e, c, o| o.take(k(e)), |e, c| Take { n: e.k, i: 0 };
  take_last [&K012, 0] <T> |e, c, o| o.take_last(k(e)), |e, c| TakeLast { n: e.k, q: VecDeque::new() };
  take_while [&K0, 0] <T> |e, c, o| o.take_while(cl!(e, |x: T| x.p(9))), |e, c| TakeWhile { f: 9 };
  skip [&K012, 0] <T> |e, c, o| o.skip(k(e)), |e, c| Skip { n: e.k, i: 0 };
  skip_last [&K012, 0] <T> |e, c, o| o.skip_last(k(e)), |e, c| SkipLast { n: e.k, q: VecDeque::new() };
  skip_while [&K0, 0] <T> |e, c, o| o.skip_while(cl!(e, |x: T| x.p(9))), |e, c| SkipWhile { f: 9, open: false };
  first [&K0, 0] <T> |e, c, o| o.first(), |e, c| Take { n: 1, i: 0 };
  last [&K0, 0] <T> |e, c, o| o.last(), |e, c| TakeLast { n: 1, q: VecDeque::new() };
  element_at [&K012, 0] <T> |e, c, o| o.element_at(k(e)), |e, c| ElementAt { n: e.k, i: 0 };
  distinct [&K0, 0] <T> |e, c, o| o.distinct_until_changed(), |e, c| Distinct { last: None };
  scan [&K0, 0] <T> |e, c, o| o.scan(clf!(e, |p: (T, T)| p.0.ap2(1, &p.1))), |e, c| Scan { acc: None, f: 1 };
  reduce [&K0, 0] <T> |e, c, o| o.reduce(clf!(e, |p: (T, T)| p.0.ap2(1, &p.1))), |e, c| Reduce { acc: None, f: 1 };
  count [&K0, 0] <usize> |e, c, o| o.count(), |e, c| Count { n: 0 };
  sum [&K0, 0] <T> |e, c, o| o.sum(), |e, c| Sum { acc: None, n: 0, cnt: false };
  sum_and_count [&K0, 0] <(T, usize)> |e, c, o| o.sum_and_count(), |e, c| Sum { acc: None, n: 0, cnt: true };
  min [&K0, 0] <T> |e, c, o| o.min(), |e, c| MinMax { acc: None, max: false };
  max [&K0, 0] <T> |e, c, o| o.max(), |e, c| MinMax { acc: None, max: true };
  all [&K0, 0] <bool> |e, c, o| o.all(cl!(e, |x: T| x.p(2))), |e, c| All { f: 2 };
  contains [&K0, 1] <bool> |e, c, o| o.contains(c[0].clone()), |e, c| Contains { t: c[0].clone() };
  default_if_empty [&K0, 1] <T> |e, c, o| o.default_if_empty(c[0].clone()), |e, c| DefaultIfEmpty { d: c[0].clone(), some: false };
  ignore_elements [&K0, 0] <T> |e, c, o| o.ignore_elements(), |e, c| Ignore {};
  start_with [&K0, 2] <T> |e, c, o| o.start_with(c.clone().into_iter()), |e, c| StartWith { v: c.clone() };
  buffer [&K12, 0] <Vec<T>> |e, c, o| o.buffer_with_count(k(e)), |e, c| Buffer { n: e.k, b: Vec::new() };
  materialize [&K0, 0] <Material<T>> |e, c, o| o.materialize(), |e, c| Materialize {};
  demat [&K0, 0] <T> |e, c, o| o.map(|x: T| {
      if x.p(7) { Material::Complete }
      else if x.p(8) { Material::Error(match x.val() { Val::T(t) => mkerr(ETok(t)), _ => mkerr(fresh_err()) }) }
      else { Material::Next(x) }
    }).dematerialize(), |e, c| Demat {};
  tap [&K0, 0] <T> |e, c, o| {
      let (a, b, d) = (e.aux.clone(), e.aux.clone(), e.aux.clone());
      let (pa, pb, pd) = (e.clone(), e.clone(), e.clone());
      o.tap(
        move |x: T| { pa.cb(); a.got(Ev::N(mat_n(x.val()))) },
        move |x| { pb.cb(); b.got(Ev::N(mat_e(err_of(&x)))) },
        move || { pd.cb(); d.got(Ev::N(mat_c())) },
      )
    }, |e, c| Tap { aux: e.aux.clone() };
  map_to_any [&K0, 0] <T> |e, c, o| o.map_to_any().map(|x: Arc<Box<dyn Any + Send + Sync>>| {
      match x.downcast_ref::<T>() { Some(t) => t.clone(), None => panic!("not the item") }
    }), |e, c| Id {};
  retry [&KR, 0] <T> |e, c, o| o.retry(k(e)), |e, c| Retry { n: e.k, i: 1, when: false, re: false };
  retry_when [&K0, 0] <T> |e, c, o| o.retry_when(cl!(e, |x: RxError| match err_of(&x) {
      Some(t) => rx::pred(3, &t.0),
      None => { rx::check(false, "C04:error payload lost"); false }
    })), |e, c| Retry { n: 0, i: 1, when: true, re: false };
  timestamp [&K0, 0] <T> |e, c, o| o.timestamp().map(|x: (SystemTime, T)| x.1), |e, c| Id {};
  window [&K12, 0] <Obs<T>> |e, c, o| o.window_with_count(k(e)), |e, c| Window { n: e.k, i: 0, w: 0, open: false };
  group [&K0, 0] <Obs<T>> |e, c, o| o.group_by(cl!(e, |x: T| x.p(5))), |e, c| Group { g: Vec::new() };
  window_flat [&K12, 0] <T> |e, c, o| o.window_with_count(k(e)).flat_map(|w: Obs<T>| w), |e, c| Id {};
  group_flat [&K0, 0] <T> |e, c, o| o.group_by(cl!(e, |x: T| x.p(5))).flat_map(|g: Obs<T>| g), |e, c| Id {};
}

pub fn sc_hot_id() { hot(&op::id::<Tok>()) }
pub fn sc_twin_id() { twin(&op::id::<Tok>()) }
pub fn sc_cold_id() { cold(&op::id::<Tok>()) }
pub fn sc_reent_id() { reent(&op::id::<PTok>()) }
pub fn sc_hot_map() { hot(&op::map::<Tok>()) }
pub fn sc_twin_map() { twin(&op::map::<Tok>()) }
pub fn sc_cold_map() { cold(&op::map::<Tok>()) }
pub fn sc_reent_map() { reent(&op::map::<PTok>()) }
pub fn sc_hot_filter() { hot(&op::filter::<Tok>()) }
pub fn sc_twin_filter() { twin(&op::filter::<Tok>()) }
pub fn sc_cold_filter() { cold(&op::filter::<Tok>()) }
pub fn sc_reent_filter() { reent(&op::filter::<PTok>()) }
pub fn sc_hot_take() { hot(&op::take::<Tok>()) }
pub fn sc_twin_take() { twin(&op::take::<Tok>()) }
pub fn sc_cold_take() { cold(&op::take::<Tok>()) }
pub fn sc_reent_take() { reent(&op::take::<PTok>()) }
pub fn sc_hot_take_last() { hot(&op::take_last::<Tok>()) }
pub fn sc_twin_take_last() { twin(&op::take_last::<Tok>()) }
pub fn sc_cold_take_last() { cold(&op::take_last::<Tok>()) }
pub fn sc_reent_take_last() { reent(&op::take_last::<PTok>()) }
pub fn sc_hot_take_while() { hot(&op::take_while::<Tok>()) }
pub fn sc_twin_take_while() { twin(&op::take_while::<Tok>()) }
pub fn sc_cold_take_while() { cold(&op::take_while::<Tok>()) }
pub fn sc_reent_take_while() { reent(&op::take_while::<PTok>()) }
pub fn sc_hot_skip() { hot(&op::skip::<Tok>()) }
pub fn sc_twin_skip() { twin(&op::skip::<Tok>()) }
pub fn sc_cold_skip() { cold(&op::skip::<Tok>()) }
pub fn sc_reent_skip() { reent(&op::skip::<PTok>()) }
pub fn sc_hot_skip_last() { hot(&op::skip_last::<Tok>()) }
pub fn sc_twin_skip_last() { twin(&op::skip_last::<Tok>()) }
pub fn sc_cold_skip_last() { cold(&op::skip_last::<Tok>()) }
pub fn sc_reent_skip_last() { reent(&op::skip_last::<PTok>()) }
pub fn sc_hot_skip_while() { hot(&op::skip_while::<Tok>()) }
pub fn sc_twin_skip_while() { twin(&op::skip_while::<Tok>()) }
pub fn sc_cold_skip_while() { cold(&op::skip_while::<Tok>()) }
pub fn sc_reent_skip_while() { reent(&op::skip_while::<PTok>()) }
pub fn sc_hot_first() { hot(&op::first::<Tok>()) }
pub fn sc_twin_first() { twin(&op::first::<Tok>()) }
pub fn sc_cold_first() { cold(&op::first::<Tok>()) }
pub fn sc_reent_first() { reent(&op::first::<PTok>()) }
pub fn sc_hot_last() { hot(&op::last::<Tok>()) }
pub fn sc_twin_last() { twin(&op::last::<Tok>()) }
pub fn sc_cold_last() { cold(&op::last::<Tok>()) }
pub fn sc_reent_last() { reent(&op::last::<PTok>()) }
pub fn sc_hot_element_at() { hot(&op::element_at::<Tok>()) }
pub fn sc_twin_element_at() { twin(&op::element_at::<Tok>()) }
pub fn sc_cold_element_at() { cold(&op::element_at::<Tok>()) }
pub fn sc_reent_element_at() { reent(&op::element_at::<PTok>()) }
pub fn sc_hot_distinct() { hot(&op::distinct::<Tok>()) }
pub fn sc_twin_distinct() { twin(&op::distinct::<Tok>()) }
pub fn sc_cold_distinct() { cold(&op::distinct::<Tok>()) }
pub fn sc_reent_distinct() { reent(&op::distinct::<PTok>()) }
pub fn sc_hot_scan() { hot(&op::scan::<Tok>()) }
pub fn sc_twin_scan() { twin(&op::scan::<Tok>()) }
pub fn sc_cold_scan() { cold(&op::scan::<Tok>()) }
pub fn sc_reent_scan() { reent(&op::scan::<PTok>()) }
pub fn sc_hot_reduce() { hot(&op::reduce::<Tok>()) }
pub fn sc_twin_reduce() { twin(&op::reduce::<Tok>()) }
pub fn sc_cold_reduce() { cold(&op::reduce::<Tok>()) }
pub fn sc_reent_reduce() { reent(&op::reduce::<PTok>()) }
pub fn sc_reentf_reduce() { reentf(&op::reduce::<PTok>()) }
pub fn sc_reentf_scan() { reentf(&op::scan::<PTok>()) }
pub fn sc_hot_count() { hot(&op::count::<Tok>()) }
pub fn sc_twin_count() { twin(&op::count::<Tok>()) }
pub fn sc_cold_count() { cold(&op::count::<Tok>()) }
pub fn sc_reent_count() { reent(&op::count::<PTok>()) }
pub fn sc_hot_sum() { hot(&op::sum::<Tok>()) }
pub fn sc_twin_sum() { twin(&op::sum::<Tok>()) }
pub fn sc_cold_sum() { cold(&op::sum::<Tok>()) }
pub fn sc_reent_sum() { reent(&op::sum::<PTok>()) }
pub fn sc_hot_sum_and_count() { hot(&op::sum_and_count::<Tok>()) }
pub fn sc_twin_sum_and_count() { twin(&op::sum_and_count::<Tok>()) }
pub fn sc_cold_sum_and_count() { cold(&op::sum_and_count::<Tok>()) }
pub fn sc_reent_sum_and_count() { reent(&op::sum_and_count::<PTok>()) }
pub fn sc_hot_min() { hot(&op::min::<Tok>()) }
pub fn sc_twin_min() { twin(&op::min::<Tok>()) }
pub fn sc_cold_min() { cold(&op::min::<Tok>()) }
pub fn sc_reent_min() { reent(&op::min::<PTok>()) }
pub fn sc_hot_max() { hot(&op::max::<Tok>()) }
pub fn sc_twin_max() { twin(&op::max::<Tok>()) }
pub fn sc_cold_max() { cold(&op::max::<Tok>()) }
pub fn sc_reent_max() { reent(&op::max::<PTok>()) }
pub fn sc_hot_all() { hot(&op::all::<Tok>()) }
pub fn sc_twin_all() { twin(&op::all::<Tok>()) }
pub fn sc_cold_all() { cold(&op::all::<Tok>()) }
pub fn sc_reent_all() { reent(&op::all::<PTok>()) }
pub fn sc_hot_contains() { hot(&op::contains::<Tok>()) }
pub fn sc_twin_contains() { twin(&op::contains::<Tok>()) }
pub fn sc_cold_contains() { cold(&op::contains::<Tok>()) }
pub fn sc_reent_contains() { reent(&op::contains::<PTok>()) }
pub fn sc_hot_default_if_empty() { hot(&op::default_if_empty::<Tok>()) }
pub fn sc_twin_default_if_empty() { twin(&op::default_if_empty::<Tok>()) }
pub fn sc_cold_default_if_empty() { cold(&op::default_if_empty::<Tok>()) }
pub fn sc_reent_default_if_empty() { reent(&op::default_if_empty::<PTok>()) }
pub fn sc_hot_ignore_elements() { hot(&op::ignore_elements::<Tok>()) }
pub fn sc_twin_ignore_elements() { twin(&op::ignore_elements::<Tok>()) }
pub fn sc_cold_ignore_elements() { cold(&op::ignore_elements::<Tok>()) }
pub fn sc_reent_ignore_elements() { reent(&op::ignore_elements::<PTok>()) }
pub fn sc_hot_start_with() { hot(&op::start_with::<Tok>()) }
pub fn sc_twin_start_with() { twin(&op::start_with::<Tok>()) }
pub fn sc_cold_start_with() { cold(&op::start_with::<Tok>()) }
pub fn sc_reent_start_with() { reent(&op::start_with::<PTok>()) }
pub fn sc_hot_buffer() { hot(&op::buffer::<Tok>()) }
pub fn sc_twin_buffer() { twin(&op::buffer::<Tok>()) }
pub fn sc_cold_buffer() { cold(&op::buffer::<Tok>()) }
pub fn sc_reent_buffer() { reent(&op::buffer::<PTok>()) }
pub fn sc_hot_materialize() { hot(&op::materialize::<Tok>()) }
pub fn sc_twin_materialize() { twin(&op::materialize::<Tok>()) }
pub fn sc_cold_materialize() { cold(&op::materialize::<Tok>()) }
pub fn sc_reent_materialize() { reent(&op::materialize::<PTok>()) }
pub fn sc_hot_demat() { hot(&op::demat::<Tok>()) }
pub fn sc_twin_demat() { twin(&op::demat::<Tok>()) }
pub fn sc_cold_demat() { cold(&op::demat::<Tok>()) }
pub fn sc_reent_demat() { reent(&op::demat::<PTok>()) }
pub fn sc_hot_tap() { hot(&op::tap::<Tok>()) }
pub fn sc_twin_tap() { twin(&op::tap::<Tok>()) }
pub fn sc_cold_tap() { cold(&op::tap::<Tok>()) }
pub fn sc_reent_tap() { reent(&op::tap::<PTok>()) }
pub fn sc_hot_map_to_any() { hot(&op::map_to_any::<Tok>()) }
pub fn sc_twin_map_to_any() { twin(&op::map_to_any::<Tok>()) }
pub fn sc_cold_map_to_any() { cold(&op::map_to_any::<Tok>()) }
pub fn sc_reent_map_to_any() { reent(&op::map_to_any::<PTok>()) }
pub fn sc_hot_timestamp() { hot(&op::timestamp::<Tok>()) }
pub fn sc_twin_timestamp() { twin(&op::timestamp::<Tok>()) }
pub fn sc_cold_timestamp() { cold(&op::timestamp::<Tok>()) }
pub fn sc_reent_timestamp() { reent(&op::timestamp::<PTok>()) }
pub fn sc_hot_retry() { hot(&op::retry::<Tok>()) }
pub fn sc_twin_retry() { twin(&op::retry::<Tok>()) }
pub fn sc_cold_retry() { cold(&op::retry::<Tok>()) }
pub fn sc_reent_retry() { reent(&op::retry::<PTok>()) }
pub fn sc_hot_retry_when() { hot(&op::retry_when::<Tok>()) }
pub fn sc_twin_retry_when() { twin(&op::retry_when::<Tok>()) }
pub fn sc_cold_retry_when() { cold(&op::retry_when::<Tok>()) }
pub fn sc_reent_retry_when() { reent(&op::retry_when::<PTok>()) }
pub fn sc_hot_window() { hot(&op::window::<Tok>()) }
pub fn sc_twin_window() { twin(&op::window::<Tok>()) }
pub fn sc_cold_window() { cold(&op::window::<Tok>()) }
pub fn sc_reent_window() { reent(&op::window::<PTok>()) }
pub fn sc_hot_group() { hot(&op::group::<Tok>()) }
pub fn sc_twin_group() { twin(&op::group::<Tok>()) }
pub fn sc_cold_group() { cold(&op::group::<Tok>()) }
pub fn sc_reent_group() { reent(&op::group::<PTok>()) }
pub fn sc_hot_window_flat() { hot(&op::window_flat::<Tok>()) }
pub fn sc_twin_window_flat() { twin(&op::window_flat::<Tok>()) }
pub fn sc_cold_window_flat() { cold(&op::window_flat::<Tok>()) }
pub fn sc_reent_window_flat() { reent(&op::window_flat::<PTok>()) }
pub fn sc_hot_group_flat() { hot(&op::group_flat::<Tok>()) }
pub fn sc_twin_group_flat() { twin(&op::group_flat::<Tok>()) }
pub fn sc_cold_group_flat() { cold(&op::group_flat::<Tok>()) }
pub fn sc_reent_group_flat() { reent(&op::group_flat::<PTok>()) }
