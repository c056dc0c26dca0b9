//! Long inputs: counters, queues and buffers well past small sizes.
use crate::core::*;
use crate::ops::op;
use crate::run::*;
use crate::rx;
use another_rxrust::prelude::*;
use std::sync::Arc;

static KS: [u32; 5] = [5, 17, 64, 257, 1000];

pub fn long<X: Out>(op: &Op<DTok, X>) {
  rx::set_props("C02");
  let k = if op.ks.len() == 0 { 0 } else { KS[rx::choose(5) as usize] };
  let env = Env::new(k);
  *env.n.g() = rx::choose(3) as i64 * LONG;
  let end = rx::choose(3);
  let (cs, cv) = consts::<DTok>(&env, op.nc);
  let slot: Sh<Option<Observer<'static, DTok>>> = Sh::new(None);
  let s2 = slot.clone();
  let times = Sh::new(0u32);
  let t2 = times.clone();
  let pr = env.probe.clone();
  let o = (op.b)(&env, &cs, Observable::create(move |s: Observer<'static, DTok>| {
    let _p = &pr;
    *t2.g() += 1;
    *s2.g() = Some(s);
  }));
  drop(cs);
  let rec = Rec::new("C02", "C04");
  let mut spec = (op.s)(&env, &cv);
  let n = if k == 1000 || k == 257 && spec.resub() { 1100 } else { 300 };
  spec.start(&rec);
  let sub = rec.observe(&o, &env.probe);
  *times.g() = 0;
  let mut i = 0;
  while i <= n {
    env.aux.s().free = !rec.open();
    let fails = spec.resub() && i % 3 == 2;
    if i == n && end == 2 {
      rx::ev("unsubscribe");
      sub.unsubscribe();
      rec.s().unsub = true;
    } else {
      let up = match slot.g().clone() {
        None => rx::end(),
        Some(up) => up,
      };
      if i < n && !fails {
        let x = DTok::mk(&env);
        if rec.open() {
          spec.next(&x.val(), &rec);
        }
        up.next(x);
      } else if fails || end == 1 {
        let e = fresh_err();
        rx::ev("source: error");
        let was = rec.open();
        if was {
          spec.error(e, &rec);
        }
        up.error(mkerr(e));
        if spec.resub() {
          rx::check(*times.g() == if was && spec.again() { 1 } else { 0 }, "C04:the source is not subscribed as often as the argument allows");
          *times.g() = 0;
        }
      } else {
        rx::ev("source: complete");
        if rec.open() {
          spec.complete(&rec);
        }
        up.complete();
      }
    }
    rec.settled();
    env.aux.settled();
    status(&sub, &rec);
    if let Some(up) = slot.g().clone() {
      upstream(&up, &rec);
    }
    i += 1;
  }
  drop(slot.g().take());
  if rec.live() {
    rx::end();
  }
  drop(slot);
  drop(sub);
  drop(o);
  rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}
macro_rules! l { ($($f:ident $o:ident;)*) => { $( pub fn $f() { long(&op::$o::<DTok>()) } )* }; }
l! {
  sc_long_id id; sc_long_map map; sc_long_filter filter; sc_long_take take; sc_long_take_last take_last;
  sc_long_take_while take_while; sc_long_skip skip; sc_long_skip_last skip_last; sc_long_skip_while skip_while;
  sc_long_first first; sc_long_last last; sc_long_element_at element_at; sc_long_distinct distinct;
  sc_long_scan scan; sc_long_reduce reduce; sc_long_count count; sc_long_sum sum; sc_long_sum_and_count sum_and_count;
  sc_long_min min; sc_long_max max; sc_long_all all; sc_long_contains contains; sc_long_default_if_empty default_if_empty;
  sc_long_ignore_elements ignore_elements; sc_long_start_with start_with; sc_long_buffer buffer;
  sc_long_materialize materialize; sc_long_demat demat; sc_long_tap tap; sc_long_map_to_any map_to_any;
  sc_long_retry retry; sc_long_timestamp timestamp; sc_long_window window; sc_long_group group;
  sc_long_window_flat window_flat; sc_long_group_flat group_flat;
}

use crate::mspecs::mop;
use crate::multi::*;

const M: usize = 24;
/// several sources with many items
pub fn mlong<X: Out>(op: &MOp<DTok, X>, ns: &'static [usize]) {
  rx::set_props("C03");
  let n = ns[rx::choose(ns.len() as u32) as usize];
  let pattern = rx::choose(3);
  let end = rx::choose(3);
  let env = Env::new(0);
  let (ctx, o) = setup(op, false, n, &env);
  let c = mk_cur(op, &env, n, Rec::new("C03", "C03,C04"));
  ctx.curs.g().push(c.clone());
  c.spec.g().start(&c.rec);
  let sub = c.rec.observe(&o, &env.probe);
  ctx.check(&c, &sub);
  let m = if n == 2 { 150 } else { M };
  let total = n * (m + 1);
  let mut e = 0;
  while e < total {
    // which source, and its how manieth event
    let (i, j) = if pattern == 0 {
      (e % n, e / n)
    } else if pattern == 1 {
      (e / (m + 1), e % (m + 1))
    } else {
      (n - 1 - e / (m + 1), e % (m + 1))
    };
    e += 1;
    let up = match c.ups.g()[i].clone() {
      None => continue,
      Some(up) => up,
    };
    if j < m {
      *env.n.g() = j as i64;
      ctx.emit(&c, i, &up, 0);
    } else if end == 1 && e == total {
      ctx.emit(&c, i, &up, 1);
    } else if end == 2 && i == n - 1 {
      if c.rec.live() {
        rx::ev("unsubscribe");
        sub.unsubscribe();
        c.rec.s().unsub = true;
      }
    } else {
      ctx.emit(&c, i, &up, 2);
    }
    ctx.check(&c, &sub);
  }
  if c.rec.live() {
    rx::end();
  }
  drop(sub);
  drop(o);
  drop(c);
  drop(ctx.env.g().take());
  ctx.curs.g().pop();
  drop(ctx);
  rx::check(Arc::strong_count(&env.probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}
static S2: [usize; 1] = [2];
static SN: [usize; 3] = [2, 5, 12];
macro_rules! ml { ($($f:ident $o:ident $n:ident;)*) => { $( pub fn $f() { mlong(&mop::$o::<DTok>(), &$n) } )* }; }
ml! {
  sc_mlong_merge merge SN; sc_mlong_concat concat SN; sc_mlong_zip zip SN; sc_mlong_combine combine SN; sc_mlong_amb amb SN;
  sc_mlong_seq_eq seq_eq SN; sc_mlong_take_until take_until S2; sc_mlong_skip_until skip_until S2; sc_mlong_sample sample S2;
  sc_mlong_switch switch S2; sc_mlong_resume resume S2;
}
