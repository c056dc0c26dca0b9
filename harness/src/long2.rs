//! Many observers, subscribers, tasks, inner observables and items.
use crate::conn;
use crate::core::*;
use crate::run::*;
use crate::rx;
use crate::subj::*;
use another_rxrust::prelude::*;
use another_rxrust::prelude::schedulers::*;
use std::sync::Arc;
use std::thread;

fn free_probes(p: &Vec<Arc<()>>) {
  let mut i = 0;
  while i < p.len() {
    rx::check(Arc::strong_count(&p[i]) == 1, "C17,C10,C13:callbacks still owned after the end");
    i += 1;
  }
}

/// a subject with many observers that come and go
fn lsubj<S: Subj<DTok>>() {
  rx::set_props("C10");
  let pattern = rx::choose(3) as usize;
  let end = rx::choose(4);
  let env = Env::new(0);
  let x0 = DTok::mk(&env);
  let s = S::mk(x0.clone());
  let mut m = Model::new(S::kind(), x0.val());
  let (mut recs, mut subs, mut probes): (Vec<Rec>, Vec<Subscription<'static>>, Vec<Arc<()>>) = (Vec::new(), Vec::new(), Vec::new());
  let joins = [20usize, 1, 0];
  let mut step = 0;
  while step < 60 {
    // pattern 0: twenty at once, 1: one after the other, 2: one each third event
    let now = if step == 0 { joins[pattern] } else if pattern == 1 && step < 24 || pattern == 2 && step % 3 == 0 { 1 } else { 0 };
    let mut j = 0;
    while j < now {
      let r = Rec::new("C10", "C10");
      let p = Arc::new(());
      m.hand_over(&r);
      rx::ev("subscribe");
      subs.push(r.observe(&s.ob(), &p));
      recs.push(r);
      probes.push(p);
      j += 1;
    }
    // the seventh, the second and the last leave
    if step % 4 == 3 {
      let n = subs.len();
      let k = if step % 3 == 0 { 6 } else if step % 3 == 1 { 1 } else { n };
      let k = if k >= n && n > 0 { n - 1 } else { k };
      if k < n && pattern != 2 || k + 1 < n {
        rx::ev("unsubscribe");
        subs[k].unsubscribe();
        recs[k].s().unsub = true;
        recs[k].s().late = true;
      }
    }
    let x = DTok::mk(&env);
    m.next(&x.val(), &recs);
    s.nx(x);
    let mut i = 0;
    while i < subs.len() {
      recs[i].settled();
      status(&subs[i], &recs[i]);
      rx::check(recs[i].live() || Arc::strong_count(&probes[i]) == 1, "C10,C17,C06:the subject holds an observer that has ended");
      i += 1;
    }
    step += 1;
  }
  if end == 1 {
    rx::ev("complete");
    m.finish(None, &recs);
    s.co();
  } else if end == 2 {
    let e = fresh_err();
    rx::ev("error");
    m.finish(Some(e), &recs);
    s.er(mkerr(e));
  } else if end == 3 {
    let mut i = 0;
    while i < subs.len() {
      subs[i].unsubscribe();
      recs[i].s().unsub = true;
      i += 1;
    }
  }
  if end != 3 && !(end > 0 && S::kind() == K::Plain) {
    let r = Rec::new("C10", "C10");
    let p = Arc::new(());
    m.hand_over(&r);
    rx::ev("a late observer");
    subs.push(r.observe(&s.ob(), &p));
    recs.push(r);
    probes.push(p);
  }
  let mut i = 0;
  while i < subs.len() {
    recs[i].settled();
    status(&subs[i], &recs[i]);
    i += 1;
  }
  if end > 0 {
    free_probes(&probes);
  }
  drop(s);
  drop(subs);
  drop(recs);
  if end > 0 {
    free_probes(&probes);
  }
  rx::end();
}
pub fn sc_lsubj_plain() { lsubj::<SPlain<DTok>>() }
pub fn sc_lsubj_behavior() { lsubj::<SBehavior<DTok>>() }
pub fn sc_lsubj_replay() { lsubj::<SReplay<DTok>>() }
pub fn sc_lsubj_async() { lsubj::<SAsync<DTok>>() }

fn free_q(r: &Rec) {
  let s = r.s();
  if s.free {
    s.q.clear();
  }
}
/// a connectable with many subscribers that come and go
fn lconn(k: conn::CK) {
  use crate::conn::*;
  rx::set_props("C13");
  let pattern = rx::choose(3) as usize;
  let end = rx::choose(3);
  let env = Env::new(0);
  let src = Sh::new(Src { ups: Vec::new(), up: None, count: 0 });
  let s2 = src.clone();
  let o: Obs<PTok> = Observable::create(move |s: Observer<'static, PTok>| {
    rx::check(live_ups(&s2) == 0, "C13:a second source subscription at the same time");
    s2.g().count += 1;
    s2.g().ups.push(s.clone());
    s2.g().up = Some(s);
  });
  let c = mk(k, &o);
  let ob = c.obs();
  let mut m = M { k, env: env.clone(), recs: Vec::new(), left: Vec::new(), hist: Vec::new(), on: false, end: 0, err: None, count: 0 };
  let (mut subs, mut probes): (Vec<Subscription<'static>>, Vec<Arc<()>>) = (Vec::new(), Vec::new());
  let mut conn: Option<Subscription<'static>> = None;
  // whoever returns after everyone left starts a new sequence; what a hot source emitted before is unspecified
  let mut kept = false;
  let mut step = 0;
  while step < 48 {
    // pattern 0: twelve at once, 1: one with every third event, 2: everybody leaves from time to time
    let now = if step == 0 && pattern == 0 { 12 } else if pattern == 1 && step % 3 == 0 { 1 } else if pattern == 2 && step % 12 == 0 { 3 } else { 0 };
    let mut j = 0;
    while j < now {
      let r = Rec::new("C13", "C13,C04");
      let p = Arc::new(());
      let i = subs.len();
      let first = !m.open();
      m.recs.push(r.clone());
      m.left.push(if i == 3 { 20 } else { 0 });
      if k == CK::Rep {
        if first {
          kept = kept || m.hist.len() > 0;
          m.hist.clear();
        }
        r.s().free = kept;
        let mut h = 0;
        while h < m.hist.len() {
          let v = m.hist[h].clone();
          m.give(i, &v);
          h += 1;
        }
      }
      if k != CK::Pub && first {
        m.on = true;
        m.count += 1;
      }
      rx::ev("subscribe");
      subs.push(if i == 3 { r.observe(&ob.take(20), &p) } else { r.observe(&ob, &p) });
      probes.push(p);
      free_q(&r);
      r.settled();
      j += 1;
    }
    if k == CK::Pub && step % 16 == 2 {
      rx::ev("connect");
      m.on = true;
      m.count += 1;
      conn = Some(c.connect());
    }
    if let Some(up) = src.g().up.clone() {
      let x = PTok::mk(&env);
      m.next(&x.val());
      up.next(x);
    }
    if k == CK::Pub && step % 16 == 14 {
      rx::ev("disconnect");
      if let Some(x) = &conn {
        x.unsubscribe();
      }
      m.on = false;
    }
    let mut i = 0;
    let keep = if pattern == 2 { step % 12 != 11 } else { true };
    while i < subs.len() {
      // the odd ones leave after a while, in pattern 2 all
      if m.recs[i].live() && (!keep || pattern == 0 && i % 2 == 1 && step == 2 * i + 3 || pattern == 1 && step == 3 * i + 10 && i % 2 == 1) {
        rx::ev("unsubscribe");
        subs[i].unsubscribe();
        m.recs[i].s().unsub = true;
        m.recs[i].s().late = true;
        m.left();
      }
      i += 1;
    }
    rx::check(src.g().count == m.count, "C13:the source is subscribed too often or not at all");
    let n = live_ups(&src);
    rx::check(n == if m.on { 1 } else { 0 }, "C13,C06:the source is cut off while somebody listens, or held although nobody does");
    i = 0;
    while i < subs.len() {
      free_q(&m.recs[i]);
      m.recs[i].settled();
      status(&subs[i], &m.recs[i]);
      rx::check(m.recs[i].live() || Arc::strong_count(&probes[i]) == 1, "C13,C17,C06:an observer that has ended is still held");
      i += 1;
    }
    step += 1;
  }
  if let (Some(up), true) = (src.g().up.clone(), m.on) {
    if end == 1 {
      rx::ev("source: complete");
      m.finish(None);
      up.complete();
    } else if end == 2 {
      let e = fresh_err();
      rx::ev("source: error");
      m.finish(Some(e));
      up.error(mkerr(e));
    }
  }
  let mut i = 0;
  while i < subs.len() {
    free_q(&m.recs[i]);
      m.recs[i].settled();
    status(&subs[i], &m.recs[i]);
    rx::check(m.recs[i].live() || Arc::strong_count(&probes[i]) == 1, "C13,C17,C06:an observer that has ended is still held");
    i += 1;
  }
  rx::end();
}
pub fn sc_lconn_pub() { lconn(conn::CK::Pub) }
pub fn sc_lconn_ref() { lconn(conn::CK::Ref) }
pub fn sc_lconn_rep() { lconn(conn::CK::Rep) }

/// a scheduler with many tasks, posted by three threads and from inside tasks
pub fn sc_lsched() {
  rx::set_props("C08");
  let how = rx::choose(4);
  let s = new_thread_scheduler()();
  let log: Sh<Vec<(u32, u32)>> = Sh::new(Vec::new());
  let running = Sh::new(false);
  let worker = Sh::new(0u32);
  let probe = Arc::new(());
  let me = rx::tid();
  rx::conc_raw(0);
  let task = {
    let (log, running, worker, probe) = (log.clone(), running.clone(), worker.clone(), probe.clone());
    move |p: u32, i: u32| {
      let (log, running, worker, probe) = (log.clone(), running.clone(), worker.clone(), probe.clone());
      move || {
        let _p = &probe;
        rx::check(!*running.g(), "C08:two tasks at once");
        *running.g() = true;
        let t = rx::tid();
        if *worker.g() == 0 {
          *worker.g() = t;
        }
        rx::check(t == *worker.g() && t != me, "C08:tasks of one scheduler run on different threads");
        // per poster the numbers grow by one
        let l = log.g();
        let mut k = l.len();
        let mut last = None;
        while k > 0 && last.is_none() {
          k -= 1;
          if l[k].0 == p {
            last = Some(l[k].1);
          }
        }
        rx::check(i == last.map_or(0, |x| x + 1), "C08:a task is lost, runs twice or after one posted later");
        l.push((p, i));
        *running.g() = false;
      }
    }
  };
  let n = if how == 1 { 1100u32 } else { 300 };
  let mut total = n;
  if how == 0 {
    // the worker waits in between
    let mut i = 0;
    while i < n {
      s.post(task(0, i));
      if i % 7 == 0 {
        rx::settle();
      }
      i += 1;
    }
  } else if how == 1 {
    let mut i = 0;
    while i < n {
      s.post(task(0, i));
      i += 1;
    }
  } else if how == 2 {
    let mut t = 1;
    while t < 3 {
      let (s2, task2) = (s.clone(), task.clone());
      thread::spawn(move || {
        let mut i = 0;
        while i < 100 {
          s2.post(task2(t, i));
          i += 1;
        }
      });
      t += 1;
    }
    let mut i = 0;
    while i < 100 {
      s.post(task(0, i));
      i += 1;
    }
  } else {
    // one task posts all others
    total = 201;
    let (s2, task2) = (s.clone(), task.clone());
    let first = task(1, 0);
    s.post(move || {
      let mut i = 0;
      while i < 100 {
        s2.post(task2(2, i));
        i += 1;
      }
      first();
    });
    let mut i = 0;
    while i < 100 {
      s.post(task(0, i));
      i += 1;
    }
  }
  rx::settle();
  rx::check(log.g().len() == total as usize, "C08:a task posted with no abort pending never runs");
  rx::check(rx::live_threads() == 1, "C08:the worker ended without abort");
  s.abort();
  rx::settle();
  rx::check(rx::live_threads() == 0, "C08,C15:the worker thread does not end after abort");
  drop(s);
  drop(task);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}

/// observe_on and subscribe_on with many items
pub fn sc_lhand() {
  rx::set_props("C09");
  let c = rx::choose(5);
  let end = rx::choose(3);
  let asyn = rx::choose(2) == 1;
  let n = new_thread_scheduler();
  let count = if c == 0 && end == 1 && !asyn { 1100 } else if c < 2 { 300 } else { 100 };
  let up: Sh<Option<Observer<'static, DTok>>> = Sh::new(None);
  let u2 = up.clone();
  let emit = move |s: &Observer<'static, DTok>| {
    let mut i = 0;
    while i < count {
      s.next(DTok(i));
      i += 1;
    }
    if end == 1 {
      s.complete();
    } else if end == 2 {
      s.error(mkerr(ETok(rx::tok_const(3))));
    }
  };
  let src: Obs<DTok> = Observable::create(move |s: Observer<'static, DTok>| {
    *u2.g() = Some(s.clone());
    if asyn {
      thread::spawn(move || emit(&s));
    } else {
      emit(&s);
    }
  });
  let o = match c {
    0 => src.observe_on(n),
    1 => src.observe_on(n.clone()).observe_on(n),
    2 => src.subscribe_on(n),
    3 => src.subscribe_on(n.clone()).observe_on(n),
    _ => src.map(|x| x).observe_on(n).filter(|_| true),
  };
  let rec = Rec::new("C09", "C09,C04");
  let probe = Arc::new(());
  let mut i = 0;
  while i < count {
    rec.n(Val::I(i));
    i += 1;
  }
  if end == 1 {
    rec.c();
  } else if end == 2 {
    rec.e(ETok(rx::tok_const(3)));
  }
  rx::conc_raw(0);
  let sub = rec.observe(&o, &probe);
  rx::settle();
  rec.settled();
  status(&sub, &rec);
  if rec.live() {
    sub.unsubscribe();
    rec.s().unsub = true;
    rx::settle();
    status(&sub, &rec);
  }
  rx::check(rx::live_threads() == 0, "C15:a scheduler thread outlives its subscription");
  if let Some(u) = up.g().take() {
    upstream(&u, &rec);
  }
  drop(sub);
  drop(o);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}

/// flat_map with many inner observables, hot and cold
pub fn sc_lflat() {
  rx::set_props("C03");
  let hot = rx::choose(2) == 1;
  let end = rx::choose(4);
  let pr = Arc::new(());
  let p2 = pr.clone();
  let inner: Sh<Vec<Observer<'static, DTok>>> = Sh::new(Vec::new());
  let i2 = inner.clone();
  let up: Sh<Option<Observer<'static, DTok>>> = Sh::new(None);
  let u2 = up.clone();
  let src: Obs<DTok> = Observable::create(move |s: Observer<'static, DTok>| *u2.g() = Some(s));
  let o = src.flat_map(move |x: DTok| {
    let (i3, p3) = (i2.clone(), p2.clone());
    Observable::create(move |s: Observer<'static, DTok>| {
      let _p = &p3;
      if hot {
        i3.g().push(s);
      } else {
        let mut i = 0;
        while i < 10 {
          s.next(DTok(x.0 * 100 + i));
          i += 1;
        }
        s.complete();
      }
    })
  });
  let rec = Rec::new("C03", "C03,C04");
  let sub = rec.observe(&o, &pr);
  let u = up.g().take().unwrap();
  let n = 30;
  let mut k = 0;
  while k < n {
    if !hot {
      let mut i = 0;
      while i < 10 {
        rec.n(Val::I(k * 100 + i));
        i += 1;
      }
    }
    u.next(DTok(k));
    rec.settled();
    k += 1;
  }
  let early = rx::choose(2) == 0;
  if early {
    rx::ev("outer: complete");
    if !hot {
      rec.c();
    }
    u.complete();
    rec.settled();
  }
  if hot {
    rx::check(inner.g().len() == n as usize, "C03:an inner observable is not subscribed");
    let mut i = 0;
    while i < 10 {
      k = 0;
      while k < n {
        let v = k * 100 + i;
        rec.n(Val::I(v));
        inner.g()[k as usize].next(DTok(v));
        rec.settled();
        k += 1;
      }
      i += 1;
    }
    // they end one after the other, from both sides
    k = 0;
    while k < n {
      let j = if k % 2 == 0 { k / 2 } else { n - 1 - k / 2 };
      if k == n - 1 && early {
        if end == 0 {
          let e = fresh_err();
          rec.e(e);
          inner.g()[j as usize].error(mkerr(e));
        } else if end == 1 {
          sub.unsubscribe();
          rec.s().unsub = true;
        } else {
          rec.c();
          inner.g()[j as usize].complete();
        }
      } else {
        inner.g()[j as usize].complete();
      }
      rec.settled();
      status(&sub, &rec);
      k += 1;
    }
  }
  if !early {
    if end == 0 {
      let e = fresh_err();
      rec.e(e);
      u.error(mkerr(e));
    } else if end == 1 {
      sub.unsubscribe();
      rec.s().unsub = true;
    } else {
      rec.c();
      u.complete();
    }
  }
  rec.settled();
  status(&sub, &rec);
  upstream(&u, &rec);
  k = 0;
  while (k as usize) < inner.g().len() {
    rx::check(!inner.g()[k as usize].is_subscribed(), "C06:the source still sees is_subscribed() after the end");
    k += 1;
  }
  inner.g().clear();
  drop(u);
  drop(sub);
  drop(o);
  rx::check(Arc::strong_count(&pr) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}

/// creation functions with many items
pub fn sc_lgen() {
  rx::set_props("C02");
  let how = rx::choose(8);
  let take = [0i64, 1, 1199, 1200, 1201][rx::choose(5) as usize];
  let n = if how == 2 { 1500i64 } else { 1200 };
  if how == 2 && take == 0 {
    rx::end();
  }
  let mut v = Vec::new();
  let mut i = 0;
  while i < n {
    v.push(i);
    i += 1;
  }
  let subj = subjects::ReplaySubject::<i64>::new();
  if how == 3 {
    i = 0;
    while i < n {
      subj.next(i);
      i += 1;
    }
    subj.complete();
  }
  let o: Obs<i64> = match how {
    0 => observables::from_iter(v.into_iter()),
    1 => observables::range(0, n),
    2 => observables::repeat(5),
    3 => subj.observable(),
    4 => observables::from_iter(v.into_iter()).map(|x| x).filter(|_| true),
    // a second subscriber is handed what the first one got
    5 | 6 => {
      let r = observables::range(0, n).replay();
      let c = Rec::new("C13", "C13");
      c.s().free = true;
      let p = Arc::new(());
      let first = if how == 5 { r.observable() } else { r.observable().map(|x| x) };
      c.observe(&first, &p);
      rx::check(!c.live(), "C13:missing completion");
      r.observable()
    }
    _ => observables::range(0, 150).concat(&[observables::range(150, n - 150)]),
  };
  let rec = Rec::new("C02", "C02,C04");
  i = 0;
  while i < n && (take == 0 || i < take) {
    rec.n(Val::I(if how == 2 { 5 } else { i }));
    i += 1;
  }
  rec.c();
  let pr = Arc::new(());
  let sub = if take > 0 { rec.observe(&o.take(take as usize), &pr) } else { rec.observe(&o, &pr) };
  rec.settled();
  status(&sub, &rec);
  drop(sub);
  drop(o);
  rx::check(Arc::strong_count(&pr) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}

/// to_vec with many items
pub fn sc_lfut() {
  use std::future::Future;
  rx::set_props("C18");
  let how = rx::choose(3);
  let end = rx::choose(2);
  let n = 300i64;
  let up: Sh<Option<Observer<'static, DTok>>> = Sh::new(None);
  let u2 = up.clone();
  let emit = move |s: &Observer<'static, DTok>| {
    let mut i = 0;
    while i < n {
      s.next(DTok(i));
      i += 1;
    }
    if end == 0 {
      s.complete();
    } else {
      s.error(mkerr(ETok(rx::tok_const(3))));
    }
  };
  let o: Obs<DTok> = Observable::create(move |s: Observer<'static, DTok>| {
    if how == 0 {
      emit(&s);
    } else if how == 1 {
      thread::spawn(move || emit(&s));
    } else {
      *u2.g() = Some(s);
    }
  });
  rx::conc_raw(0);
  let mut fut = o.to_vec();
  let w = Arc::new(crate::shim::WakeCell { woken: std::sync::Mutex::new(false), cond: std::sync::Condvar::new(), hook: None });
  let waker = rx::mk_waker(w.clone());
  let mut cx = std::task::Context::from_waker(&waker);
  let mut k = 0;
  loop {
    let r = std::pin::Pin::new(&mut fut).poll(&mut cx);
    match r {
      std::task::Poll::Ready(r) => {
        match r {
          Ok(v) => {
            rx::check(end == 0, "C18:ready with items although the source failed");
            let v = v.read().unwrap();
            rx::check(v.len() == n as usize, "C18:items are missing or too many");
            let mut i = 0;
            while i < v.len() {
              rx::check(v[i].0 == i as i64, "C18:another item, or items out of order");
              i += 1;
            }
          }
          Err(e) => rx::check(end == 1 && err_of(&e).is_some(), "C18,C04:ready with an error although the source completed"),
        }
        rx::end();
      }
      std::task::Poll::Pending => {
        rx::check(how != 0 && k <= n, "C18:pending although the source has terminated");
        if how == 1 {
          rx::settle();
        } else if let Some(u) = up.g() {
          // polled again after every item
          if k < n {
            u.next(DTok(k));
          } else if end == 0 {
            u.complete();
          } else {
            u.error(mkerr(ETok(rx::tok_const(3))));
          }
        }
        let g = w.woken.lock().unwrap();
        rx::check(*g || how == 2 && k < n, "C18:the pending poll is not woken when the source terminates");
        drop(g);
        k = if how == 1 { n + 1 } else { k + 1 };
      }
    }
  }
}

/// many periods
pub fn sc_ltime() {
  use std::time::Duration;
  rx::set_props("C16");
  let how = rx::choose(5);
  let n = 150i64;
  let ms = |x: i64| Duration::from_millis(x as u64);
  let ns = new_thread_scheduler();
  let rec = Rec::new("C16", "C16,C04");
  let at: Sh<Vec<u64>> = Sh::new(Vec::new());
  let a2 = at.clone();
  let probe = Arc::new(());
  let up: Sh<Option<Observer<'static, i64>>> = Sh::new(None);
  let u2 = up.clone();
  let src: Obs<i64> = Observable::create(move |s: Observer<'static, i64>| *u2.g() = Some(s));
  rx::conc_raw(0);
  let o: Obs<i64> = match how {
    0 => observables::interval(ms(10), ns).map(|x| x as i64),
    1 => observables::interval(ms(10), default_scheduler()).map(|x| x as i64).take(n as usize),
    2 => src.timeout(ms(10), ns),
    3 => src.delay(ms(3)),
    _ => src.observe_on(ns).timeout(ms(10), new_thread_scheduler()),
  };
  let mut i = 0;
  while i < n {
    rec.n(Val::I(i));
    i += 1;
  }
  if how == 1 {
    rec.c();
  }
  let o = o.tap(move |_| a2.g().push(rx::now_ms()), |_| {}, || {});
  let sub = rec.observe(&o, &probe);
  if how == 0 {
    thread::sleep(ms(10 * n + 5));
  } else if how > 1 {
    i = 0;
    while i < n {
      thread::sleep(ms(7));
      let u = up.g().clone().unwrap();
      u.next(i);
      i += 1;
    }
    rx::settle();
  }
  rec.settled();
  status(&sub, &rec);
  let l = at.g();
  rx::check(l.len() == n as usize, "C16:an item is missing");
  i = 0;
  while i < l.len() as i64 {
    let want = if how < 2 { 10 * (i + 1) } else if how == 3 { 10 * (i + 1) } else { 7 * (i + 1) };
    rx::check(l[i as usize] == want as u64, "C16:an event at another time than the clock demands");
    i += 1;
  }
  if rec.live() {
    sub.unsubscribe();
    rec.s().unsub = true;
    status(&sub, &rec);
  }
  thread::sleep(ms(11));
  rx::settle();
  rx::check(rx::live_threads() == 0, "C15,C16:a thread is still running a period after the end");
  if let Some(u) = up.g().take() {
    upstream(&u, &rec);
  }
  drop(sub);
  drop(o);
  rx::check(Arc::strong_count(&probe) == 1, "C17:callbacks or closures still owned after the end");
  rx::end();
}

/// many subscriptions that start threads, begun and ended one after the other or together
pub fn sc_lthr() {
  use std::time::Duration;
  rx::set_props("C15");
  let how = rx::choose(4);
  let together = how == 0 && rx::choose(2) == 1;
  let ms = |x: u64| Duration::from_millis(x);
  rx::conc_raw(0);
  let ns = new_thread_scheduler();
  let src = observables::interval(ms(10), ns.clone());
  let o: Obs<u64> = match how {
    0 => src,
    1 => src.observe_on(ns),
    2 => src.subscribe_on(ns.clone()).debounce(ms(5), ns),
    _ => src.timeout(ms(30), ns),
  };
  let probe = Arc::new(());
  let n = if together { 3 } else { 9u64 };
  let mut subs = Vec::new();
  let mut i = 0;
  while i < n {
    rx::boundary();
    let r = Rec::new("C15", "C15");
    r.s().free = true;
    let s = r.observe(&o.map(|x| x as i64), &probe);
    thread::sleep(ms(13));
    if together {
      subs.push((s, r));
    } else {
      rx::check(rx::live_threads() > 0, "C15:nothing runs");
      s.unsubscribe();
      r.s().unsub = true;
      r.s().late = true;
      thread::sleep(ms(31));
      rx::settle();
      rx::check(rx::live_threads() == 0, "C15:a thread is still running a period after the end");
      rx::check(Arc::strong_count(&probe) == 1, "C17,C15:callbacks or closures still owned after the end");
    }
    i += 1;
  }
  let mut left = subs.len();
  while left > 0 {
    // from the front and from the back
    let (s, r) = if left % 2 == 0 { subs.remove(0) } else { subs.pop().unwrap() };
    let before = rx::live_threads();
    s.unsubscribe();
    r.s().unsub = true;
    r.s().late = true;
    drop(s);
    thread::sleep(ms(31));
    rx::settle();
    left -= 1;
    rx::check(rx::live_threads() < before && (rx::live_threads() == 0) == (left == 0), "C15:a thread is still running a period after the end");
  }
  rx::check(Arc::strong_count(&probe) == 1, "C17,C15:callbacks or closures still owned after the end");
  rx::end();
}
