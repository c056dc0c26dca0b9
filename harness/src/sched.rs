//! Schedulers: post/abort histories from several threads and from inside tasks.
use crate::core::*;
use crate::rx;
use another_rxrust::prelude::*;
use another_rxrust::prelude::schedulers::*;
use std::sync::Arc;
use std::thread;

#[derive(Clone, Copy)]
struct Task {
  call: u32,
  ret: u32,
  started: bool,
  ended: bool,
}
struct QS {
  clock: u32,
  tasks: Vec<Task>,
  running: bool,
  worker: u32,
  posters: Vec<u32>,
  /// abort has returned / a task was in progress then
  stopped: bool,
  busy: bool,
  /// tasks begun after abort returned
  after: u32,
}
#[derive(Clone)]
struct Q(Sh<QS>);
impl Q {
  fn new() -> Q {
    Q(Sh::new(QS { clock: 1, tasks: Vec::new(), running: false, worker: 0, posters: Vec::new(), stopped: false, busy: false, after: 0 }))
  }
  fn s(&self) -> &mut QS {
    self.0.g()
  }
  fn tick(&self) -> u32 {
    let s = self.s();
    s.clock += 1;
    s.clock
  }
  /// announce a task
  fn open(&self) -> usize {
    let c = self.tick();
    let s = self.s();
    let t = rx::tid();
    s.posters.push(t);
    s.tasks.push(Task { call: c, ret: 0, started: false, ended: false });
    rx::ev("post");
    s.tasks.len() - 1
  }
  fn posted(&self, i: usize) {
    let c = self.tick();
    self.s().tasks[i].ret = c;
  }
  fn begin(&self, i: usize) {
    rx::ev("  task begins");
    let s = self.s();
    rx::check(!s.running, "C08:two tasks at once");
    rx::check(!s.tasks[i].started, "C08:a task runs twice");
    let t = rx::tid();
    if s.worker == 0 {
      s.worker = t;
    }
    rx::check(t == s.worker, "C08:tasks of one scheduler run on different threads");
    let mut k = 0;
    while k < s.posters.len() {
      rx::check(s.posters[k] != t || s.posters[k] == s.worker && self.in_task(k), "C08:a task runs on the thread that posted it");
      k += 1;
    }
    let mut k = 0;
    while k < s.tasks.len() {
      let o = s.tasks[k];
      rx::check(k == i || !o.started || s.tasks[i].ret == 0 || s.tasks[i].ret > o.call, "C08:a task runs after one posted later");
      k += 1;
    }
    if s.stopped {
      s.after += 1;
      rx::check(!s.busy && s.after < 2, "C08:a task was taken from the queue after abort returned");
    }
    s.tasks[i].started = true;
    s.running = true;
  }
  /// posted from inside a task
  fn in_task(&self, k: usize) -> bool {
    self.s().tasks[k].call > self.s().tasks[0].call && self.s().posters[k] == self.s().worker
  }
  fn end(&self, i: usize) {
    rx::ev("  task ends");
    let s = self.s();
    s.running = false;
    s.tasks[i].ended = true;
  }
  fn aborted(&self) {
    let s = self.s();
    if !s.stopped {
      s.stopped = true;
      s.busy = s.running;
    }
    rx::ev("abort returned");
  }
  fn all_ran(&self, m: usize) {
    let s = self.s();
    let mut k = 0;
    while k < s.tasks.len() {
      rx::check(s.tasks[k].started && s.tasks[k].ended, "C08:a task posted with no abort pending never runs");
      k += 1;
    }
    rx::check(s.tasks.len() == m, "C08:a task was not posted");
  }
}
type S = NewThreadScheduler<'static>;
/// 0 = plain task, 1 = task that aborts, 2 = task that posts another one, 3 = posts another one and aborts
fn post(s: &S, q: &Q, kind: u32, probe: &Arc<()>) {
  let i = q.open();
  let (q2, s2, p2) = (q.clone(), s.clone(), probe.clone());
  s.post(move || {
    let p = &p2;
    q2.begin(i);
    rx::yield_point();
    if kind >= 2 {
      post(&s2, &q2, 0, p);
    }
    if kind == 1 || kind == 3 {
      rx::ev("  task: abort");
      s2.abort();
      q2.aborted();
    }
    q2.end(i);
  });
  q.posted(i);
}
/// `np` posters of `nt` tasks each
#[derive(Clone, Copy)]
struct M {
  np: u32,
  nt: u32,
  /// kind of the first task of the main thread
  kind: u32,
  /// 0 = no abort, 1 = the main thread aborts, 2 = another thread aborts
  abort: u32,
  wait: bool,
}
fn sched(m: M) {
  rx::set_props("C08,C07");
  let probe = Arc::new(());
  let q = Q::new();
  rx::conc_raw(4);
  let s = new_thread_scheduler()();
  let mut i = 1;
  while i < m.np {
    let (s2, q2, p2) = (s.clone(), q.clone(), probe.clone());
    thread::spawn(move || {
      let mut j = 0;
      while j < m.nt {
        post(&s2, &q2, 0, &p2);
        j += 1;
      }
    });
    i += 1;
  }
  if m.abort == 2 {
    let (s2, q2) = (s.clone(), q.clone());
    thread::spawn(move || {
      s2.abort();
      q2.aborted();
    });
  }
  if m.wait {
    // the worker waits on an empty queue
    rx::settle();
  }
  let mut j = 0;
  while j < m.nt {
    post(&s, &q, if j == 0 { m.kind } else { 0 }, &probe);
    j += 1;
  }
  if m.abort == 1 {
    rx::ev("abort");
    s.abort();
    q.aborted();
  }
  rx::settle();
  let stops = m.abort > 0 || m.kind == 1 || m.kind == 3;
  if !stops {
    q.all_ran((m.np * m.nt + if m.kind == 2 { 1 } else { 0 }) as usize);
    rx::check(rx::live_threads() == 1, "C08:the worker ended without abort");
    // idle worker: a later task still runs
    post(&s, &q, 0, &probe);
    rx::settle();
    q.all_ran((m.np * m.nt + 1 + if m.kind == 2 { 1 } else { 0 }) as usize);
    rx::ev("abort");
    s.abort();
    q.aborted();
    rx::settle();
  } else if m.kind == 1 || m.kind == 3 {
    rx::check(m.abort > 0 || q.s().tasks[0].ended, "C08:a task posted with no abort pending never runs");
  }
  rx::check(rx::live_threads() == 0, "C08,C15:the worker thread does not end after abort");
  // a scheduler that was aborted runs nothing any more; a second abort does nothing
  let had = q.s().after;
  post(&s, &q, 0, &probe);
  s.abort();
  rx::settle();
  rx::check(q.s().after == had, "C08:a task was taken from the queue after abort returned");
  rx::check(rx::live_threads() == 0, "C08,C15:the worker thread does not end after abort");
  drop(s);
  drop(q);
  rx::check(Arc::strong_count(&probe) == 1, "C08,C17:a task is neither run nor discarded");
  rx::end();
}
macro_rules! sc {
  ($($f:ident $np:expr, $nt:expr, $k:expr, $a:expr, $w:expr;)*) => { $( pub fn $f() { sched(M { np: $np, nt: $nt, kind: $k, abort: $a, wait: $w }) } )* };
}
sc! {
  sc_sched_one 1, 3, 0, 0, false;
  sc_sched_one_idle 1, 3, 0, 0, true;
  sc_sched_two 2, 2, 0, 0, false;
  sc_sched_three 3, 1, 0, 0, false;
  sc_sched_nested 2, 1, 2, 0, false;
  sc_sched_abort 1, 2, 0, 1, false;
  sc_sched_abort_idle 1, 2, 0, 1, true;
  sc_sched_abort_by_other 1, 2, 0, 2, false;
  sc_sched_abort_two 2, 2, 0, 1, false;
  sc_sched_abort_race 2, 1, 0, 2, false;
  sc_sched_abort_in_task 1, 3, 1, 0, false;
  sc_sched_abort_in_task_two 2, 2, 1, 0, false;
  sc_sched_post_abort_in_task 2, 1, 3, 0, true;
}
/// two schedulers of one constructor are independent
pub fn sc_sched_pair() {
  rx::set_props("C08,C07");
  let probe = Arc::new(());
  let (q1, q2) = (Q::new(), Q::new());
  rx::conc_raw(4);
  let ctor = new_thread_scheduler();
  let (s1, s2) = (ctor(), ctor());
  post(&s1, &q1, 0, &probe);
  post(&s2, &q2, 0, &probe);
  post(&s1, &q1, 1, &probe);
  rx::settle();
  q1.all_ran(2);
  q2.all_ran(1);
  rx::check(q1.s().worker != q2.s().worker, "C08:two schedulers share a thread");
  rx::check(rx::live_threads() == 1, "C08,C15:the worker thread does not end after abort");
  post(&s2, &q2, 0, &probe);
  rx::settle();
  q2.all_ran(2);
  s2.abort();
  rx::settle();
  rx::check(rx::live_threads() == 0, "C08,C15:the worker thread does not end after abort");
  rx::end();
}
/// the queue itself, with a worker of the client
pub fn sc_sched_queue() {
  rx::set_props("C08,C07");
  let probe = Arc::new(());
  let q = Q::new();
  rx::conc_raw(4);
  let aq: AsyncFunctionQueue<'static> = AsyncFunctionQueue::new();
  let mut j = 0;
  let early = rx::choose(3);
  while j < 2 {
    if j == early {
      let w = aq.clone();
      thread::spawn(move || w.scheduling());
    }
    let i = q.open();
    let (q2, p) = (q.clone(), probe.clone());
    aq.post(move || {
      let _p = &p;
      q2.begin(i);
      rx::yield_point();
      q2.end(i);
    });
    q.posted(i);
    j += 1;
  }
  if early == 2 {
    let w = aq.clone();
    thread::spawn(move || w.scheduling());
  }
  let stop_now = rx::choose(2) == 1;
  if !stop_now {
    rx::settle();
    q.all_ran(2);
  }
  aq.stop();
  q.aborted();
  rx::settle();
  rx::check(rx::live_threads() == 0, "C08,C15:the worker thread does not end after abort");
  rx::check(Arc::strong_count(&probe) == 1, "C08,C17:a task is neither run nor discarded");
  rx::end();
}
/// the default scheduler runs in post
pub fn sc_sched_default() {
  rx::set_props("C08,C07");
  let s = default_scheduler()();
  let me = rx::tid();
  let n = Sh::new(0i64);
  let mut i = 0;
  while i < 3 {
    let (s2, n2) = (s.clone(), n.clone());
    s.post(move || {
      rx::check(rx::tid() == me, "C08:the default scheduler runs the task on another thread");
      *n2.g() += 1;
      if i == 1 {
        let before = *n2.g();
        let n3 = n2.clone();
        s2.post(move || *n3.g() += 10);
        rx::check(*n2.g() == before + 10, "C08:the default scheduler did not run the task in post");
      }
    });
    rx::check(*n.g() == [1, 12, 13][i], "C08:the default scheduler did not run the task in post");
    i += 1;
  }
  // abort concerns posted work only: there is none
  s.abort();
  rx::check(*n.g() == 13, "C08:abort ran a task");
  rx::check(rx::live_threads() == 0, "C08,C15:the default scheduler started a thread");
  rx::end();
}
