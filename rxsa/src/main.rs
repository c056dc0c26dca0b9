#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
mod canon;
mod dbm;
mod interp;
mod intrin;
mod val;
use interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::ops::ControlFlow;
use std::rc::Rc;
use val::*;

extern "C" {
  fn fork() -> i32;
  fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
  fn pipe(fds: *mut i32) -> i32;
  fn read(fd: i32, b: *mut u8, n: usize) -> isize;
  fn write(fd: i32, b: *const u8, n: usize) -> isize;
  fn close(fd: i32) -> i32;
  fn _exit(c: i32) -> !;
}

fn env_u(n: &str, d: u64) -> u64 {
  std::env::var(n).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}
fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o += "\\\"",
      '\\' => o += "\\\\",
      '\n' => o += "\\n",
      '\t' => o += "\\t",
      c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn jmap<V: std::fmt::Display>(m: &BTreeMap<String, V>) -> String {
  format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))
}
fn jarr(v: &[String]) -> String {
  format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

struct Setup {
  shims: HashMap<String, FnDef>,
  scen: Vec<(String, Instance)>,
}
fn setup() -> Setup {
  let mut shims = HashMap::new();
  let mut scen = vec![];
  for it in all_local_items() {
    if !matches!(it.kind(), ItemKind::Fn) {
      continue;
    }
    let n = it.name();
    let last = n.rsplit("::").next().unwrap_or("").to_string();
    if n.starts_with("shim::") || n.contains("::shim::") {
      if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
        shims.insert(last.clone(), d);
      }
    }
    if last.starts_with("sc_") {
      if let Ok(i) = Instance::try_from(it) {
        scen.push((last, i));
      }
    }
  }
  scen.sort_by(|a, b| a.0.cmp(&b.0));
  Setup { shims, scen }
}

fn run_one(s: &Setup, name: &str, inst: Instance, secs: u64, shared: &mut Option<Cx>) -> String {
  let t0 = std::time::Instant::now();
  // callee/body tables are kept between scenarios
  let mut cx = match shared.take() {
    Some(c) => c,
    None => Cx {
      bodies: HashMap::new(),
      callees: HashMap::new(),
      handlers: vec![],
      shims: s.shims.clone(),
      terms: vec![],
      term_map: HashMap::new(),
      sub_rw: Default::default(),
      strs: vec!["".into()],
      str_map: [("".to_string(), 0)].into_iter().collect(),
      work: vec![],
      visited: HashSet::new(),
      visited_conc: Default::default(),
      viol: BTreeMap::new(),
      notes: BTreeMap::new(),
      checks: BTreeMap::new(),
      stats: Stats::default(),
      const_cache: Default::default(),
      drop_impl: Default::default(),
      ty_sym: Default::default(),
      scenario: String::new(),
      max_depth: 0,
      max_steps: 0,
      deadline: t0,
      timed_out: false,
      try_ops: false,
      verbose: std::env::var("RXSA_V").is_ok(),
      lock_threads: HashMap::new(),
      kprops: vec!["".into()],
      unit: 1_000_000,
      dyn_cache: HashMap::new(),
      init_budget: 0,
      tier: 0,
      next_level: vec![],
      max_states: 0,
    },
  };
  let tries = cx.try_ops;
  cx.scenario = name.to_string();
  cx.work.clear();
  cx.next_level.clear();
  cx.visited.clear();
  cx.visited_conc.clear();
  cx.viol.clear();
  cx.notes.clear();
  cx.checks.clear();
  cx.stats = Stats::default();
  cx.timed_out = false;
  cx.terms.clear();
  cx.term_map.clear();
  cx.kprops = vec!["".into()];
  cx.unit = 1_000_000;
  cx.tier = env_u("RXSA_TIER", 0) as u32;
  cx.max_depth = env_u("RXSA_DEPTH", 10) as u32;
  cx.max_steps = env_u("RXSA_STEPS", 20_000_000);
  cx.max_states = env_u("RXSA_STATES", 400_000);
  cx.init_budget = env_u("RXSA_BUDGET", 2) as u32;
  cx.deadline = t0 + std::time::Duration::from_secs(secs);
  for b in cx.bodies.values() {
    for h in b.hit.borrow_mut().iter_mut() {
      *h = false;
    }
  }
  let mut st = State {
    heap: Default::default(),
    threads: vec![Rc::new(Thread { stack: vec![], st: Status::Run, held: vec![], result: None, name: 0 })],
    cur: 0,
    facts: Default::default(),
    dbm: Default::default(),
    next_fresh: 0,
    now: 0,
    budget: 0,
    conc: false,
    statics: Default::default(),
    forced: vec![],
    fpos: 0,
    trace: None,
    depth: 0,
    steps: 0,
    quiet: 0,
    props: 0,
    maprev: None,
    widened: false,
    ctx: 0,
    segs: Default::default(),
    shared_locks: false,
  };
  match cx.body(inst) {
    Ok(b) => {
      if cx.push_frame(&mut st, b, vec![]).is_ok() {
        cx.explore(st);
      }
    }
    Err(_) => cx.note("imprecise: no body for the scenario"),
  }
  if cx.try_ops && !tries {
    // once more, with preemption points at lock releases
    *shared = Some(cx);
    return run_one(s, name, inst, secs.saturating_sub(t0.elapsed().as_secs()), shared);
  }
  let mut out = String::new();
  out += &format!("{{\"scenario\":{},\"wall\":{:.3},\"timed_out\":{}", js(name), t0.elapsed().as_secs_f64(), cx.timed_out);
  let s = &cx.stats;
  out += &format!(",\"stats\":{{\"steps\":{},\"states\":{},\"merged\":{},\"forks\":{},\"paths\":{},\"ends\":{},\"cut_depth\":{},\"cut_states\":{},\"cut_steps\":{},\"preemptions\":{},\"lock_acquisitions\":{},\"longest_library_run\":{}}}",
    s.steps, s.states, s.merged, s.forks, s.paths, s.ends, s.cut_depth, s.cut_states, s.cut_steps, s.preempt, s.locks, s.max_quiet);
  out += &format!(",\"notes\":{},\"checks\":{}", jmap(&cx.notes), jmap(&cx.checks));
  let mut fns: BTreeMap<String, (usize, usize)> = BTreeMap::new();
  for b in cx.bodies.values() {
    if b.is_lib {
      let h = b.hit.borrow();
      let n = h.iter().filter(|x| **x).count();
      if n > 0 {
        let e = fns.entry(b.name.clone()).or_insert((0, h.len()));
        e.0 = e.0.max(n);
      }
    }
  }
  out += &format!(",\"fns\":{{{}}}", fns.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
  out += ",\"violations\":[";
  let mut first = true;
  for v in cx.viol.values() {
    if !first {
      out += ",";
    }
    first = false;
    out += &format!(
      "{{\"props\":{},\"key\":{},\"msg\":{},\"trace\":{},\"stack\":{},\"count\":{}}}",
      js(&v.props), js(&v.key), js(&v.msg), jarr(&v.trace), jarr(&v.stack), v.count
    );
  }
  out += "]}";
  *shared = Some(cx);
  out
}

fn go() -> ControlFlow<()> {
  let s = setup();
  let only: Option<Vec<String>> =
    std::env::var("RXSA_ONLY").ok().map(|x| x.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect());
  let sel: Vec<usize> = (0..s.scen.len())
    .filter(|i| match &only {
      None => true,
      Some(v) => v.iter().any(|p| match p.strip_suffix('*') {
        Some(q) => s.scen[*i].0.starts_with(q),
        None => s.scen[*i].0 == *p,
      }),
    })
    .collect();
  if std::env::var("RXSA_LIST").is_ok() {
    for i in &sel {
      println!("{}", s.scen[*i].0);
    }
    return ControlFlow::Break(());
  }
  let secs = env_u("RXSA_SECS", 60);
  let outd = std::env::var("RXSA_OUT").unwrap_or("/tmp/rxsa".into());
  let _ = std::fs::create_dir_all(&outd);
  let jobs = env_u("RXSA_JOBS", 8) as usize;
  let tdl = std::time::Instant::now() + std::time::Duration::from_secs(env_u("RXSA_TOTAL", 100_000));
  let mut fds = [0i32; 2];
  unsafe {
    pipe(fds.as_mut_ptr());
  }
  let mut pids = vec![];
  for j in 0..jobs.min(sel.len()).max(1) {
    let p = unsafe { fork() };
    if p == 0 {
      unsafe { close(fds[1]) };
      let mut f = std::fs::File::create(format!("{}/part{}.jsonl", outd, j)).unwrap();
      let mut shared: Option<Cx> = None;
      loop {
        let mut b = [0u8; 2];
        let n = unsafe { read(fds[0], b.as_mut_ptr(), 2) };
        if n != 2 {
          break;
        }
        let i = sel[u16::from_le_bytes(b) as usize];
        let left = tdl.saturating_duration_since(std::time::Instant::now()).as_secs();
        let r = run_one(&s, &s.scen[i].0, s.scen[i].1, secs.min(left), &mut shared);
        let _ = writeln!(f, "{}", r);
        let _ = f.flush();
      }
      drop(f);
      unsafe { _exit(0) };
    }
    pids.push(p);
  }
  unsafe { close(fds[0]) };
  for k in 0..sel.len() {
    let b = (k as u16).to_le_bytes();
    unsafe { write(fds[1], b.as_ptr(), 2) };
  }
  unsafe { close(fds[1]) };
  let mut bad = 0;
  for p in pids {
    let mut st = 0;
    unsafe { waitpid(p, &mut st, 0) };
    if st != 0 {
      bad += 1;
    }
  }
  let _ = std::fs::write(format!("{}/done", outd), format!("{} {}\n", sel.len(), bad));
  ControlFlow::Break(())
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let _ = run!(&args, go);
}
