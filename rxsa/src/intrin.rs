//! Models of std functions and of the client crate's marker functions.
use crate::interp::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cmp::Ordering;
use std::rc::Rc;

pub type HF = fn(&mut Cx, &mut State, &Callee, Vec<V>) -> R<Out>;
#[derive(Clone, Copy)]
pub struct Handler {
  pub f: HF,
  pub snap: bool,
}
fn h(f: HF) -> Option<Handler> {
  Some(Handler { f, snap: false })
}
/// handlers that may fork or block
fn hs(f: HF) -> Option<Handler> {
  Some(Handler { f, snap: true })
}
fn ret(v: V) -> R<Out> {
  Ok(Out::Ret(v))
}

// ------------------------------------------------------------------ helpers
/// the place a pointer-like value denotes
pub fn target(v: &V) -> R<(Ptr, Option<(u32, u32)>)> {
  match v {
    V::Ptr(p) => Ok((p.p.clone(), p.sub)),
    V::Box(o, _) | V::Arc(o) => Ok((Ptr::obj(*o), None)),
    V::Adt(a) if a.f.len() == 1 => target(&a.f[0]), // Pin, NonNull...
    v => abort(format!("not a pointer: {:?}", v)),
  }
}
fn seq<'a>(cx: &Cx, st: &'a State, v: &V) -> R<&'a Vec<V>> {
  let (p, _) = target(v)?;
  match cx.read(st, &p)? {
    V::Seq(s) => Ok(s),
    V::Adt(a) => Ok(&a.f),
    v => abort(format!("not a sequence: {:?}", v)),
  }
}
fn seq_mut<'a>(cx: &Cx, st: &'a mut State, v: &V) -> R<&'a mut Vec<V>> {
  let (p, _) = target(v)?;
  match cx.lval(st, &p)? {
    V::Seq(s) => Ok(Rc::make_mut(s)),
    v => abort(format!("not a mutable sequence: {:?}", v)),
  }
}
fn map<'a>(cx: &Cx, st: &'a State, v: &V) -> R<&'a Vec<(V, V)>> {
  let (p, _) = target(v)?;
  match cx.read(st, &p)? {
    V::Map(s) => Ok(s),
    v => abort(format!("not a map: {:?}", v)),
  }
}
fn map_mut<'a>(cx: &Cx, st: &'a mut State, v: &V) -> R<&'a mut Vec<(V, V)>> {
  let (p, _) = target(v)?;
  match cx.lval(st, &p)? {
    V::Map(s) => Ok(Rc::make_mut(s)),
    v => abort(format!("not a mutable map: {:?}", v)),
  }
}
pub fn cint(v: &V) -> R<i128> {
  match v {
    V::Int(Lin { sym: 0, off }) => Ok(*off),
    V::Bool(b) => Ok(*b as i128),
    v => abort(format!("concrete integer expected, got {:?}", v)),
  }
}
fn clin(v: &V) -> R<Lin> {
  match v {
    V::Int(l) => Ok(*l),
    v => abort(format!("integer expected, got {:?}", v)),
  }
}
fn ctok(cx: &Cx, st: &State, v: &V) -> R<TermId> {
  match v {
    V::Tok(t) => Ok(*t),
    V::Ptr(p) => {
      let x = cx.read(st, &p.p)?.clone();
      ctok(cx, st, &x)
    }
    V::Adt(a) if a.f.len() == 1 => ctok(cx, st, &a.f[0]),
    v => abort(format!("token expected, got {:?}", v)),
  }
}
fn cstr(cx: &Cx, st: &State, v: &V) -> String {
  match v {
    V::Str(s) => s.to_string(),
    V::Ptr(p) => match cx.read(st, &p.p) {
      Ok(x) => cstr(cx, st, &x.clone()),
      _ => "?".into(),
    },
    _ => "?".into(),
  }
}
fn ty_arg(c: &Callee, i: usize) -> R<Ty> {
  let ts: Vec<Ty> = c.args.0.iter().filter_map(|a| a.ty().copied()).collect();
  match ts.get(i) {
    Some(t) => Ok(*t),
    None => abort(format!("type argument of {}", c.name)),
  }
}
fn ty_args(c: &Callee) -> Vec<GenericArgKind> {
  c.args.0.iter().filter(|a| matches!(a, GenericArgKind::Type(_))).cloned().collect()
}
/// deliver `v` then run the drops of `xs`
fn ret_drop(cx: &mut Cx, st: &mut State, v: V, xs: Vec<V>) -> R<Out> {
  cx.deliver(st, v)?;
  let items: Vec<DropItem> = xs.into_iter().rev().filter(droppable).map(DropItem::V).collect();
  if !items.is_empty() {
    cx.push_drop(st, items);
  }
  Ok(Out::Done)
}
fn label_here(cx: &mut Cx, st: &State) -> u32 {
  let s = cx.lib_site(st);
  cx.intern(&s)
}
fn no_dyn(v: V, t: Ty) -> Option<Ty> {
  let _ = v;
  match t.kind() {
    TyKind::RigidTy(RigidTy::Dynamic(..)) => None,
    _ => Some(t),
  }
}
/// range argument -> [a, b) for a sequence of length n
fn range_of(ty: Ty, v: &V, n: u32) -> R<(u32, u32)> {
  let name = ty_name(ty);
  let f = match v {
    V::Adt(a) => a.f.clone(),
    _ => return abort("range value"),
  };
  let g = |i: usize| -> R<u32> { Ok(cint(&f[i])? as u32) };
  let nm = name.split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
  Ok(match nm.as_str() {
    "RangeFull" => (0, n),
    "RangeTo" => (0, g(0)?),
    "RangeFrom" => (g(0)?, n),
    "Range" => (g(0)?, g(1)?),
    "RangeInclusive" => (g(0)?, g(1)? + 1),
    "RangeToInclusive" => (0, g(0)? + 1),
    _ => return abort(format!("range type {}", name)),
  })
}
fn map_find(cx: &mut Cx, st: &mut State, m: &V, k: &V) -> R<Option<u32>> {
  let kv = cx.deref_val(st, k)?;
  let n = map(cx, st, m)?.len();
  for i in 0..n {
    let x = map(cx, st, m)?[i].0.clone();
    if cx.veq(st, &x, &kv)? {
      return Ok(Some(i as u32));
    }
  }
  Ok(None)
}
fn rev_order(cx: &mut Cx, st: &mut State, n: u32, hash: bool) -> R<bool> {
  if !hash || n < 2 {
    return Ok(false);
  }
  if let Some(r) = st.maprev {
    return Ok(r);
  }
  let r = cx.decide(st, 2)? == 1;
  st.maprev = Some(r);
  Ok(r)
}
fn arr_ptr(p: &Ptr, i: u32) -> V {
  ptr(p.ext(PE::I(i)))
}

// ------------------------------------------------------------------ lookup
pub fn lookup(name: &str, inst: &Instance) -> Option<Handler> {
  let krate = inst.def.krate().name;
  if krate == "harness" {
    return marker(name);
  }
  if krate == "another_rxrust" {
    return None;
  }
  std_fn(name, inst)
}

fn self_ty(c: &Callee) -> Option<Ty> {
  let s = c.inst.ty().kind();
  let sig = s.fn_sig()?.skip_binder();
  sig.inputs().first().copied()
}

/// `<TYPE as TRAIT>::METHOD` -> (TYPE, TRAIT, METHOD)
fn split_impl(name: &str) -> Option<(&str, &str, &str)> {
  if !name.starts_with('<') {
    return None;
  }
  // matching '>' of the leading '<'
  let b = name.as_bytes();
  let mut d = 0i32;
  let mut end = 0;
  for (i, c) in b.iter().enumerate() {
    match c {
      b'<' => d += 1,
      b'>' if i > 0 && b[i - 1] == b'-' => {}
      b'>' => {
        d -= 1;
        if d == 0 {
          end = i;
          break;
        }
      }
      _ => {}
    }
  }
  if end == 0 {
    return None;
  }
  let inner = &name[1..end];
  let rest = name.get(end + 3..)?;
  // split inner at the top-level " as "
  let mut d = 0i32;
  let ib = inner.as_bytes();
  let mut pos = None;
  for i in 0..ib.len() {
    match ib[i] {
      b'<' | b'(' | b'[' => d += 1,
      b'>' if i > 0 && ib[i - 1] == b'-' => {}
      b'>' | b')' | b']' => d -= 1,
      b' ' if d == 0 && inner[i..].starts_with(" as ") => {
        pos = Some(i);
        break;
      }
      _ => {}
    }
  }
  let p = pos?;
  Some((&inner[..p], &inner[p + 4..], rest))
}
/// `MODULE::<impl TRAIT for TYPE>::METHOD` -> (TYPE, TRAIT, METHOD)
fn split_impl_for(name: &str) -> Option<(&str, &str, &str)> {
  let i = name.find("::<impl ")? + 8;
  let s = &name[i..];
  let b = s.as_bytes();
  let (mut d, mut pos, mut end) = (0i32, None, None);
  for j in 0..b.len() {
    match b[j] {
      b'<' | b'(' | b'[' => d += 1,
      b'>' if j > 0 && b[j - 1] == b'-' => {}
      b'>' if d == 0 => {
        end = Some(j);
        break;
      }
      b'>' | b')' | b']' => d -= 1,
      b' ' if d == 0 && pos.is_none() && s[j..].starts_with(" for ") => pos = Some(j),
      _ => {}
    }
  }
  let (p, e) = (pos?, end?);
  Some((&s[p + 5..e], &s[..p], s.get(e + 3..)?))
}
fn base_name(t: &str) -> &str {
  t.trim_start_matches('&').trim_start_matches("'a ").trim_start_matches("mut ").split('<').next().unwrap_or(t)
}

const ITERS: &[&str] = &[
  "std::slice::Iter",
  "std::slice::IterMut",
  "std::vec::IntoIter",
  "std::vec::Drain",
  "std::collections::vec_deque::Iter",
  "std::collections::vec_deque::IterMut",
  "std::collections::vec_deque::IntoIter",
  "std::collections::vec_deque::Drain",
  "std::collections::hash_map::Iter",
  "std::collections::hash_map::IterMut",
  "std::collections::hash_map::Keys",
  "std::collections::hash_map::Values",
  "std::collections::hash_map::ValuesMut",
  "std::collections::hash_map::IntoIter",
  "std::collections::hash_map::IntoKeys",
  "std::collections::hash_map::IntoValues",
  "std::collections::hash_map::Drain",
  "std::collections::btree_map::Iter",
  "std::collections::btree_map::IterMut",
  "std::collections::btree_map::Keys",
  "std::collections::btree_map::Values",
  "std::collections::btree_map::ValuesMut",
  "std::collections::btree_map::IntoIter",
  "std::collections::btree_map::IntoKeys",
  "std::collections::btree_map::IntoValues",
  "std::collections::hash_set::Iter",
  "std::collections::hash_set::IntoIter",
  "std::collections::hash_set::Drain",
  "std::collections::btree_set::Iter",
  "std::collections::btree_set::IntoIter",
  "std::collections::btree_map::Range",
  "std::array::IntoIter",
];
const RANGES: &[&str] = &["std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom"];

fn std_fn(name: &str, inst: &Instance) -> Option<Handler> {
  // ---------------------------------------------------------------- panics, formatting, I/O
  if name.starts_with("std::rt::panic")
    || name.starts_with("core::panicking")
    || name.starts_with("std::rt::begin_panic")
    || name.starts_with("std::panicking")
    || name.contains("unwrap_failed")
    || name.contains("expect_failed")
    || name.ends_with("panic_const::panic_const_async_fn_resumed")
    || name.starts_with("std::process::")
  {
    return h(|cx, st, c, a| {
      let m = a.first().map(|x| cx.show(st, x, 0)).unwrap_or_default();
      let e = cx.panicked(st, format!("{} {}", c.name, m));
      e.map(|_| Out::Done)
    });
  }
  let last = name.rsplit("::").next().unwrap_or("");
  if name.contains("std::io::Error") && (last == "from" || last == "kind" || last == "new") {
    // only the kind is modelled
    return match last {
      "from" => h(|_, _, _, a| ret(a[0].clone())),
      "new" => h(|cx, st, _, mut a| {
        let x = a.pop().unwrap();
        let k = a.pop().unwrap();
        ret_drop(cx, st, k, vec![x])
      }),
      _ => h(|cx, st, _, a| {
        let v = cx.deref_val(st, &a[0])?;
        ret(v)
      }),
    };
  }
  if name.starts_with("std::fmt::")
    || name.starts_with("core::fmt::")
    || name.starts_with("std::io::")
    || name.contains(" as std::fmt::")
    || name.starts_with("std::any::type_name")
    || name.starts_with("std::string::")
    || name.starts_with("alloc::fmt::")
    || name.contains("std::string::String as")
    || name.contains("std::string::ToString")
    || name.contains("std::error::Error for")
    || name.contains("std::io::Error")
    || name == "alloc::alloc::handle_alloc_error"
  {
    return h(|_, _, _, _| ret(V::Opaque(0)));
  }
  if let Some((t, tr, m)) = split_impl(name) {
    if let Some(r) = impl_fn(base_name(t), t, tr, m, name) {
      return Some(r);
    }
    return None;
  }
  if let Some((t, tr, m)) = split_impl_for(name) {
    if let Some(r) = impl_fn(base_name(t), t, tr, m, name) {
      return Some(r);
    }
  }
  let last = name.rsplit("::").next().unwrap_or("");
  if name.starts_with("std::sync::Arc::<") || name.starts_with("std::rc::Rc::<") {
    return arc_fn(last);
  }
  if name.starts_with("std::sync::Weak::<") || name.starts_with("std::rc::Weak::<") {
    return match last {
      "new" => h(|_, _, _, _| ret(V::Weak(u32::MAX))),
      "strong_count" | "weak_count" => h(|cx, st, c, a| {
        let V::Weak(o) = cx.deref_val(st, &a[0])? else { return abort("weak") };
        let n = match st.heap.get(o) {
          Some(ob) => if c.name.ends_with("strong_count") { ob.strong } else if ob.strong > 0 { ob.weak } else { 0 },
          None => 0,
        };
        ret(int(n as i128))
      }),
      "ptr_eq" => h(|cx, st, _, a| {
        let (x, y) = (cx.deref_val(st, &a[0])?, cx.deref_val(st, &a[1])?);
        match (x, y) {
          (V::Weak(x), V::Weak(y)) => ret(V::Bool(x == y)),
          _ => abort("weak"),
        }
      }),
      "upgrade" => h(|cx, st, _, a| {
        let w = cx.deref_val(st, &a[0])?;
        let V::Weak(o) = w else { return abort("weak") };
        match st.heap.get_mut(o) {
          Some(ob) if ob.strong > 0 => {
            ob.strong += 1;
            ret(some(V::Arc(o)))
          }
          _ => ret(none()),
        }
      }),
      _ => None,
    };
  }
  if name.starts_with("std::boxed::Box::<") {
    return match last {
      "new" => h(|_, st, c, mut a| {
        let t = ty_arg(c, 0)?;
        let o = st.heap.alloc(Obj { v: a.pop().unwrap(), ty: Some(t), strong: 1, weak: 0, label: 0 });
        ret(V::Box(o, None))
      }),
      "new_uninit" => h(|_, st, c, _| {
        let t = ty_arg(c, 0)?;
        let o = st.heap.alloc(Obj { v: V::Uninit, ty: Some(t), strong: 1, weak: 0, label: 0 });
        ret(V::Box(o, None))
      }),
      _ => None,
    };
  }
  for lk in ["std::sync::RwLock::<", "std::sync::Mutex::<"] {
    if name.starts_with(lk) {
      let mutex = lk.contains("Mutex");
      return match last {
        "new" => {
          if mutex {
            h(|_, _, _, mut a| {
              ret(V::Lock(Rc::new(LockV { v: a.pop().unwrap(), mutex: true, readers: vec![], writer: None })))
            })
          } else {
            h(|_, _, _, mut a| {
              ret(V::Lock(Rc::new(LockV { v: a.pop().unwrap(), mutex: false, readers: vec![], writer: None })))
            })
          }
        }
        "read" => hs(|cx, st, _, a| {
          let (p, _) = target(&a[0])?;
          let g = cx.acquire(st, &p, false)?;
          ret(ok(g))
        }),
        "write" | "lock" => hs(|cx, st, _, a| {
          let (p, _) = target(&a[0])?;
          let g = cx.acquire(st, &p, true)?;
          ret(ok(g))
        }),
        "try_read" => hs(|cx, st, _, a| {
          let (p, _) = target(&a[0])?;
          cx.try_ops = true;
          cx.preempt(st)?;
          if cx.can_lock(st, &p, false, st.cur) {
            let g = cx.acquire_now(st, &p, false)?;
            ret(ok(g))
          } else {
            ret(en(1, vec![en(1, vec![])]))
          }
        }),
        "try_write" | "try_lock" => hs(|cx, st, _, a| {
          let (p, _) = target(&a[0])?;
          cx.try_ops = true;
          cx.preempt(st)?;
          if cx.can_lock(st, &p, true, st.cur) {
            let g = cx.acquire_now(st, &p, true)?;
            ret(ok(g))
          } else {
            ret(en(1, vec![en(1, vec![])]))
          }
        }),
        "get_mut" => h(|_, _, _, a| {
          let (p, _) = target(&a[0])?;
          ret(ok(ptr(p.ext(PE::L))))
        }),
        "into_inner" => h(|_, _, _, a| match &a[0] {
          V::Lock(l) => ret(ok(l.v.clone())),
          _ => abort("into_inner"),
        }),
        "is_poisoned" => h(|_, _, _, _| ret(V::Bool(false))),
        "clear_poison" => h(|_, _, _, _| ret(unit())),
        _ => None,
      };
    }
  }
  if name.starts_with("std::sync::Condvar::") {
    return match last {
      "new" => h(|_, _, _, _| ret(V::Cond)),
      "wait" => hs(|cx, st, _, a| cond_wait(cx, st, a, None)),
      "notify_one" => hs(|cx, st, _, a| {
        cx.preempt(st)?;
        let (cp, _) = target(&a[0])?;
        let ws: Vec<usize> = (0..st.threads.len())
          .filter(|t| matches!(&st.threads[*t].st, Status::Cond { cond, notified: false, .. } if *cond == cp))
          .collect();
        if !ws.is_empty() {
          let i = cx.decide(st, ws.len() as u32)? as usize;
          notify(st, ws[i]);
        }
        ret(unit())
      }),
      "notify_all" => hs(|cx, st, _, a| {
        cx.preempt(st)?;
        let (cp, _) = target(&a[0])?;
        for t in 0..st.threads.len() {
          if matches!(&st.threads[t].st, Status::Cond { cond, notified: false, .. } if *cond == cp) {
            notify(st, t);
          }
        }
        ret(unit())
      }),
      "wait_while" => h(|cx, st, c, a| {
        let ts = ty_args(c);
        cx.call_shim(st, "cond_wait_while", ts, a)
      }),
      "wait_timeout" => h(|cx, st, c, a| {
        let ts = ty_args(c);
        cx.call_shim(st, "cond_wait_timeout", ts, a)
      }),
      "wait_timeout_while" => h(|cx, st, c, a| {
        let ts = ty_args(c);
        cx.call_shim(st, "cond_wait_timeout_while", ts, a)
      }),
      _ => None,
    };
  }
  if name.starts_with("std::sync::WaitTimeoutResult::") || name.ends_with("WaitTimeoutResult::timed_out") {
    return h(|cx, st, _, a| {
      let v = cx.deref_val(st, &a[0])?;
      ret(v)
    });
  }
  if name.starts_with("std::sync::atomic::") {
    return atomic_fn(last);
  }
  if name.starts_with("std::thread::") || name.starts_with("<std::thread") {
    return thread_fn(name, last);
  }
  if name.starts_with("std::cell::UnsafeCell::<") || name.starts_with("std::cell::Cell::<") || name.starts_with("std::cell::RefCell::<") {
    let cell = name.starts_with("std::cell::Cell::<");
    let unsafe_cell = name.starts_with("std::cell::UnsafeCell::<");
    if unsafe_cell {
      return match last {
        "new" => h(|_, _, _, mut a| ret(a.pop().unwrap())),
        "get" | "get_mut" | "raw_get" => h(|_, _, _, mut a| ret(a.pop().unwrap())),
        "into_inner" => h(|_, _, _, mut a| ret(a.pop().unwrap())),
        _ => None,
      };
    }
    if cell {
      return match last {
        "new" => h(|_, _, _, mut a| ret(a.pop().unwrap())),
        "get" => h(|cx, st, _, a| {
          let v = cx.deref_val(st, &a[0])?;
          ret(v)
        }),
        "set" => h(|cx, st, _, a| {
          let (p, _) = target(&a[0])?;
          let old = std::mem::replace(cx.lval(st, &p)?, a[1].clone());
          ret_drop(cx, st, unit(), vec![old])
        }),
        _ => None,
      };
    }
    return None;
  }
  if name.starts_with("std::vec::Vec::<") {
    return vec_fn(last);
  }
  if name.starts_with("std::collections::VecDeque::<") {
    return deque_fn(last);
  }
  if name.starts_with("core::slice::<impl [T]>::")
    || name.starts_with("std::slice::<impl [T]>::")
    || name.starts_with("alloc::slice::<impl [T]>::")
    || name.starts_with("core::slice::index::<impl")
    || name.starts_with("core::array::<impl")
    || name.starts_with("std::array::<impl")
  {
    return slice_fn(last);
  }
  for (p, hash) in [
    ("std::collections::HashMap::<", true),
    ("std::collections::BTreeMap::<", false),
    ("std::collections::hash_map::HashMap::<", true),
  ] {
    if name.starts_with(p) {
      return map_fn(last, hash);
    }
  }
  for (p, hash) in [("std::collections::HashSet::<", true), ("std::collections::BTreeSet::<", false)] {
    if name.starts_with(p) {
      return set_fn(last, hash);
    }
  }
  if name.starts_with("std::collections::hash_map::Entry::<") || name.starts_with("std::collections::btree_map::Entry::<") {
    return entry_fn(last);
  }
  for m in ["hash_map", "btree_map"] {
    for (k, occ) in [("OccupiedEntry", true), ("VacantEntry", false)] {
      if name.starts_with(&format!("std::collections::{}::{}::<", m, k)) {
        return entry_kind_fn(last, occ);
      }
    }
  }
  if name.starts_with("std::sync::OnceLock::<") || name.starts_with("std::cell::OnceCell::<") {
    return once_cell_fn(last);
  }
  if name.starts_with("std::time::Duration::") {
    return dur_fn(last);
  }
  if name.starts_with("std::time::Instant::") || name.starts_with("std::time::SystemTime::") {
    return match last {
      "now" => h(|_, st, _, _| ret(int(st.now + 1_000_000_000_000))),
      "elapsed" => {
        if name.contains("SystemTime") {
          h(|cx, st, _, a| {
            let x = cint(&cx.deref_val(st, &a[0])?)?;
            ret(ok(int(st.now + 1_000_000_000_000 - x)))
          })
        } else {
          h(|cx, st, _, a| {
            let x = cint(&cx.deref_val(st, &a[0])?)?;
            ret(int(st.now + 1_000_000_000_000 - x))
          })
        }
      }
      "duration_since" | "saturating_duration_since" => {
        if name.contains("SystemTime") {
          h(|cx, st, _, a| {
            let x = cint(&cx.deref_val(st, &a[0])?)?;
            let y = cint(&cx.deref_val(st, &a[1])?)?;
            ret(ok(int((x - y).max(0))))
          })
        } else {
          h(|cx, st, _, a| {
            let x = cint(&cx.deref_val(st, &a[0])?)?;
            let y = cint(&cx.deref_val(st, &a[1])?)?;
            ret(int((x - y).max(0)))
          })
        }
      }
      "checked_duration_since" => h(|cx, st, _, a| {
        let x = cint(&cx.deref_val(st, &a[0])?)?;
        let y = cint(&cx.deref_val(st, &a[1])?)?;
        ret(if x >= y { some(int(x - y)) } else { none() })
      }),
      "checked_add" => h(|cx, st, _, a| {
        let x = cint(&cx.deref_val(st, &a[0])?)?;
        ret(some(int(x + cint(&a[1])?)))
      }),
      _ => None,
    };
  }
  if name.starts_with("std::mem::") || name.starts_with("core::mem::") {
    return match last {
      "replace" => h(|cx, st, _, a| {
        let (p, _) = target(&a[0])?;
        let old = std::mem::replace(cx.lval(st, &p)?, a[1].clone());
        ret(old)
      }),
      "swap" => h(|cx, st, _, a| {
        let (p, _) = target(&a[0])?;
        let (q, _) = target(&a[1])?;
        let x = cx.read(st, &p)?.clone();
        let y = cx.read(st, &q)?.clone();
        cx.write(st, &p, y)?;
        cx.write(st, &q, x)?;
        ret(unit())
      }),
      "forget" => h(|_, _, _, _| ret(unit())),
      "size_of" | "align_of" => h(|_, _, c, _| {
        let t = ty_arg(c, 0)?;
        match t.layout() {
          Ok(l) => ret(int(l.shape().size.bytes() as i128)),
          _ => abort("size_of"),
        }
      }),
      "needs_drop" => h(|_, _, _, _| ret(V::Bool(true))),
      "discriminant" => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
        V::Adt(x) => ret(tup(vec![int(x.var as i128)])),
        _ => abort("discriminant"),
      }),
      _ => None,
    };
  }
  if name.starts_with("std::ptr::") || name.starts_with("core::ptr::") || name.starts_with("std::intrinsics::") {
    return match last {
      "read" | "read_volatile" => h(|cx, st, _, a| {
        let (p, _) = target(&a[0])?;
        ret(cx.read(st, &p)?.clone())
      }),
      "write" => h(|cx, st, _, a| {
        let (p, _) = target(&a[0])?;
        cx.write(st, &p, a[1].clone())?;
        ret(unit())
      }),
      "eq" | "addr_eq" => h(|_, _, _, a| {
        let (p, _) = target(&a[0])?;
        let (q, _) = target(&a[1])?;
        ret(V::Bool(p == q))
      }),
      "black_box" | "likely" | "unlikely" | "transmute" => h(|_, _, _, mut a| ret(a.pop().unwrap())),
      "type_id" => h(|_, _, c, _| ret(V::TypeId(ty_arg(c, 0)?))),
      "assume" | "assert_inhabited" | "cold_path" => h(|_, _, _, _| ret(unit())),
      "needs_drop" => h(|_, _, _, _| ret(V::Bool(true))),
      _ => None,
    };
  }
  if name == "std::any::TypeId::of" || name.starts_with("std::any::TypeId::of") {
    return h(|_, _, c, _| ret(V::TypeId(ty_arg(c, 0)?)));
  }
  if name.starts_with("core::num::<impl ") {
    return num_fn(last);
  }
  if name == "std::iter::Iterator::collect" {
    return None;
  }
  if name.starts_with("std::task::Waker::") || name.starts_with("std::task::Context::") {
    return match (name.contains("Waker::"), last) {
      (true, "wake") => h(|cx, st, _, mut a| match a.pop().unwrap() {
        V::Adt(x) => cx.call_shim(st, "wake_own", vec![], vec![x.f[0].clone()]),
        _ => abort("waker"),
      }),
      (true, "wake_by_ref") => h(|cx, st, _, a| {
        let (p, _) = target(&a[0])?;
        cx.call_shim(st, "wake_ref", vec![], vec![ptr(p.ext(PE::F(0)))])
      }),
      (true, "will_wake") => h(|cx, st, _, a| {
        let x = cx.deref_val(st, &a[0])?;
        let y = cx.deref_val(st, &a[1])?;
        match (&x, &y) {
          (V::Adt(x), V::Adt(y)) => match (&x.f[0], &y.f[0]) {
            (V::Arc(a), V::Arc(b)) => ret(V::Bool(a == b)),
            _ => abort("waker"),
          },
          _ => abort("waker"),
        }
      }),
      (false, "from_waker") => h(|_, _, _, a| ret(tup(vec![a[0].clone()]))),
      (false, "waker") => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
        V::Adt(x) => ret(x.f[0].clone()),
        _ => abort("context"),
      }),
      _ => None,
    };
  }
  if name.ends_with("into_vec") || name.contains("box_assume_init_into_vec") {
    return h(|_, st, _, mut a| match a.pop().unwrap() {
      V::Box(o, _) => {
        let ob = st.heap.free(o).unwrap();
        let mut v = ob.v.clone();
        // MaybeUninit<[T; N]>: union/ManuallyDrop wrappers
        loop {
          match v {
            V::Adt(a) if !a.f.is_empty() => v = a.f.last().unwrap().clone(),
            _ => break,
          }
        }
        ret(v)
      }
      v => ret(v),
    });
  }
  if name == "std::boxed::box_new" || name.ends_with("box_new") {
    return h(|_, st, c, mut a| {
      let t = ty_arg(c, 0)?;
      let o = st.heap.alloc(Obj { v: a.pop().unwrap(), ty: Some(t), strong: 1, weak: 0, label: 0 });
      ret(V::Box(o, None))
    });
  }
  if name.ends_with("vec::from_elem") {
    return h(|cx, st, c, a| cx.call_shim(st, "vec_from_elem", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a));
  }
  if name == "std::hint::spin_loop" {
    return hs(|cx, st, _, _| {
      cx.preempt(st)?;
      ret(unit())
    });
  }
  if name.starts_with("std::iter::range::<impl std::iter::Iterator for std::ops::Range<") && last == "next" {
    return range_next();
  }
  let _ = inst;
  None
}

fn notify(st: &mut State, t: usize) {
  let th = Rc::make_mut(&mut st.threads[t]);
  if let Status::Cond { notified, .. } = &mut th.st {
    *notified = true;
  }
}

fn arc_fn(last: &str) -> Option<Handler> {
  match last {
    "new" | "pin" => h(|cx, st, c, mut a| {
      let t = ty_arg(c, 0)?;
      let label = label_here(cx, st);
      let o = st.heap.alloc(Obj { v: a.pop().unwrap(), ty: Some(t), strong: 1, weak: 0, label });
      ret(V::Arc(o))
    }),
    "strong_count" => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
      V::Arc(o) => ret(int(st.heap.get(o).map_or(0, |o| o.strong) as i128)),
      _ => abort("strong_count"),
    }),
    "weak_count" => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
      V::Arc(o) => ret(int(st.heap.get(o).map_or(0, |o| o.weak) as i128)),
      _ => abort("weak_count"),
    }),
    "ptr_eq" => h(|cx, st, _, a| match (cx.deref_val(st, &a[0])?, cx.deref_val(st, &a[1])?) {
      (V::Arc(x), V::Arc(y)) => ret(V::Bool(x == y)),
      _ => abort("ptr_eq"),
    }),
    "make_mut" => h(|cx, st, c, a| {
      let t = ty_arg(c, 0)?;
      cx.call_shim(st, "arc_make_mut", vec![GenericArgKind::Type(t)], a)
    }),
    "unwrap_or_clone" => h(|cx, st, c, a| {
      let t = ty_arg(c, 0)?;
      cx.call_shim(st, "arc_unwrap_or_clone", vec![GenericArgKind::Type(t)], a)
    }),
    "downgrade" => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
      V::Arc(o) => {
        if let Some(ob) = st.heap.get_mut(o) {
          ob.weak += 1;
        }
        ret(V::Weak(o))
      }
      _ => abort("downgrade"),
    }),
    "get_mut" => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
      V::Arc(o) => {
        let ob = st.heap.get(o).unwrap();
        ret(if ob.strong == 1 && ob.weak == 0 { some(ptr(Ptr::obj(o))) } else { none() })
      }
      _ => abort("get_mut"),
    }),
    "try_unwrap" | "into_inner" => {
      if last == "try_unwrap" {
        h(|_, st, _, a| match a[0] {
          V::Arc(o) => {
            if st.heap.get(o).unwrap().strong == 1 {
              let ob = st.heap.get_mut(o).unwrap();
              ob.strong = 0;
              let v = std::mem::replace(&mut ob.v, V::Uninit);
              if ob.weak == 0 {
                st.heap.free(o);
              }
              ret(ok(v))
            } else {
              ret(en(1, vec![V::Arc(o)]))
            }
          }
          _ => abort("try_unwrap"),
        })
      } else {
        h(|_, st, _, a| match a[0] {
          V::Arc(o) => {
            let ob = st.heap.get_mut(o).unwrap();
            ob.strong -= 1;
            if ob.strong == 0 {
              let v = std::mem::replace(&mut ob.v, V::Uninit);
              if ob.weak == 0 {
                st.heap.free(o);
              }
              ret(some(v))
            } else {
              ret(none())
            }
          }
          _ => abort("into_inner"),
        })
      }
    }
    "as_ptr" => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
      V::Arc(o) => ret(ptr(Ptr::obj(o))),
      _ => abort("as_ptr"),
    }),
    _ => None,
  }
}

fn atomic_fn(last: &str) -> Option<Handler> {
  fn cell(v: &V) -> R<Ptr> {
    Ok(target(v)?.0.ext(PE::F(0)))
  }
  match last {
    "new" => h(|_, _, _, mut a| ret(tup(vec![a.pop().unwrap()]))),
    "load" => hs(|cx, st, _, a| {
      cx.preempt(st)?;
      let p = cell(&a[0])?;
      ret(cx.read(st, &p)?.clone())
    }),
    "store" => hs(|cx, st, _, a| {
      cx.preempt(st)?;
      let p = cell(&a[0])?;
      cx.write(st, &p, a[1].clone())?;
      ret(unit())
    }),
    "swap" => hs(|cx, st, _, a| {
      cx.preempt(st)?;
      let p = cell(&a[0])?;
      let o = std::mem::replace(cx.lval(st, &p)?, a[1].clone());
      ret(o)
    }),
    "fetch_add" | "fetch_sub" => {
      if last == "fetch_add" {
        hs(|cx, st, c, a| {
          cx.preempt(st)?;
          let p = cell(&a[0])?;
          let o = cint(cx.read(st, &p)?)?;
          let t = arg_ty(c, 1)?;
          let n = cx.wrap(o + cint(&a[1])?, t).0;
          cx.write(st, &p, int(n))?;
          ret(int(o))
        })
      } else {
        hs(|cx, st, c, a| {
          cx.preempt(st)?;
          let p = cell(&a[0])?;
          let o = cint(cx.read(st, &p)?)?;
          let t = arg_ty(c, 1)?;
          let n = cx.wrap(o - cint(&a[1])?, t).0;
          cx.write(st, &p, int(n))?;
          ret(int(o))
        })
      }
    }
    "fetch_or" | "fetch_and" | "fetch_max" | "fetch_min" => hs(|cx, st, c, a| {
      cx.preempt(st)?;
      let p = cell(&a[0])?;
      let o = cx.read(st, &p)?.clone();
      let isb = matches!(o, V::Bool(_));
      let (x, y) = (cint(&o)?, cint(&a[1])?);
      let r = if c.name.ends_with("fetch_or") {
        x | y
      } else if c.name.ends_with("fetch_and") {
        x & y
      } else if c.name.ends_with("fetch_max") {
        x.max(y)
      } else {
        x.min(y)
      };
      cx.write(st, &p, if isb { V::Bool(r != 0) } else { int(r) })?;
      ret(o)
    }),
    "compare_exchange" | "compare_exchange_weak" => hs(|cx, st, _, a| {
      cx.preempt(st)?;
      let p = cell(&a[0])?;
      let o = cx.read(st, &p)?.clone();
      if cint(&o)? == cint(&a[1])? {
        cx.write(st, &p, a[2].clone())?;
        ret(ok(o))
      } else {
        ret(en(1, vec![o]))
      }
    }),
    "fetch_xor" | "fetch_nand" | "fetch_not" => hs(|cx, st, c, a| {
      cx.preempt(st)?;
      let p = cell(&a[0])?;
      let o = cx.read(st, &p)?.clone();
      let r = match (&o, c.name.rsplit("::").next().unwrap_or("")) {
        (V::Bool(x), "fetch_not") => V::Bool(!x),
        (V::Bool(x), "fetch_xor") => V::Bool(*x != (cint(&a[1])? != 0)),
        (V::Bool(x), _) => V::Bool(!(*x && cint(&a[1])? != 0)),
        (_, "fetch_xor") => int(cint(&o)? ^ cint(&a[1])?),
        _ => return abort("atomic"),
      };
      cx.write(st, &p, r)?;
      ret(o)
    }),
    // the closure is taken to be pure: one atomic step
    "fetch_update" | "try_update" => h(|cx, st, c, mut a| {
      let f = a.pop().unwrap();
      let p = cell(&a[0])?;
      let ts = ty_args(c);
      let t = val_ty(c)?;
      cx.call_shim(st, "atomic_update", vec![GenericArgKind::Type(t), ts.last().unwrap().clone()], vec![ptr(p), f])
    }),
    "update" => h(|cx, st, c, mut a| {
      let f = a.pop().unwrap();
      let p = cell(&a[0])?;
      let ts = ty_args(c);
      let t = val_ty(c)?;
      cx.call_shim(st, "atomic_update1", vec![GenericArgKind::Type(t), ts.last().unwrap().clone()], vec![ptr(p), f])
    }),
    "into_inner" => h(|_, _, _, a| match &a[0] {
      V::Adt(x) => ret(x.f[0].clone()),
      _ => abort("atomic"),
    }),
    "get_mut" => h(|_, _, _, a| ret(ptr(cell(&a[0])?))),
    "fence" | "compiler_fence" => h(|_, _, _, _| ret(unit())),
    _ => None,
  }
}
/// the value type of an atomic's fetch_update: Result<T, T> / T
fn val_ty(c: &Callee) -> R<Ty> {
  let k = c.inst.ty().kind();
  match k.fn_sig() {
    Some(s) => {
      let o = s.skip_binder().output();
      match o.kind() {
        TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.iter().find_map(|x| x.ty()) {
          Some(t) => Ok(*t),
          None => abort("val ty"),
        },
        _ => Ok(o),
      }
    }
    None => abort("val ty"),
  }
}
fn arg_ty(c: &Callee, i: usize) -> R<Ty> {
  let k = c.inst.ty().kind();
  match k.fn_sig() {
    Some(s) => match s.skip_binder().inputs().get(i) {
      Some(t) => Ok(*t),
      None => abort("arg ty"),
    },
    None => abort("arg ty"),
  }
}

fn thread_fn(name: &str, last: &str) -> Option<Handler> {
  match last {
    "spawn" if name == "std::thread::spawn" => hs(|cx, st, c, mut a| {
      let fty = ty_arg(c, 0)?;
      if st.threads.iter().filter(|t| t.st != Status::Done).count() > 12 {
        return abort("too many threads");
      }
      let tid = st.threads.len() as u16;
      let nm = label_here(cx, st);
      st.threads.push(Rc::new(Thread { stack: vec![], st: Status::Run, held: vec![], result: None, name: nm }));
      let me = st.cur;
      st.cur = tid;
      let r = cx.call_fn(st, fty, true, a.pop().unwrap(), tup(vec![]));
      st.cur = me;
      match r? {
        Out::Ret(v) => {
          let th = Rc::make_mut(&mut st.threads[tid as usize]);
          th.result = Some(v);
          th.st = Status::Done;
        }
        _ => {}
      }
      ret(V::Thread(tid))
    }),
    "join" => hs(|_, st, _, a| {
      let V::Thread(t) = a[0] else { return abort("join") };
      if st.threads[t as usize].st == Status::Done {
        let v = st.threads[t as usize].result.clone().unwrap_or(unit());
        ret(ok(v))
      } else {
        Err(Stop::Block(Status::Join(t)))
      }
    }),
    "new" | "name" | "stack_size" if name.contains("Builder") => h(|_, _, _, _| ret(V::Opaque(0))),
    "spawn" if name.contains("Builder") => hs(|cx, st, c, a| {
      let f = a[1].clone();
      match (thread_fn("std::thread::spawn", "spawn").unwrap().f)(cx, st, c, vec![f])? {
        Out::Ret(v) => ret(ok(v)),
        o => Ok(o),
      }
    }),
    "is_finished" => h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
      V::Thread(t) => ret(V::Bool(st.threads[t as usize].st == Status::Done)),
      _ => abort("is_finished"),
    }),
    "sleep" => hs(|cx, st, _, a| {
      let d = cint(&a[0])?;
      cx.deliver(st, unit())?;
      let u = st.now + d;
      cx.thread_mut(st).st = Status::Sleep(u);
      Ok(Out::Done)
    }),
    "current" => h(|_, st, _, _| ret(V::Thread(st.cur))),
    "id" => h(|cx, st, _, a| {
      let v = cx.deref_val(st, &a[0])?;
      ret(v)
    }),
    "thread" => h(|_, _, _, a| ret(a[0].clone())),
    "panicking" => h(|_, _, _, _| ret(V::Bool(false))),
    "yield_now" => hs(|cx, st, _, _| {
      cx.preempt(st)?;
      ret(unit())
    }),
    _ => None,
  }
}

fn std_fn_vec_push() -> Option<Handler> {
  h(|cx, st, _, mut a| {
      let x = a.pop().unwrap();
      let n = {
        let s = seq_mut(cx, st, &a[0])?;
        s.push(x);
        s.len()
      };
      if n > 4000 {
        return abort("sequence too long");
      }
      ret(unit())
    })
}
fn cond_wait(cx: &mut Cx, st: &mut State, a: Vec<V>, until: Option<i128>) -> R<Out> {
  let V::Guard(g) = &a[1] else { return abort("condvar guard") };
  let (cp, _) = target(&a[0])?;
  cx.preempt(st)?;
  // a spurious wake-up counts as a preemption
  let spur = st.conc && st.budget > 0 && cx.decide(st, 2)? == 1;
  if spur {
    st.budget -= 1;
  }
  let mp = g.0.clone();
  let guard = a[1].clone();
  cx.release(st, &mp, true)?;
  cx.deliver(st, if until.is_some() { guard } else { ok(guard) })?;
  cx.thread_mut(st).st = Status::Cond { cond: cp, mutex: mp, notified: spur, until };
  Ok(Out::Done)
}

// ------------------------------------------------------------------ sequences
/// functions defined element by element in the client crate: (method, shim, own type parameters, element type parameters)
const GEN: &[(&str, &str, usize, usize)] = &[
  ("resize", "vec_resize", 0, 1),
  ("resize_with", "vec_resize_with", 1, 1),
  ("dedup", "vec_dedup", 0, 1),
  ("sort_by", "slice_sort_by", 1, 1),
  ("sort_unstable_by", "slice_sort_by", 1, 1),
  ("sort_by_key", "slice_sort_by_key", 2, 1),
  ("sort_unstable_by_key", "slice_sort_by_key", 2, 1),
  ("rotate_left", "slice_rotate_left", 0, 1),
  ("rotate_right", "slice_rotate_right", 0, 1),
  ("fill", "slice_fill", 0, 1),
  ("concat", "slice_concat", 0, 1),
  ("starts_with", "slice_starts_with", 0, 1),
];
fn gen_shim(cx: &mut Cx, st: &mut State, c: &Callee, a: Vec<V>) -> R<Out> {
  let m = c.name.rsplit("::").next().unwrap_or("");
  let Some((_, n, k, e)) = GEN.iter().find(|x| x.0 == m) else { return abort("gen shim") };
  let ts = ty_args(c);
  let mut g: Vec<GenericArgKind> = ts[..*e].to_vec();
  if *k == 2 {
    g.extend(ts[ts.len() - 2..].iter().cloned());
  } else if *k == 1 {
    g.push(ts[ts.len() - 1].clone());
  }
  cx.call_shim(st, n, g, a)
}
fn vec_fn(last: &str) -> Option<Handler> {
  match last {
    "new" | "with_capacity" => h(|_, _, _, _| ret(V::Seq(Rc::new(vec![])))),
    "push_mut" => h(|cx, st, _, mut a| {
      let x = a.pop().unwrap();
      let n = {
        let s = seq_mut(cx, st, &a[0])?;
        s.push(x);
        s.len() as u32
      };
      let (p, _) = target(&a[0])?;
      ret(ptr(p.ext(PE::I(n - 1))))
    }),
    "push" => std_fn_vec_push(),
    "pop" => h(|cx, st, _, a| {
      let s = seq_mut(cx, st, &a[0])?;
      ret(match s.pop() {
        Some(v) => some(v),
        None => none(),
      })
    }),
    "into_boxed_slice" => h(|cx, st, c, mut a| {
      let t = ty_arg(c, 0)?;
      let _ = t;
      let label = label_here(cx, st);
      let o = st.heap.alloc(Obj { v: a.pop().unwrap(), ty: None, strong: 1, weak: 0, label });
      ret(V::Box(o, None))
    }),
    "as_slice" | "as_mut_slice" | "as_ptr" | "leak" => h(|_, _, _, a| ret(a[0].clone())),
    "retain" | "retain_mut" => h(|cx, st, c, a| {
      let ts = ty_args(c);
      let f = ts.last().unwrap().clone();
      let t = ts[0].clone();
      let n = if c.name.ends_with("retain_mut") { "vec_retain_mut" } else { "vec_retain" };
      cx.call_shim(st, n, vec![t, f], a)
    }),
    "extend_from_slice" => h(|cx, st, c, a| cx.call_shim(st, "vec_extend_slice", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a)),
    "drain" => h(|cx, st, c, a| {
      let rt = arg_ty(c, 1)?;
      let n = seq(cx, st, &a[0])?.len() as u32;
      let (x, y) = range_of(rt, &a[1], n)?;
      if x > y || y > n {
        return cx.panicked(st, "drain range".into()).map(|_| Out::Done);
      }
      let s = seq_mut(cx, st, &a[0])?;
      let d: Vec<V> = s.drain(x as usize..y as usize).collect();
      ret(V::It(Rc::new(It::Own { v: d })))
    }),
    _ => seq_common(last),
  }
}
fn seq_common(last: &str) -> Option<Handler> {
  match last {
    "len" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      ret(int(cx.seq_len(st, &p, sub)? as i128))
    }),
    "is_empty" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      ret(V::Bool(cx.seq_len(st, &p, sub)? == 0))
    }),
    "clear" => h(|cx, st, _, a| {
      let d = std::mem::take(seq_mut(cx, st, &a[0])?);
      ret_drop(cx, st, unit(), d)
    }),
    "truncate" => h(|cx, st, _, a| {
      let n = cint(&a[1])? as usize;
      let s = seq_mut(cx, st, &a[0])?;
      let d: Vec<V> = if n < s.len() { s.drain(n..).collect() } else { vec![] };
      ret_drop(cx, st, unit(), d)
    }),
    "capacity" => h(|cx, st, _, a| ret(int(seq(cx, st, &a[0])?.len() as i128))),
    "reserve" | "shrink_to_fit" | "reserve_exact" => h(|_, _, _, _| ret(unit())),
    "append" => h(|cx, st, _, a| {
      let d = std::mem::take(seq_mut(cx, st, &a[1])?);
      seq_mut(cx, st, &a[0])?.extend(d);
      ret(unit())
    }),
    "insert" => h(|cx, st, _, a| {
      let i = cint(&a[1])? as usize;
      let x = a[2].clone();
      let s = seq_mut(cx, st, &a[0])?;
      if i > s.len() {
        return cx.panicked(st, "insert index".into()).map(|_| Out::Done);
      }
      s.insert(i, x);
      ret(unit())
    }),
    "remove" => h(|cx, st, c, a| {
      let i = cint(&a[1])? as usize;
      let dq = c.name.contains("VecDeque");
      let s = seq_mut(cx, st, &a[0])?;
      if i >= s.len() {
        if dq {
          return ret(none());
        }
        return cx.panicked(st, "remove index".into()).map(|_| Out::Done);
      }
      let v = s.remove(i);
      ret(if dq { some(v) } else { v })
    }),
    "swap_remove" => h(|cx, st, _, a| {
      let i = cint(&a[1])? as usize;
      let s = seq_mut(cx, st, &a[0])?;
      if i >= s.len() {
        return cx.panicked(st, "swap_remove index".into()).map(|_| Out::Done);
      }
      ret(s.swap_remove(i))
    }),
    "split_off" => h(|cx, st, _, a| {
      let i = cint(&a[1])? as usize;
      let s = seq_mut(cx, st, &a[0])?;
      if i > s.len() {
        return cx.panicked(st, "split_off".into()).map(|_| Out::Done);
      }
      let d = s.split_off(i);
      ret(V::Seq(Rc::new(d)))
    }),
    "pop_front" => h(|cx, st, _, a| {
      let s = seq_mut(cx, st, &a[0])?;
      ret(if s.is_empty() { none() } else { some(s.remove(0)) })
    }),
    "pop_back" => h(|cx, st, _, a| {
      let s = seq_mut(cx, st, &a[0])?;
      ret(match s.pop() {
        Some(v) => some(v),
        None => none(),
      })
    }),
    "push_back" => h(|cx, st, _, mut a| {
      let x = a.pop().unwrap();
      let s = seq_mut(cx, st, &a[0])?;
      s.push(x);
      if s.len() > 4000 {
        return abort("sequence too long");
      }
      ret(unit())
    }),
    "push_front" => h(|cx, st, _, mut a| {
      let x = a.pop().unwrap();
      seq_mut(cx, st, &a[0])?.insert(0, x);
      ret(unit())
    }),
    _ => slice_fn(last),
  }
}
fn deque_fn(last: &str) -> Option<Handler> {
  match last {
    "new" | "with_capacity" => h(|_, _, _, _| ret(V::Seq(Rc::new(vec![])))),
    "front" => slice_fn("first"),
    "back" => slice_fn("last"),
    "front_mut" => slice_fn("first_mut"),
    "back_mut" => slice_fn("last_mut"),
    "drain" => vec_fn("drain"),
    "retain" | "retain_mut" => vec_fn(last),
    "make_contiguous" => h(|_, _, _, a| ret(a[0].clone())),
    _ => seq_common(last),
  }
}
fn slice_fn(last: &str) -> Option<Handler> {
  match last {
    "iter" | "iter_mut" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      let n = cx.seq_len(st, &p, sub)?;
      let b = sub.map_or(0, |s| s.0);
      ret(V::It(Rc::new(It::Ref { p, i: b, end: b + n })))
    }),
    "len" | "is_empty" => seq_common2(last),
    "first" | "first_mut" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      let n = cx.seq_len(st, &p, sub)?;
      let b = sub.map_or(0, |s| s.0);
      ret(if n == 0 { none() } else { some(arr_ptr(&p, b)) })
    }),
    "last" | "last_mut" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      let n = cx.seq_len(st, &p, sub)?;
      let b = sub.map_or(0, |s| s.0);
      ret(if n == 0 { none() } else { some(arr_ptr(&p, b + n - 1)) })
    }),
    "get" | "get_mut" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      let n = cx.seq_len(st, &p, sub)?;
      let b = sub.map_or(0, |s| s.0);
      let i = match &a[1] {
        V::Int(_) => cint(&a[1])? as u32,
        _ => return abort("slice get range"),
      };
      ret(if i < n { some(arr_ptr(&p, b + i)) } else { none() })
    }),
    "swap" => h(|cx, st, _, a| {
      let (i, j) = (cint(&a[1])? as usize, cint(&a[2])? as usize);
      let s = seq_mut(cx, st, &a[0])?;
      if i >= s.len() || j >= s.len() {
        return cx.panicked(st, "swap index".into()).map(|_| Out::Done);
      }
      s.swap(i, j);
      ret(unit())
    }),
    "reverse" => h(|cx, st, _, a| {
      seq_mut(cx, st, &a[0])?.reverse();
      ret(unit())
    }),
    "to_vec" | "into_vec" => h(|cx, st, c, a| {
      cx.call_shim(st, "slice_to_vec", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a)
    }),
    "contains" => h(|cx, st, c, a| {
      cx.call_shim(st, "slice_contains", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a)
    }),
    "sort" | "sort_unstable" => h(|cx, st, c, a| {
      cx.call_shim(st, "slice_sort", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a)
    }),
    "as_slice" | "as_mut_slice" => h(|_, _, _, a| ret(a[0].clone())),
    "split_first" | "split_last" => h(|cx, st, c, a| {
      let (p, sub) = target(&a[0])?;
      let n = cx.seq_len(st, &p, sub)?;
      let b = sub.map_or(0, |s| s.0);
      if n == 0 {
        return ret(none());
      }
      let (i, s) = if c.name.ends_with("split_first") { (b, (b + 1, b + n)) } else { (b + n - 1, (b, b + n - 1)) };
      ret(some(tup(vec![
        arr_ptr(&p, i),
        V::Ptr(Rc::new(PtrV { p: p.clone(), dynty: None, sub: Some(s) })),
      ])))
    }),
    "split_at" | "split_at_mut" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      let n = cx.seq_len(st, &p, sub)?;
      let b = sub.map_or(0, |s| s.0);
      let k = cint(&a[1])? as u32;
      if k > n {
        return cx.panicked(st, "split_at".into()).map(|_| Out::Done);
      }
      let f = |s| V::Ptr(Rc::new(PtrV { p: p.clone(), dynty: None, sub: Some(s) }));
      ret(tup(vec![f((b, b + k)), f((b + k, b + n))]))
    }),
    _ if GEN.iter().any(|x| x.0 == last) => h(gen_shim),
    _ => None,
  }
}
fn seq_common2(last: &str) -> Option<Handler> {
  match last {
    "len" => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      ret(int(cx.seq_len(st, &p, sub)? as i128))
    }),
    _ => h(|cx, st, _, a| {
      let (p, sub) = target(&a[0])?;
      ret(V::Bool(cx.seq_len(st, &p, sub)? == 0))
    }),
  }
}
fn index_fn() -> Option<Handler> {
  h(|cx, st, c, a| {
    let (p, sub) = target(&a[0])?;
    let n = cx.seq_len(st, &p, sub)?;
    let b = sub.map_or(0, |s| s.0);
    match &a[1] {
      V::Int(_) => {
        let i = cint(&a[1])?;
        if i < 0 || i >= n as i128 {
          return cx.panicked(st, "index out of bounds".into()).map(|_| Out::Done);
        }
        ret(arr_ptr(&p, b + i as u32))
      }
      v => {
        let t = arg_ty(c, 1)?;
        let (x, y) = range_of(t, v, n)?;
        if x > y || y > n {
          return cx.panicked(st, "range out of bounds".into()).map(|_| Out::Done);
        }
        ret(V::Ptr(Rc::new(PtrV { p, dynty: None, sub: Some((b + x, b + y)) })))
      }
    }
  })
}

// ------------------------------------------------------------------ maps
fn map_insert(cx: &mut Cx, st: &mut State, m: &V, k: V, v: V, hash: bool) -> R<Option<V>> {
  if let Some(i) = map_find(cx, st, m, &k)? {
    let s = map_mut(cx, st, m)?;
    let old = std::mem::replace(&mut s[i as usize].1, v);
    return Ok(Some(old));
  }
  let n = map(cx, st, m)?.len();
  let mut pos = n;
  if !hash {
    for i in 0..n {
      let x = map(cx, st, m)?[i].0.clone();
      let o = match (&x, &k) {
        (V::Int(x), V::Int(y)) => cx.cmp_lin(st, *x, *y)?,
        (V::Tok(x), V::Tok(y)) => cx.tok_cmp(st, *x, *y)?,
        _ => return abort("ordered map key"),
      };
      if o == Ordering::Greater {
        pos = i;
        break;
      }
    }
  }
  map_mut(cx, st, m)?.insert(pos, (k, v));
  Ok(None)
}
fn map_fn(last: &str, hash: bool) -> Option<Handler> {
  match last {
    "new" | "with_capacity" | "with_hasher" | "with_capacity_and_hasher" => h(|_, _, _, _| ret(V::Map(Rc::new(vec![])))),
    "insert" => {
      if hash {
        hs(|cx, st, _, mut a| {
          let v = a.pop().unwrap();
          let k = a.pop().unwrap();
          ret(match map_insert(cx, st, &a[0], k, v, true)? {
            Some(o) => some(o),
            None => none(),
          })
        })
      } else {
        hs(|cx, st, _, mut a| {
          let v = a.pop().unwrap();
          let k = a.pop().unwrap();
          ret(match map_insert(cx, st, &a[0], k, v, false)? {
            Some(o) => some(o),
            None => none(),
          })
        })
      }
    }
    "remove" => hs(|cx, st, _, a| match map_find(cx, st, &a[0], &a[1])? {
      Some(i) => {
        let (k, v) = map_mut(cx, st, &a[0])?.remove(i as usize);
        ret_drop(cx, st, some(v), vec![k])
      }
      None => ret(none()),
    }),
    "remove_entry" => hs(|cx, st, _, a| match map_find(cx, st, &a[0], &a[1])? {
      Some(i) => {
        let (k, v) = map_mut(cx, st, &a[0])?.remove(i as usize);
        ret(some(tup(vec![k, v])))
      }
      None => ret(none()),
    }),
    "get" | "get_mut" => hs(|cx, st, _, a| match map_find(cx, st, &a[0], &a[1])? {
      Some(i) => {
        let (p, _) = target(&a[0])?;
        ret(some(ptr(p.ext(PE::I(2 * i + 1)))))
      }
      None => ret(none()),
    }),
    "contains_key" => hs(|cx, st, _, a| {
      let r = map_find(cx, st, &a[0], &a[1])?.is_some();
      ret(V::Bool(r))
    }),
    "len" => h(|cx, st, _, a| ret(int(map(cx, st, &a[0])?.len() as i128))),
    "is_empty" => h(|cx, st, _, a| ret(V::Bool(map(cx, st, &a[0])?.is_empty()))),
    "clear" => h(|cx, st, _, a| {
      let d = std::mem::take(map_mut(cx, st, &a[0])?);
      let xs = d.into_iter().flat_map(|(k, v)| [k, v]).collect();
      ret_drop(cx, st, unit(), xs)
    }),
    "reserve" | "shrink_to_fit" => h(|_, _, _, _| ret(unit())),
    "iter" | "iter_mut" | "keys" | "values" | "values_mut" => {
      if hash {
        hs(|cx, st, c, a| map_iter(cx, st, c, a, true))
      } else {
        h(|cx, st, c, a| map_iter(cx, st, c, a, false))
      }
    }
    "drain" | "into_values" | "into_keys" => hs(|cx, st, c, a| {
      let hash = c.name.contains("HashMap");
      let mut d = if c.name.ends_with("drain") {
        let n = map(cx, st, &a[0])?.len() as u32;
        let r = rev_order(cx, st, n, hash)?;
        let mut d = std::mem::take(map_mut(cx, st, &a[0])?);
        if r {
          d.reverse();
        }
        d
      } else {
        let V::Map(m) = &a[0] else { return abort("map by value") };
        let r = rev_order(cx, st, m.len() as u32, hash)?;
        let mut d = (**m).clone();
        if r {
          d.reverse();
        }
        d
      };
      let kind = if c.name.ends_with("drain") {
        0
      } else if c.name.ends_with("into_keys") {
        1
      } else {
        2
      };
      d.reverse();
      d.reverse();
      ret(V::It(Rc::new(It::MapOwn { v: d, kind })))
    }),
    "retain" => h(|cx, st, c, a| {
      let ts = ty_args(c);
      let f = ts.last().unwrap().clone();
      let s = if c.name.contains("BTreeMap") { "bmap_retain" } else { "map_retain" };
      cx.call_shim(st, s, vec![ts[0].clone(), ts[1].clone(), f], a)
    }),
    "entry" => hs(|cx, st, _, a| {
      let (p, _) = target(&a[0])?;
      let r = map_find(cx, st, &a[0], &a[1])?;
      ret(match r {
        Some(i) => en(0, vec![tup(vec![ptr(p.ext(PE::I(2 * i + 1))), a[1].clone()])]),
        None => en(1, vec![tup(vec![a[0].clone(), a[1].clone()])]),
      })
    }),
    "first_key_value" | "last_key_value" => h(|cx, st, c, a| {
      let (p, _) = target(&a[0])?;
      let n = map(cx, st, &a[0])?.len() as u32;
      if n == 0 {
        return ret(none());
      }
      let i = if c.name.ends_with("first_key_value") { 0 } else { n - 1 };
      ret(some(tup(vec![ptr(p.ext(PE::I(2 * i))), ptr(p.ext(PE::I(2 * i + 1)))])))
    }),
    "get_key_value" => hs(|cx, st, _, a| match map_find(cx, st, &a[0], &a[1])? {
      Some(i) => {
        let (p, _) = target(&a[0])?;
        ret(some(tup(vec![ptr(p.ext(PE::I(2 * i))), ptr(p.ext(PE::I(2 * i + 1)))])))
      }
      None => ret(none()),
    }),
    "append" => hs(|cx, st, _, a| {
      let d = std::mem::take(map_mut(cx, st, &a[1])?);
      let mut old = vec![];
      for (k, v) in d {
        if let Some(o) = map_insert(cx, st, &a[0], k, v, false)? {
          old.push(o);
        }
      }
      ret_drop(cx, st, unit(), old)
    }),
    "pop_first" | "pop_last" => h(|cx, st, c, a| {
      let l = c.name.ends_with("pop_last");
      let s = map_mut(cx, st, &a[0])?;
      ret(if s.is_empty() {
        none()
      } else {
        let (k, v) = s.remove(if l { s.len() - 1 } else { 0 });
        some(tup(vec![k, v]))
      })
    }),
    _ => None,
  }
}
fn map_iter(cx: &mut Cx, st: &mut State, c: &Callee, a: Vec<V>, hash: bool) -> R<Out> {
  let (p, _) = target(&a[0])?;
  let n = map(cx, st, &a[0])?.len() as u32;
  let rev = rev_order(cx, st, n, hash)?;
  let kind = match c.name.rsplit("::").next().unwrap_or("") {
    "keys" => 1,
    "values" | "values_mut" => 2,
    _ => 0,
  };
  ret(V::It(Rc::new(It::MapRef { p, i: 0, end: n, kind, rev })))
}
fn en_parts(v: &V) -> R<(u32, V, V)> {
  if let V::Adt(e) = v {
    if let Some(V::Adt(x)) = e.f.first() {
      if x.f.len() == 2 {
        return Ok((e.var, x.f[0].clone(), x.f[1].clone()));
      }
    }
  }
  abort("entry")
}
fn entry_fn(last: &str) -> Option<Handler> {
  match last {
    "or_insert" | "insert_entry" => hs(|cx, st, c, mut a| {
      let v = a.pop().unwrap();
      entry_put(cx, st, c, a.pop().unwrap(), v)
    }),
    "or_insert_with" => h(|cx, st, c, a| {
      let (var, x, k) = en_parts(&a[0])?;
      if var == 0 {
        return ret_drop(cx, st, x, vec![a[1].clone(), k]);
      }
      let ts = ty_args(c);
      let f = ts.last().unwrap().clone();
      let (k, v) = (ts[0].clone(), ts[1].clone());
      let s = if c.name.contains("btree") { "bentry_or_insert_with" } else { "entry_or_insert_with" };
      cx.call_shim(st, s, vec![k, v, f], a)
    }),
    "or_default" => h(|cx, st, c, a| {
      let (var, x, k) = en_parts(&a[0])?;
      if var == 0 {
        return ret_drop(cx, st, x, vec![k]);
      }
      let ts = ty_args(c);
      let s = if c.name.contains("btree") { "bentry_or_default" } else { "entry_or_default" };
      cx.call_shim(st, s, vec![ts[0].clone(), ts[1].clone()], a)
    }),
    "and_modify" => h(|cx, st, c, a| {
      let ts = ty_args(c);
      let f = ts.last().unwrap().clone();
      let s = if c.name.contains("btree") { "bentry_and_modify" } else { "entry_and_modify" };
      cx.call_shim(st, s, vec![ts[0].clone(), ts[1].clone(), f], a)
    }),
    "key" => h(|_, _, _, a| {
      let (p, _) = target(&a[0])?;
      ret(ptr(p.ext(PE::F(0)).ext(PE::F(1))))
    }),
    _ => None,
  }
}
/// OccupiedEntry = (pointer to the value, key given); VacantEntry = (pointer to the map, key)
fn entry_kind_fn(last: &str, occ: bool) -> Option<Handler> {
  match (last, occ) {
    ("key", _) => h(|_, _, _, a| ret(ptr(target(&a[0])?.0.ext(PE::F(1))))),
    ("get", true) | ("get_mut", true) => h(|cx, st, _, a| {
      let (p, _) = target(&a[0])?;
      let v = cx.read(st, &p.ext(PE::F(0)))?.clone();
      ret(v)
    }),
    ("into_mut", true) => h(|cx, st, _, a| match &a[0] {
      V::Adt(e) => ret_drop(cx, st, e.f[0].clone(), vec![e.f[1].clone()]),
      _ => abort("entry"),
    }),
    ("insert", true) => h(|cx, st, _, mut a| {
      let v = a.pop().unwrap();
      let (p, _) = target(&a[0])?;
      let q = cx.read(st, &p.ext(PE::F(0)))?.clone();
      let (q, _) = target(&q)?;
      let o = std::mem::replace(cx.lval(st, &q)?, v);
      ret(o)
    }),
    ("remove", true) | ("remove_entry", true) => h(|cx, st, c, a| {
      let V::Adt(e) = &a[0] else { return abort("entry") };
      let (mut q, _) = target(&e.f[0])?;
      let Some(PE::I(i)) = q.path.pop() else { return abort("entry path") };
      let (k, v) = match cx.lval(st, &q)? {
        V::Map(m) => Rc::make_mut(m).remove((i / 2) as usize),
        _ => return abort("entry map"),
      };
      if c.name.ends_with("remove_entry") {
        ret_drop(cx, st, tup(vec![k, v]), vec![e.f[1].clone()])
      } else {
        ret_drop(cx, st, v, vec![k, e.f[1].clone()])
      }
    }),
    ("into_key", false) => h(|_, _, _, a| match &a[0] {
      V::Adt(e) => ret(e.f[1].clone()),
      _ => abort("entry"),
    }),
    ("insert", false) => hs(|cx, st, c, mut a| {
      let v = a.pop().unwrap();
      let e = en(1, vec![a.pop().unwrap()]);
      entry_put(cx, st, c, e, v)
    }),
    _ => None,
  }
}
fn entry_put(cx: &mut Cx, st: &mut State, c: &Callee, e: V, v: V) -> R<Out> {
  let (var, x, k) = en_parts(&e)?;
  if var == 0 {
    return ret_drop(cx, st, x, vec![v, k]);
  }
  let hash = !c.name.contains("btree");
  map_insert(cx, st, &x, k.clone(), v, hash)?;
  let i = map_find(cx, st, &x, &k)?.unwrap();
  let (p, _) = target(&x)?;
  ret(ptr(p.ext(PE::I(2 * i + 1))))
}
fn set_fn(last: &str, hash: bool) -> Option<Handler> {
  match last {
    "new" | "with_capacity" => h(|_, _, _, _| ret(V::Map(Rc::new(vec![])))),
    "insert" => {
      if hash {
        hs(|cx, st, _, mut a| {
          let k = a.pop().unwrap();
          let r = map_insert(cx, st, &a[0], k, unit(), true)?;
          ret(V::Bool(r.is_none()))
        })
      } else {
        hs(|cx, st, _, mut a| {
          let k = a.pop().unwrap();
          let r = map_insert(cx, st, &a[0], k, unit(), false)?;
          ret(V::Bool(r.is_none()))
        })
      }
    }
    "remove" => hs(|cx, st, _, a| match map_find(cx, st, &a[0], &a[1])? {
      Some(i) => {
        let (k, _) = map_mut(cx, st, &a[0])?.remove(i as usize);
        ret_drop(cx, st, V::Bool(true), vec![k])
      }
      None => ret(V::Bool(false)),
    }),
    "contains" => map_fn("contains_key", hash),
    "take" => hs(|cx, st, _, a| match map_find(cx, st, &a[0], &a[1])? {
      Some(i) => ret(some(map_mut(cx, st, &a[0])?.remove(i as usize).0)),
      None => ret(none()),
    }),
    "reserve" | "shrink_to_fit" => map_fn(last, hash),
    "first" | "last" => h(|cx, st, c, a| {
      let (p, _) = target(&a[0])?;
      let n = map(cx, st, &a[0])?.len() as u32;
      if n == 0 {
        return ret(none());
      }
      ret(some(ptr(p.ext(PE::I(2 * if c.name.ends_with("first") { 0 } else { n - 1 })))))
    }),
    "pop_first" | "pop_last" => h(|cx, st, c, a| {
      let l = c.name.ends_with("pop_last");
      let s = map_mut(cx, st, &a[0])?;
      ret(if s.is_empty() { none() } else { some(s.remove(if l { s.len() - 1 } else { 0 }).0) })
    }),
    "drain" => hs(|cx, st, c, a| {
      let hash = c.name.contains("HashSet");
      let n = map(cx, st, &a[0])?.len() as u32;
      let r = rev_order(cx, st, n, hash)?;
      let mut d = std::mem::take(map_mut(cx, st, &a[0])?);
      if r {
        d.reverse();
      }
      ret(V::It(Rc::new(It::MapOwn { v: d, kind: 1 })))
    }),
    "retain" => h(|cx, st, c, a| {
      let ts = ty_args(c);
      let f = ts.last().unwrap().clone();
      let s = if c.name.contains("HashSet") { "set_retain" } else { "bset_retain" };
      cx.call_shim(st, s, vec![ts[0].clone(), f], a)
    }),
    "len" | "is_empty" | "clear" => map_fn(last, hash),
    "iter" => hs(|cx, st, c, a| {
      let hash = c.name.contains("HashSet");
      let (p, _) = target(&a[0])?;
      let n = map(cx, st, &a[0])?.len() as u32;
      let rev = rev_order(cx, st, n, hash)?;
      ret(V::It(Rc::new(It::MapRef { p, i: 0, end: n, kind: 1, rev })))
    }),
    _ => None,
  }
}

// ------------------------------------------------------------------ iterators
fn it_next(cx: &mut Cx, st: &mut State, _c: &Callee, a: Vec<V>) -> R<Out> {
  let (p, _) = target(&a[0])?;
  match cx.lval(st, &p)? {
    V::It(it) => ret(match Rc::make_mut(it) {
      It::Ref { p, i, end } => {
        if *i < *end {
          let r = arr_ptr(p, *i);
          *i += 1;
          some(r)
        } else {
          none()
        }
      }
      It::Own { v } => {
        if v.is_empty() {
          none()
        } else {
          some(v.remove(0))
        }
      }
      It::MapRef { p, i, end, kind, rev } => {
        if *i < *end {
          let j = if *rev { *end - 1 } else { *i };
          if *rev {
            *end -= 1;
          } else {
            *i += 1;
          }
          let k = ptr(p.ext(PE::I(2 * j)));
          let v = ptr(p.ext(PE::I(2 * j + 1)));
          some(match kind {
            0 => tup(vec![k, v]),
            1 => k,
            _ => v,
          })
        } else {
          none()
        }
      }
      It::MapOwn { v, kind } => {
        if v.is_empty() {
          none()
        } else {
          let (k, x) = v.remove(0);
          match kind {
            0 => some(tup(vec![k, x])),
            1 => {
              if droppable(&x) {
                return ret_drop(cx, st, some(k), vec![x]);
              }
              some(k)
            }
            _ => {
              if droppable(&k) {
                return ret_drop(cx, st, some(x), vec![k]);
              }
              some(x)
            }
          }
        }
      }
    }),
    v => abort(format!("next on {:?}", v)),
  }
}
fn it_next_back(cx: &mut Cx, st: &mut State, _c: &Callee, a: Vec<V>) -> R<Out> {
  let (p, _) = target(&a[0])?;
  match cx.lval(st, &p)? {
    V::It(it) => ret(match Rc::make_mut(it) {
      It::Ref { p, i, end } => {
        if *i < *end {
          *end -= 1;
          some(arr_ptr(p, *end))
        } else {
          none()
        }
      }
      It::Own { v } => match v.pop() {
        Some(x) => some(x),
        None => none(),
      },
      _ => return abort("next_back on map"),
    }),
    v => abort(format!("next_back on {:?}", v)),
  }
}
fn it_len(cx: &Cx, st: &State, v: &V) -> R<u32> {
  match cx.deref_val(st, v)? {
    V::It(it) => Ok(match &*it {
      It::Ref { i, end, .. } | It::MapRef { i, end, .. } => end - i,
      It::Own { v } => v.len() as u32,
      It::MapOwn { v, .. } => v.len() as u32,
    }),
    v => abort(format!("len of iterator {:?}", v)),
  }
}
fn range_next() -> Option<Handler> {
  hs(|cx, st, c, a| {
    let (p, _) = target(&a[0])?;
    let V::Adt(r) = cx.read(st, &p)?.clone() else { return abort("range") };
    let incl = r.f.len() == 3;
    let s = clin(&r.f[0])?;
    if r.f.len() == 1 {
      cx.write(st, &p.ext(PE::F(0)), V::Int(Lin { sym: s.sym, off: s.off + 1 }))?;
      return ret(some(V::Int(s)));
    }
    let _ = c;
    let e = clin(&r.f[1])?;
    if incl {
      let V::Bool(x) = r.f[2] else { return abort("range") };
      if x {
        return ret(none());
      }
    }
    match cx.cmp_lin(st, s, e)? {
      Ordering::Less => {
        cx.write(st, &p.ext(PE::F(0)), V::Int(Lin { sym: s.sym, off: s.off + 1 }))?;
        ret(some(V::Int(s)))
      }
      Ordering::Equal if incl => {
        cx.write(st, &p.ext(PE::F(2)), V::Bool(true))?;
        ret(some(V::Int(s)))
      }
      _ => ret(none()),
    }
  })
}
/// an Iterator method other than `next` on a natively modelled iterator: run the client-crate shim
fn iter_shim(m: &str) -> Option<Handler> {
  // number of the method's own generic parameters
  let k = match m {
    "fold" | "rfold" => 2,
    "for_each" | "all" | "any" | "find" | "position" | "reduce" | "max_by_key" | "min_by_key" => 1,
    "find_map" => 2,
    "nth" | "count" | "last" | "advance_by" => 0,
    "try_fold" => 3,
    "size_hint" => {
      return h(|cx, st, _, a| {
        let n = it_len(cx, st, &a[0])? as i128;
        ret(tup(vec![int(n), some(int(n))]))
      })
    }
    _ => return None,
  };
  Some(Handler {
    snap: false,
    f: match k {
      0 => |cx, st, c, a| iter_shim_call(cx, st, c, a, 0),
      1 => |cx, st, c, a| iter_shim_call(cx, st, c, a, 1),
      2 => |cx, st, c, a| iter_shim_call(cx, st, c, a, 2),
      _ => |cx, st, c, a| iter_shim_call(cx, st, c, a, 3),
    },
  })
}
fn iter_shim_call(cx: &mut Cx, st: &mut State, c: &Callee, a: Vec<V>, k: usize) -> R<Out> {
  let Some(mut t) = self_ty(c) else { return abort("iterator self type") };
  if let TyKind::RigidTy(RigidTy::Ref(_, i, _)) = t.kind() {
    t = i;
  }
  let ts = ty_args(c);
  let mut g = vec![GenericArgKind::Type(t)];
  g.extend(ts[ts.len() - k..].iter().cloned());
  let m = c.name.rsplit("::").next().unwrap_or("").to_string();
  cx.call_shim(st, &format!("it_{}", m), g, a)
}

fn dur_fn(last: &str) -> Option<Handler> {
  const M: i128 = 1_000_000;
  match last {
    "from_secs" => h(|_, _, _, a| ret(int(cint(&a[0])? * 1000 * M))),
    "from_millis" => h(|_, _, _, a| ret(int(cint(&a[0])? * M))),
    "from_micros" => h(|_, _, _, a| ret(int(cint(&a[0])? * 1000))),
    "from_nanos" => h(|_, _, _, a| ret(int(cint(&a[0])?))),
    "new" => h(|_, _, _, a| ret(int(cint(&a[0])? * 1000 * M + cint(&a[1])?))),
    "as_secs" => h(|cx, st, _, a| ret(int(cint(&cx.deref_val(st, &a[0])?)? / (1000 * M)))),
    "as_millis" => h(|cx, st, _, a| ret(int(cint(&cx.deref_val(st, &a[0])?)? / M))),
    "as_micros" => h(|cx, st, _, a| ret(int(cint(&cx.deref_val(st, &a[0])?)? / 1000))),
    "as_nanos" => h(|cx, st, _, a| ret(int(cint(&cx.deref_val(st, &a[0])?)?))),
    "subsec_nanos" => h(|cx, st, _, a| ret(int(cint(&cx.deref_val(st, &a[0])?)? % (1000 * M)))),
    "is_zero" => h(|cx, st, _, a| ret(V::Bool(cint(&cx.deref_val(st, &a[0])?)? == 0))),
    "saturating_sub" => h(|_, _, _, a| ret(int((cint(&a[0])? - cint(&a[1])?).max(0)))),
    "saturating_add" => h(|_, _, _, a| ret(int(cint(&a[0])? + cint(&a[1])?))),
    "checked_sub" => h(|_, _, _, a| {
      let x = cint(&a[0])? - cint(&a[1])?;
      ret(if x < 0 { none() } else { some(int(x)) })
    }),
    "checked_add" => h(|_, _, _, a| ret(some(int(cint(&a[0])? + cint(&a[1])?)))),
    "subsec_millis" => h(|cx, st, _, a| ret(int(cint(&cx.deref_val(st, &a[0])?)? / M % 1000))),
    "subsec_micros" => h(|cx, st, _, a| ret(int(cint(&cx.deref_val(st, &a[0])?)? / 1000 % M))),
    "from_mins" => h(|_, _, _, a| ret(int(cint(&a[0])? * 60_000 * M))),
    "from_hours" => h(|_, _, _, a| ret(int(cint(&a[0])? * 3_600_000 * M))),
    "abs_diff" => h(|_, _, _, a| ret(int((cint(&a[0])? - cint(&a[1])?).abs()))),
    "checked_mul" => h(|_, _, _, a| ret(some(int(cint(&a[0])? * cint(&a[1])?)))),
    "saturating_mul" => h(|_, _, _, a| ret(int(cint(&a[0])? * cint(&a[1])?))),
    "checked_div" => h(|_, _, _, a| {
      let y = cint(&a[1])?;
      ret(if y == 0 { none() } else { some(int(cint(&a[0])? / y)) })
    }),
    "div_duration_floor" => h(|_, _, _, a| ret(int(cint(&a[0])? / cint(&a[1])?.max(1)))),
    _ => h(|_, _, c, _| abort(format!("no model for {}", c.name))),
  }
}
fn once_cell_fn(last: &str) -> Option<Handler> {
  fn filled(cx: &Cx, st: &State, p: &V) -> R<bool> {
    match cx.deref_val(st, p)? {
      V::Adt(a) => Ok(a.var == 1),
      _ => abort("once cell"),
    }
  }
  match last {
    "new" => h(|_, _, _, _| ret(none())),
    "get" | "get_mut" => hs(|cx, st, c, a| {
      if c.name.contains("Lock") {
        cx.preempt(st)?;
      }
      let (p, _) = target(&a[0])?;
      ret(if filled(cx, st, &a[0])? { some(ptr(p.ext(PE::F(0)))) } else { none() })
    }),
    "set" => hs(|cx, st, c, a| {
      if c.name.contains("Lock") {
        cx.preempt(st)?;
      }
      if filled(cx, st, &a[0])? {
        return ret(en(1, vec![a[1].clone()]));
      }
      let (p, _) = target(&a[0])?;
      cx.write(st, &p, some(a[1].clone()))?;
      ret(ok(unit()))
    }),
    "take" => hs(|cx, st, _, a| {
      let (p, _) = target(&a[0])?;
      let old = std::mem::replace(cx.lval(st, &p)?, none());
      ret(old)
    }),
    "into_inner" => h(|_, _, _, mut a| ret(a.pop().unwrap())),
    "get_or_init" => h(|cx, st, c, a| {
      let ts = ty_args(c);
      let n = if c.name.contains("Lock") { "once_lock_init" } else { "once_cell_init" };
      cx.call_shim(st, n, ts, a)
    }),
    _ => h(|_, _, c, _| abort(format!("no model for {}", c.name))),
  }
}
fn num_fn(last: &str) -> Option<Handler> {
  match last {
    "wrapping_add" | "wrapping_sub" | "saturating_add" | "saturating_sub" | "checked_add" | "checked_sub"
    | "checked_mul" | "wrapping_mul" | "saturating_mul" | "overflowing_add" | "overflowing_sub" | "unchecked_add"
    | "unchecked_sub" | "abs_diff" | "pow" | "checked_rem" | "checked_div" | "rem_euclid" | "div_euclid"
    | "is_multiple_of" => h(|cx, st, c, a| {
      let t = arg_ty(c, 0)?;
      let (x, y) = (cint(&a[0])?, cint(&a[1])?);
      let m = c.name.rsplit("::").next().unwrap_or("");
      if m == "abs_diff" {
        return ret(int((x - y).abs()));
      }
      if (m.contains("rem") || m.contains("div")) && y == 0 {
        return if m.starts_with("checked") {
          ret(none())
        } else {
          cx.panicked(st, "division by zero".into()).map(|_| Out::Done)
        };
      }
      if m == "is_multiple_of" {
        return ret(V::Bool(if y == 0 { x == 0 } else { x % y == 0 }));
      }
      if m == "rem_euclid" {
        return ret(int(x.rem_euclid(y)));
      }
      if m == "div_euclid" {
        return ret(int(x.div_euclid(y)));
      }
      if m == "checked_rem" {
        return ret(some(int(x % y)));
      }
      if m == "checked_div" {
        return ret(some(int(x / y)));
      }
      if m == "pow" {
        let r = x.pow(y as u32);
        let (w, o) = cx.wrap(r, t);
        if o {
          return cx.panicked(st, "pow overflow".into()).map(|_| Out::Done);
        }
        return ret(int(w));
      }
      let r = if m.ends_with("add") {
        x + y
      } else if m.ends_with("sub") {
        x - y
      } else {
        x * y
      };
      let (w, o) = cx.wrap(r, t);
      if m.starts_with("checked") {
        ret(if o { none() } else { some(int(w)) })
      } else if m.starts_with("saturating") {
        if !o {
          return ret(int(w));
        }
        let (bits, signed) = int_bits(t);
        let (lo, hi) =
          if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
        ret(int(if r < lo { lo } else { hi }))
      } else if m.starts_with("overflowing") {
        ret(tup(vec![int(w), V::Bool(o)]))
      } else {
        ret(int(w))
      }
    }),
    "unwrapping" => None,
    _ => None,
  }
}

// ------------------------------------------------------------------ trait impls of std types
fn is_seq(b: &str) -> bool {
  matches!(b, "std::vec::Vec" | "std::collections::VecDeque" | "std::collections::vec_deque::VecDeque")
}
fn is_map(b: &str) -> bool {
  matches!(b, "std::collections::HashMap" | "std::collections::BTreeMap" | "std::collections::hash_map::HashMap")
}
fn is_set(b: &str) -> bool {
  matches!(b, "std::collections::HashSet" | "std::collections::BTreeSet")
}
fn impl_fn(b: &str, full: &str, tr: &str, m: &str, name: &str) -> Option<Handler> {
  let trb = base_name(tr);
  match trb {
    "std::clone::Clone" if m == "clone" => match b {
      "std::sync::Arc" | "std::rc::Rc" => {
        return h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
          V::Arc(o) => {
            match st.heap.get_mut(o) {
              Some(ob) => ob.strong += 1,
              None => return abort("clone of dead arc"),
            }
            ret(V::Arc(o))
          }
          v => abort(format!("arc clone {:?}", v)),
        })
      }
      "std::sync::Weak" | "std::rc::Weak" => {
        return h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
          V::Weak(o) => {
            if let Some(ob) = st.heap.get_mut(o) {
              ob.weak += 1;
            }
            ret(V::Weak(o))
          }
          _ => abort("weak clone"),
        })
      }
      "std::vec::Vec" => {
        return h(|cx, st, c, a| cx.call_shim(st, "vec_clone", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a))
      }
      "std::collections::VecDeque" => {
        return h(|cx, st, c, a| cx.call_shim(st, "deque_clone", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a))
      }
      "std::collections::HashMap" => {
        return h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "hmap_clone", vec![t[0].clone(), t[1].clone()], a)
        })
      }
      "std::collections::BTreeMap" => {
        return h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "bmap_clone", vec![t[0].clone(), t[1].clone()], a)
        })
      }
      "std::slice::Iter" => {
        return h(|cx, st, _, a| {
          let v = cx.deref_val(st, &a[0])?;
          ret(v)
        })
      }
      "std::vec::IntoIter" | "std::array::IntoIter" | "std::collections::vec_deque::IntoIter" => {
        // clone element by element
        return h(|cx, st, c, a| {
          let t = ty_arg(c, 0)?;
          let (p, _) = target(&a[0])?;
          let V::It(it) = cx.read(st, &p)?.clone() else { return abort("into_iter clone") };
          let It::Own { v } = &*it else { return abort("into_iter clone") };
          // expose the remaining elements as a sequence the shim can clone
          let o = st.heap.alloc(Obj { v: V::Seq(Rc::new(v.clone())), ty: None, strong: 1, weak: 0, label: 0 });
          // the temporary borrows the elements: it is freed without running drops
          let r = cx.call_shim(st, "seq_clone_it", vec![GenericArgKind::Type(t)], vec![ptr(Ptr::obj(o))]);
          r
        });
      }
      "std::task::Waker" => {
        return h(|cx, st, _, a| {
          let v = cx.deref_val(st, &a[0])?;
          if let V::Adt(x) = &v {
            if let V::Arc(o) = x.f[0] {
              st.heap.get_mut(o).unwrap().strong += 1;
            }
          }
          ret(v)
        })
      }
      "std::thread::Thread" | "std::any::TypeId" | "std::time::Duration" | "std::time::Instant"
      | "std::time::SystemTime" | "std::thread::ThreadId" => {
        return h(|cx, st, _, a| {
          let v = cx.deref_val(st, &a[0])?;
          ret(v)
        })
      }
      "std::string::String" => return h(|_, _, _, _| ret(V::Opaque(0))),
      _ => {}
    },
    "std::ops::Deref" | "std::ops::DerefMut" => match b {
      "std::sync::Arc" | "std::rc::Rc" => {
        return h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
          V::Arc(o) => {
            let t = st.heap.get(o).and_then(|x| x.ty);
            ret(V::Ptr(Rc::new(PtrV { p: Ptr::obj(o), dynty: t.and_then(|t| no_dyn(V::Uninit, t)), sub: None })))
          }
          v => abort(format!("arc deref {:?}", v)),
        })
      }
      "std::sync::RwLockReadGuard" | "std::sync::RwLockWriteGuard" | "std::sync::MutexGuard" => {
        return h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
          V::Guard(g) => ret(ptr(g.0.ext(PE::L))),
          v => abort(format!("guard deref {:?}", v)),
        })
      }
      "std::vec::Vec" => return h(|_, _, _, a| ret(a[0].clone())),
      "std::boxed::Box" => {
        return h(|cx, st, _, a| match cx.deref_val(st, &a[0])? {
          V::Box(o, t) => ret(V::Ptr(Rc::new(PtrV { p: Ptr::obj(o), dynty: t, sub: None }))),
          v => abort(format!("box deref {:?}", v)),
        })
      }
      _ => {}
    },
    "std::convert::AsRef" | "std::borrow::Borrow" => match b {
      "std::sync::Arc" => return impl_fn(b, full, "std::ops::Deref", "deref", name),
      "std::vec::Vec" => return h(|_, _, _, a| ret(a[0].clone())),
      _ => {}
    },
    "std::ops::Index" | "std::ops::IndexMut" => {
      if is_seq(b) || b == "[T]" || b.starts_with('[') {
        return index_fn();
      }
      if is_map(b) {
        return hs(|cx, st, _, a| match map_find(cx, st, &a[0], &a[1])? {
          Some(i) => {
            let (p, _) = target(&a[0])?;
            ret(ptr(p.ext(PE::I(2 * i + 1))))
          }
          None => cx.panicked(st, "no such key".into()).map(|_| Out::Done),
        });
      }
    }
    "std::iter::Iterator" => {
      if ITERS.contains(&b) {
        if m == "next" {
          return h(it_next);
        }
        return iter_shim(m);
      }
      if RANGES.contains(&b) && m == "next" {
        return range_next();
      }
      if RANGES.contains(&b) {
        if m == "size_hint" {
          return h(|_, _, _, _| ret(tup(vec![int(0), none()])));
        }
        return iter_shim(m);
      }
    }
    "std::iter::DoubleEndedIterator" => {
      if ITERS.contains(&b) {
        if m == "next_back" {
          return h(it_next_back);
        }
        return iter_shim(m);
      }
    }
    "std::iter::ExactSizeIterator" => {
      if ITERS.contains(&b) && m == "len" {
        return h(|cx, st, _, a| ret(int(it_len(cx, st, &a[0])? as i128)));
      }
    }
    "std::iter::IntoIterator" => {
      if full.starts_with('&') {
        if is_seq(b) {
          return slice_fn("iter");
        }
        if is_map(b) {
          return map_fn("iter", b.contains("Hash"));
        }
        if is_set(b) {
          return set_fn("iter", b.contains("Hash"));
        }
        return None;
      }
      if is_seq(b) || b.starts_with('[') {
        return h(|_, _, _, a| match &a[0] {
          V::Seq(s) => ret(V::It(Rc::new(It::Own { v: (**s).clone() }))),
          V::Adt(s) => ret(V::It(Rc::new(It::Own { v: s.f.clone() }))),
          V::Ptr(_) => abort("array ref into_iter"),
          _ => abort("into_iter"),
        });
      }
      if is_map(b) || is_set(b) {
        return hs(|cx, st, c, a| {
          let V::Map(m) = &a[0] else { return abort("map into_iter") };
          let hash = c.name.contains("Hash");
          let rev = rev_order(cx, st, m.len() as u32, hash)?;
          let mut v = (**m).clone();
          if rev {
            v.reverse();
          }
          let kind = if c.name.contains("Set") { 1 } else { 0 };
          ret(V::It(Rc::new(It::MapOwn { v, kind })))
        });
      }
    }
    "std::iter::FromIterator" => {
      let s = match b {
        "std::vec::Vec" => "vec_from_iter",
        "std::collections::VecDeque" => "deque_from_iter",
        "std::collections::HashMap" => "hmap_from_iter",
        "std::collections::BTreeMap" => "bmap_from_iter",
        _ => return None,
      };
      return match s {
        "vec_from_iter" => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "vec_from_iter", vec![t[0].clone(), t.last().unwrap().clone()], a)
        }),
        "deque_from_iter" => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "deque_from_iter", vec![t[0].clone(), t.last().unwrap().clone()], a)
        }),
        "hmap_from_iter" => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "hmap_from_iter", vec![t[0].clone(), t[1].clone(), t.last().unwrap().clone()], a)
        }),
        _ => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "bmap_from_iter", vec![t[0].clone(), t[1].clone(), t.last().unwrap().clone()], a)
        }),
      };
    }
    "std::iter::Extend" if (m == "extend_one" || m == "extend_one_unchecked") && b == "std::vec::Vec" => {
      return std_fn_vec_push();
    }
    "std::iter::Extend" if m == "extend" => {
      let by_ref = tr.contains('&');
      return match (b, by_ref) {
        ("std::vec::Vec", false) => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "vec_extend", vec![t[0].clone(), t.last().unwrap().clone()], a)
        }),
        ("std::vec::Vec", true) => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "vec_extend_ref", vec![t[0].clone(), t.last().unwrap().clone()], a)
        }),
        ("std::collections::HashMap", false) => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "hmap_extend", vec![t[0].clone(), t[1].clone(), t.last().unwrap().clone()], a)
        }),
        ("std::collections::BTreeMap", false) => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "bmap_extend", vec![t[0].clone(), t[1].clone(), t.last().unwrap().clone()], a)
        }),
        ("std::collections::HashSet", false) => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "hset_extend", vec![t[0].clone(), t.last().unwrap().clone()], a)
        }),
        ("std::collections::BTreeSet", false) => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "bset_extend", vec![t[0].clone(), t.last().unwrap().clone()], a)
        }),
        ("std::collections::VecDeque", false) => h(|cx, st, c, a| {
          let t = ty_args(c);
          cx.call_shim(st, "deque_extend", vec![t[0].clone(), t.last().unwrap().clone()], a)
        }),
        _ => None,
      };
    }
    "std::cmp::PartialEq" => match b {
      _ if is_seq(b) || b.starts_with('[') => {
        return if m == "eq" {
          h(|cx, st, c, a| {
            // compare element-wise through the element type's own PartialEq
            let t = arg_ty(c, 0)?;
            let e = elem_ty(t)?;
            let u = elem_ty(arg_ty(c, 1)?)?;
            cx.call_shim(st, "slice_eq", vec![GenericArgKind::Type(e), GenericArgKind::Type(u)], a)
          })
        } else {
          None
        };
      }
      "std::any::TypeId" | "std::thread::ThreadId" | "std::time::Duration" | "std::time::Instant"
      | "std::time::SystemTime" => {
        return if m == "eq" {
          hs(|cx, st, _, a| {
            let r = cx.veq(st, &a[0], &a[1])?;
            ret(V::Bool(r))
          })
        } else {
          hs(|cx, st, _, a| {
            let r = cx.veq(st, &a[0], &a[1])?;
            ret(V::Bool(!r))
          })
        };
      }
      _ => {}
    },
    "std::cmp::PartialOrd" | "std::cmp::Ord" => match b {
      "std::time::Duration" | "std::time::Instant" | "std::time::SystemTime" => {
        return hs(|cx, st, c, a| {
          let x = clin(&cx.deref_val(st, &a[0])?)?;
          let y = clin(&cx.deref_val(st, &a[1])?)?;
          let o = cx.cmp_lin(st, x, y)?;
          ret(match c.name.rsplit("::").next().unwrap_or("") {
            "lt" => V::Bool(o == Ordering::Less),
            "le" => V::Bool(o != Ordering::Greater),
            "gt" => V::Bool(o == Ordering::Greater),
            "ge" => V::Bool(o != Ordering::Less),
            "partial_cmp" => some(ordering(o)),
            "cmp" => ordering(o),
            "max" => V::Int(if o == Ordering::Less { y } else { x }),
            "min" => V::Int(if o == Ordering::Greater { y } else { x }),
            m => return abort(format!("duration {}", m)),
          })
        })
      }
      _ => {}
    },
    "std::ops::Add" | "std::ops::Sub" | "std::ops::Mul" | "std::ops::Div" => match b {
      "std::time::Duration" | "std::time::Instant" | "std::time::SystemTime" | "u32" => {
        return h(|cx, st, c, a| {
          let (x, y) = (cint(&a[0])?, cint(&a[1])?);
          let r = match c.name.rsplit("::").next().unwrap_or("") {
            "add" => x + y,
            "sub" => x - y,
            "mul" => x * y,
            _ => x / y.max(1),
          };
          if r < 0 {
            return cx.panicked(st, "time underflow".into()).map(|_| Out::Done);
          }
          ret(int(r))
        })
      }
      _ => {}
    },
    "std::ops::AddAssign" | "std::ops::SubAssign" => match b {
      "std::time::Duration" | "std::time::Instant" | "std::time::SystemTime" => {
        return h(|cx, st, c, a| {
          let (p, _) = target(&a[0])?;
          let (x, y) = (cint(cx.read(st, &p)?)?, cint(&a[1])?);
          let r = if c.name.ends_with("add_assign") { x + y } else { x - y };
          if r < 0 {
            return cx.panicked(st, "time underflow".into()).map(|_| Out::Done);
          }
          cx.write(st, &p, int(r))?;
          ret(unit())
        })
      }
      _ => {}
    },
    "std::default::Default" => {
      if is_seq(b) {
        return h(|_, _, _, _| ret(V::Seq(Rc::new(vec![]))));
      }
      if is_map(b) || is_set(b) {
        return h(|_, _, _, _| ret(V::Map(Rc::new(vec![]))));
      }
      match b {
        "std::sync::Condvar" => return h(|_, _, _, _| ret(V::Cond)),
        "std::time::Duration" => return h(|_, _, _, _| ret(int(0))),
        "std::sync::atomic::AtomicBool" => return h(|_, _, _, _| ret(tup(vec![V::Bool(false)]))),
        "std::sync::atomic::AtomicUsize" | "std::sync::atomic::AtomicI32" | "std::sync::atomic::AtomicU64" => {
          return h(|_, _, _, _| ret(tup(vec![int(0)])))
        }
        _ => {}
      }
    }
    "std::convert::From" => match b {
      "std::sync::RwLock" | "std::sync::Mutex" => {
        return if b.contains("Mutex") { std_fn_named("std::sync::Mutex::<T>::new") } else { std_fn_named("std::sync::RwLock::<T>::new") }
      }
      "std::vec::Vec" => {
        // From<&[T]>, From<[T; N]>, From<VecDeque<T>>
        return h(|cx, st, c, a| match &a[0] {
          V::Seq(_) => ret(a[0].clone()),
          V::Ptr(_) => cx.call_shim(st, "slice_to_vec", vec![GenericArgKind::Type(ty_arg(c, 0)?)], a),
          _ => abort("vec from"),
        });
      }
      "std::collections::VecDeque" => {
        return h(|_, _, _, a| match &a[0] {
          V::Seq(_) => ret(a[0].clone()),
          _ => abort("deque from"),
        })
      }
      "std::io::Error" => return h(|_, _, _, _| ret(V::Opaque(0))),
      _ => {}
    },
    "std::borrow::ToOwned" => {
      if b.starts_with('[') {
        return h(|cx, st, c, a| {
          let e = elem_ty(arg_ty(c, 0)?)?;
          cx.call_shim(st, "slice_to_vec", vec![GenericArgKind::Type(e)], a)
        });
      }
      if b == "str" {
        return h(|_, _, _, _| ret(V::Opaque(0)));
      }
    }
    "std::hash::Hash" | "std::hash::Hasher" | "std::hash::BuildHasher" => {}
    _ => {}
  }
  None
}
fn std_fn_named(n: &str) -> Option<Handler> {
  if n.contains("Mutex") {
    h(|_, _, _, mut a| ret(V::Lock(Rc::new(LockV { v: a.pop().unwrap(), mutex: true, readers: vec![], writer: None }))))
  } else {
    h(|_, _, _, mut a| ret(V::Lock(Rc::new(LockV { v: a.pop().unwrap(), mutex: false, readers: vec![], writer: None }))))
  }
}
fn elem_ty(t: Ty) -> R<Ty> {
  match t.kind() {
    TyKind::RigidTy(RigidTy::Ref(_, i, _)) => elem_ty(i),
    TyKind::RigidTy(RigidTy::Slice(e)) | TyKind::RigidTy(RigidTy::Array(e, _)) => Ok(e),
    TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.iter().find_map(|x| x.ty()) {
      Some(t) => Ok(*t),
      None => abort("elem ty"),
    },
    _ => abort("elem ty"),
  }
}

// ------------------------------------------------------------------ client markers
fn marker(name: &str) -> Option<Handler> {
  let Some(n) = name.strip_prefix("rx::").or_else(|| name.strip_prefix("harness::rx::")) else { return None };
  match n {
    "choose" => hs(|cx, st, _, a| {
      let n = cint(&a[0])? as u32;
      let d = cx.decide(st, n)?;
      ret(int(d as i128))
    }),
    "fresh" => h(|cx, st, _, _| {
      let t = cx.fresh(st);
      ret(V::Tok(t))
    }),
    "tok_const" => h(|cx, _, _, a| {
      let f = cx.intern(&format!("k{}", cint(&a[0])?));
      let t = cx.term(Term::App(f, vec![]));
      ret(V::Tok(t))
    }),
    "tok_eq" => hs(|cx, st, _, a| {
      let (x, y) = (ctok(cx, st, &a[0])?, ctok(cx, st, &a[1])?);
      let r = cx.tok_eq(st, x, y)?;
      ret(V::Bool(r))
    }),
    "tok_same" => h(|cx, st, _, a| {
      let (x, y) = (ctok(cx, st, &a[0])?, ctok(cx, st, &a[1])?);
      ret(V::Bool(x == y))
    }),
    "tok_cmp" => hs(|cx, st, _, a| {
      let (x, y) = (ctok(cx, st, &a[0])?, ctok(cx, st, &a[1])?);
      let r = cx.tok_cmp(st, x, y)?;
      ret(int(match r {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
      }))
    }),
    "tok_add" => h(|cx, st, _, a| {
      let (x, y) = (ctok(cx, st, &a[0])?, ctok(cx, st, &a[1])?);
      // associative-commutative normal form
      let plus = cx.intern("+");
      let mut v = vec![];
      for t in [x, y] {
        match cx.terms[t as usize].clone() {
          Term::App(f, xs) if f == plus => v.extend(xs),
          _ => v.push(t),
        }
      }
      v.sort();
      let t = cx.term(Term::App(plus, v));
      let t = cx.norm(st, t);
      ret(V::Tok(t))
    }),
    "apply" => h(|cx, st, _, a| {
      // apply(f, x): uninterpreted function
      let f = cx.intern(&format!("f{}", cint(&a[0])?));
      let x = ctok(cx, st, &a[1])?;
      let t = cx.term(Term::App(f, vec![x]));
      let t = cx.norm(st, t);
      ret(V::Tok(t))
    }),
    "apply2" => h(|cx, st, _, a| {
      let f = cx.intern(&format!("g{}", cint(&a[0])?));
      let x = ctok(cx, st, &a[1])?;
      let y = ctok(cx, st, &a[2])?;
      let t = cx.term(Term::App(f, vec![x, y]));
      let t = cx.norm(st, t);
      ret(V::Tok(t))
    }),
    "pred" => hs(|cx, st, _, a| {
      let f = cx.intern(&format!("p{}", cint(&a[0])?));
      let x = ctok(cx, st, &a[1])?;
      let t = cx.term(Term::App(f, vec![x]));
      let r = cx.pred(st, t)?;
      ret(V::Bool(r))
    }),
    "boundary" => h(|cx, st, _, _| {
      cx.deliver(st, unit())?;
      st.depth += 1;
      cx.at_boundary(st)
    }),
    "depth" => h(|_, st, _, _| ret(int(st.depth as i128))),
    "check" => h(|cx, st, _, a| {
      let l = cstr(cx, st, &a[1]);
      *cx.checks.entry(l.clone()).or_insert(0) += 1;
      match a[0] {
        V::Bool(true) => ret(unit()),
        V::Bool(false) => {
          let (p, k) = split_label(&l);
          Err(Stop::Bug(p, k.clone(), k))
        }
        _ => abort("check of unknown"),
      }
    }),
    "checkp" => h(|cx, st, _, a| {
      let p = cstr(cx, st, &a[1]);
      let l = cstr(cx, st, &a[2]);
      *cx.checks.entry(format!("{}:{}", p, l)).or_insert(0) += 1;
      match a[0] {
        V::Bool(true) => ret(unit()),
        V::Bool(false) => Err(Stop::Bug(p, l.clone(), l)),
        _ => abort("check of unknown"),
      }
    }),
    "assume" => h(|_, _, _, a| match a[0] {
      V::Bool(true) => ret(unit()),
      _ => Err(Stop::Infeasible),
    }),
    "end" => h(|_, _, _, _| Err(Stop::End)),
    "note" => h(|cx, st, _, a| {
      let s = cstr(cx, st, &a[0]);
      cx.note(&s);
      ret(unit())
    }),
    "ev" => h(|cx, st, _, a| {
      let s = cstr(cx, st, &a[0]);
      let t = st.cur;
      let m = if t > 0 { format!("[t{}] {}", t, s) } else { s };
      cx.trace(st, m);
      ret(unit())
    }),
    "ev_tok" => h(|cx, st, _, a| {
      let s = cstr(cx, st, &a[0]);
      let v = cx.show(st, &a[1], 0);
      let t = st.cur;
      let m = if t > 0 { format!("[t{}] {} {}", t, s, v) } else { format!("{} {}", s, v) };
      cx.trace(st, m);
      ret(unit())
    }),
    "ev_val" => h(|cx, st, _, a| {
      let s = cstr(cx, st, &a[0]);
      let v = cx.show(st, &a[1], 0);
      let t = st.cur;
      let m = if t > 0 { format!("[t{}] {} {}", t, s, v) } else { format!("{} {}", s, v) };
      cx.trace(st, m);
      ret(unit())
    }),
    "settle" => hs(|cx, st, _, _| {
      cx.deliver(st, unit())?;
      cx.thread_mut(st).st = Status::Idle;
      Ok(Out::Done)
    }),
    "cond_wait_until" => hs(|cx, st, _, a| {
      let u = st.now + cint(&a[2])?;
      cond_wait(cx, st, a, Some(u))
    }),
    "timed_out" => h(|_, _, _, a| ret(a[0].clone())),
    // in the scenario's unit; off the grid it is no time anybody expects
    "now_ms" => h(|cx, st, _, _| ret(int(if cx.unit == 1_000_000 || st.now % cx.unit == 0 { st.now / cx.unit } else { 1_000_000 + st.now / cx.unit }))),
    "unit" => h(|cx, _, _, _| ret(int(cx.unit))),
    "set_unit" => h(|cx, _, _, a| {
      cx.unit = cint(&a[0])?;
      ret(unit())
    }),
    "live_threads" => h(|_, st, _, _| {
      let n = st.threads.iter().skip(1).filter(|t| t.st != Status::Done).count();
      ret(int(n as i128))
    }),
    "tid" => h(|_, st, _, _| ret(int(st.cur as i128))),
    "yield_point" => hs(|cx, st, _, _| {
      cx.preempt(st)?;
      ret(unit())
    }),
    "set_props" => h(|cx, st, _, a| {
      let s = cstr(cx, st, &a[0]);
      let i = match cx.kprops.iter().position(|x| *x == s) {
        Some(i) => i,
        None => {
          cx.kprops.push(s);
          cx.kprops.len() - 1
        }
      };
      st.props = i as u32;
      ret(unit())
    }),
    "conc" => h(|cx, st, _, a| {
      let b = cint(&a[0])? as u32;
      st.conc = b > 0;
      st.budget = if b > 0 { b.min(cx.init_budget) } else { 0 };
      ret(unit())
    }),
    "conc_raw" => h(|_, st, _, a| {
      let b = cint(&a[0])? as u32;
      st.conc = b > 0;
      st.budget = b;
      ret(unit())
    }),
    "limit" => h(|_, _, _, _| ret(unit())),
    "tier" => h(|cx, _, _, _| ret(int(cx.tier as i128))),
    "mk_waker" => h(|_, _, _, mut a| ret(tup(vec![a.pop().unwrap()]))),
    "any_val" => abort_h(),
    _ => None,
  }
}
fn abort_h() -> Option<Handler> {
  h(|_, _, _, _| abort("unsupported marker"))
}
pub fn split_label(l: &str) -> (String, String) {
  match l.split_once(':') {
    Some((p, k)) => (p.to_string(), k.trim().to_string()),
    None => ("".into(), l.to_string()),
  }
}
