//! Canonical key of an abstract state: isomorphic states (up to renaming of heap objects, threads, tokens and
//! symbols, garbage, and a shift of the clock for sleepers) get the same 128-bit key.
use crate::interp::*;
use crate::val::*;
use rustc_public::ty::*;
use std::collections::HashMap;

pub struct H {
  a: u64,
  b: u64,
}
#[inline]
fn fold(x: u64, y: u64) -> u64 {
  let r = (x as u128).wrapping_mul(y as u128);
  (r as u64) ^ ((r >> 64) as u64)
}
impl H {
  pub fn new() -> H {
    H { a: 0x243f6a8885a308d3, b: 0x13198a2e03707344 }
  }
  #[inline]
  pub fn u(&mut self, x: u64) {
    self.a = fold(self.a ^ x ^ 0xa0761d6478bd642f, 0xe7037ed1a0b428db);
    self.b = fold(self.b.wrapping_add(x) ^ 0x8ebc6af09c88c6e3, 0x589965cc75374cc3).rotate_left(17);
  }
  pub fn s(&mut self, s: &str) {
    self.u(s.len() as u64);
    for c in s.as_bytes().chunks(8) {
      let mut b = [0u8; 8];
      b[..c.len()].copy_from_slice(c);
      self.u(u64::from_le_bytes(b));
    }
  }
  pub fn i(&mut self, x: i128) {
    self.u(x as u64);
    if x > i64::MAX as i128 || x < i64::MIN as i128 {
      self.u((x >> 64) as u64);
    }
  }
  pub fn done(&self) -> u128 {
    ((self.a as u128) << 64) | self.b as u128
  }
}

struct K<'a> {
  st: &'a State,
  h: H,
  objs: HashMap<u32, u32>,
  queue: Vec<u32>,
  toks: HashMap<u32, u32>,
  tok_order: Vec<u32>,
  syms: HashMap<u32, u32>,
  tmap: HashMap<u16, u32>,
  terms: &'a [Term],
}

impl<'a> K<'a> {
  fn obj(&mut self, o: u32) {
    let n = self.objs.len() as u32;
    let id = *self.objs.entry(o).or_insert(n);
    if id == n {
      self.queue.push(o);
    }
    self.h.u(id as u64);
  }
  fn thread(&mut self, t: u16) {
    let n = self.tmap.len() as u32;
    let id = *self.tmap.entry(t).or_insert(n);
    self.h.u(id as u64);
  }
  fn tok(&mut self, t: TermId) {
    match &self.terms[t as usize] {
      Term::Fresh(k) => {
        let n = self.toks.len() as u32;
        let id = *self.toks.entry(*k).or_insert(n);
        if id == n {
          self.tok_order.push(t);
        }
        self.h.u(1);
        self.h.u(id as u64);
      }
      Term::App(f, a) => {
        self.h.u(2 + *f as u64);
        self.h.u(a.len() as u64);
        let a = a.clone();
        for x in a {
          self.tok(x);
        }
      }
    }
  }
  /// canonical hash of a term whose fresh tokens were all visited
  fn known(&self, t: TermId) -> Option<u128> {
    let mut h = H::new();
    self.known_in(t, &mut h)?;
    Some(h.done())
  }
  fn known_in(&self, t: TermId, h: &mut H) -> Option<()> {
    match &self.terms[t as usize] {
      Term::Fresh(k) => {
        h.u(1);
        h.u(*self.toks.get(k)? as u64);
      }
      Term::App(f, a) => {
        h.u(2 + *f as u64);
        h.u(a.len() as u64);
        for x in a {
          self.known_in(*x, h)?;
        }
      }
    }
    Some(())
  }
  fn lin(&mut self, l: &Lin) {
    if l.sym != 0 {
      let n = self.syms.len() as u32 + 1;
      let id = *self.syms.entry(l.sym).or_insert(n);
      self.h.u(77);
      self.h.u(id as u64);
    }
    self.h.i(l.off);
  }
  fn ty(&mut self, t: &Option<Ty>) {
    use rustc_public_bridge::IndexedVal;
    match t {
      Some(t) => self.h.u(1 + t.to_index() as u64),
      None => self.h.u(0),
    }
  }
  fn ptr(&mut self, p: &Ptr) {
    match p.base {
      Base::Local(t, d, l) => {
        self.h.u(1);
        self.thread(t);
        self.h.u(d as u64);
        self.h.u(l as u64);
      }
      Base::Obj(o) => {
        self.h.u(2);
        self.obj(o);
      }
    }
    self.h.u(p.path.len() as u64);
    for e in &p.path {
      match e {
        PE::F(i) => self.h.u(4 * *i as u64),
        PE::I(i) => self.h.u(4 * *i as u64 + 1),
        PE::L => self.h.u(2),
      }
    }
  }
  fn vs(&mut self, v: &[V]) {
    self.h.u(v.len() as u64);
    for x in v {
      self.v(x);
    }
  }
  fn v(&mut self, v: &V) {
    match v {
      V::Uninit => self.h.u(100),
      V::Bool(b) => self.h.u(101 + *b as u64),
      V::Int(l) => {
        self.h.u(103);
        self.lin(l);
      }
      V::Tok(t) => {
        self.h.u(104);
        self.tok(*t);
      }
      V::Adt(a) => {
        self.h.u(105);
        if let Some(t) = a.ty {
          if let TyKind::RigidTy(RigidTy::Closure(..)) = t.kind() {
            self.ty(&a.ty);
          }
        }
        self.h.u(a.var as u64);
        self.vs(&a.f);
      }
      V::Ptr(p) => {
        self.h.u(106);
        self.ptr(&p.p);
        self.ty(&p.dynty);
        if let Some((a, b)) = p.sub {
          self.h.u(((a as u64) << 32) | b as u64);
        }
      }
      V::Box(o, t) => {
        self.h.u(107);
        self.obj(*o);
        self.ty(t);
      }
      V::Arc(o) => {
        self.h.u(108);
        self.obj(*o);
      }
      V::Weak(o) => {
        self.h.u(109);
        self.obj(*o);
      }
      V::Seq(s) => {
        self.h.u(110);
        self.vs(s);
      }
      V::Map(m) => {
        self.h.u(111);
        self.h.u(m.len() as u64);
        for (k, x) in m.iter() {
          self.v(k);
          self.v(x);
        }
      }
      V::It(i) => {
        self.h.u(112);
        match &**i {
          It::Ref { p, i, end } => {
            self.h.u(1);
            self.ptr(p);
            self.h.u(((*i as u64) << 32) | *end as u64);
          }
          It::Own { v } => {
            self.h.u(2);
            self.vs(v);
          }
          It::MapRef { p, i, end, kind, rev } => {
            self.h.u(3);
            self.ptr(p);
            self.h.u(((*i as u64) << 32) | *end as u64);
            self.h.u(*kind as u64 * 2 + *rev as u64);
          }
          It::MapOwn { v, kind } => {
            self.h.u(4);
            self.h.u(*kind as u64);
            self.h.u(v.len() as u64);
            for (k, x) in v {
              self.v(k);
              self.v(x);
            }
          }
        }
      }
      V::Lock(l) => {
        self.h.u(113 + l.mutex as u64);
        match l.writer {
          Some(t) => self.thread(t),
          None => self.h.u(u64::MAX),
        }
        self.h.u(l.readers.len() as u64);
        for r in &l.readers {
          self.thread(*r);
        }
        self.v(&l.v);
      }
      V::Guard(g) => {
        self.h.u(115 + g.1 as u64);
        self.ptr(&g.0);
      }
      V::Fn(t) => {
        self.h.u(117);
        self.ty(&Some(*t));
      }
      V::Str(s) => {
        self.h.u(118);
        self.h.s(s);
      }
      V::TypeId(t) => {
        self.h.u(119);
        self.ty(&Some(*t));
      }
      V::Cond => self.h.u(120),
      V::Thread(t) => {
        self.h.u(121);
        self.thread(*t);
      }
      V::Opaque(k) => {
        self.h.u(122);
        self.h.u(*k as u64);
      }
    }
  }
  fn status(&mut self, s: &Status) {
    match s {
      Status::Run => self.h.u(1),
      Status::Lock(p, w) => {
        self.h.u(2 + *w as u64);
        self.ptr(p);
      }
      Status::Cond { cond, mutex, notified, until } => {
        self.h.u(4 + *notified as u64);
        self.ptr(cond);
        self.ptr(mutex);
        if let Some(u) = until {
          self.h.i(*u - self.st.now);
        }
      }
      Status::Sleep(u) => {
        self.h.u(6);
        self.h.i(*u - self.st.now);
      }
      Status::Join(t) => {
        self.h.u(7);
        self.thread(*t);
      }
      Status::Idle => self.h.u(8),
      Status::Done => self.h.u(9),
    }
  }
  fn frames(&mut self, th: &Thread) {
    self.h.u(th.stack.len() as u64);
    for f in &th.stack {
      match &f.k {
        FK::Mir(b) => self.h.u(10 + b.id as u64 * 4),
        FK::Drop(items) => {
          self.h.u(1);
          self.h.u(items.len() as u64);
          for it in items {
            match it {
              DropItem::V(v) => self.v(v),
              DropItem::Fields(o) => {
                self.h.u(5);
                self.obj(*o);
              }
            }
          }
        }
        FK::AfterOnce(o, v) => {
          self.h.u(2);
          if *o != u32::MAX {
            self.obj(*o);
          }
          if let Some(v) = v {
            self.v(v);
          }
        }
      }
      self.h.u(((f.bb as u64) << 32) | f.si as u64);
      self.vs(&f.locals);
    }
  }
}

/// live heap objects (reachable from the threads' stacks), used for leak reports
pub fn key(cx: &Cx, st: &State) -> u128 {
  let mut k = K {
    st,
    h: H::new(),
    objs: HashMap::new(),
    queue: vec![],
    toks: HashMap::new(),
    tok_order: vec![],
    syms: HashMap::new(),
    tmap: HashMap::new(),
    terms: &cx.terms,
  };
  for (i, t) in st.threads.iter().enumerate() {
    if t.st != Status::Done {
      k.tmap.insert(i as u16, k.tmap.len() as u32);
    }
  }
  k.thread(st.cur);
  k.h.u(st.budget as u64 * 2 + st.conc as u64);
  k.h.u(st.props as u64);
  k.h.u(match st.maprev {
    None => 0,
    Some(b) => 1 + b as u64,
  });
  k.h.i(st.now);
  for (i, t) in st.threads.iter().enumerate() {
    if t.st == Status::Done {
      continue;
    }
    let _ = i;
    k.status(&t.st);
    k.h.u(t.held.len() as u64);
    for (p, w) in &t.held {
      k.h.u(*w as u64);
      k.ptr(p);
    }
    k.frames(t);
  }
  for (s, o) in st.statics.iter() {
    k.h.u(*s as u64);
    k.obj(*o);
  }
  let mut qi = 0;
  while qi < k.queue.len() {
    let o = k.queue[qi];
    qi += 1;
    match st.heap.get(o) {
      None => k.h.u(3),
      Some(ob) => {
        k.h.u(((ob.strong as u64) << 32) | ob.weak as u64);
        k.ty(&ob.ty);
        k.v(&ob.v);
      }
    }
  }
  // results of finished threads that are still referred to
  let mut done: Vec<(u32, u16)> = k.tmap.iter().map(|(t, n)| (*n, *t)).collect();
  done.sort();
  for (_, t) in done {
    let th = &st.threads[t as usize];
    if th.st == Status::Done {
      k.h.u(55);
      if let Some(r) = &th.result {
        k.v(r);
      }
    }
  }
  // facts about live tokens
  let mut fs: Vec<(u8, u128, u128)> = vec![];
  for (t, b) in st.facts.preds.iter() {
    if let Some(x) = k.known(*t) {
      fs.push((*b as u8, x, 0));
    }
  }
  for (a, b) in st.facts.ne.iter() {
    if let (Some(x), Some(y)) = (k.known(*a), k.known(*b)) {
      fs.push((2, x.min(y), x.max(y)));
    }
  }
  for (a, b) in st.facts.lt.iter() {
    if let (Some(x), Some(y)) = (k.known(*a), k.known(*b)) {
      fs.push((3, x, y));
    }
  }
  for (a, b) in st.facts.rw.iter() {
    if let (Some(x), Some(y)) = (k.known(*a), k.known(*b)) {
      fs.push((4, x, y));
    }
  }
  let mut ss: Vec<(u32, u32, i128)> = vec![];
  for ((a, b), c) in st.dbm.m.iter() {
    let g = |s: &u32| if *s == 0 { Some(0) } else { k.syms.get(s).copied() };
    if let (Some(x), Some(y)) = (g(a), g(b)) {
      ss.push((x, y, *c));
    }
  }
  fs.sort();
  ss.sort();
  k.h.u(fs.len() as u64);
  for (a, b, c) in fs {
    k.h.u(a as u64);
    k.h.u(b as u64);
    k.h.u((b >> 64) as u64);
    k.h.u(c as u64);
    k.h.u((c >> 64) as u64);
  }
  for (a, b, c) in ss {
    k.h.u(a as u64);
    k.h.u(b as u64);
    k.h.i(c);
  }
  k.h.done()
}
