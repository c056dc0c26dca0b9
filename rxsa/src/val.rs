//! Abstract values, heap and state.
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type TermId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Lin {
  pub sym: u32,
  pub off: i128,
}
impl Lin {
  pub fn c(x: i128) -> Lin {
    Lin { sym: 0, off: x }
  }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum PE {
  F(u32),
  I(u32),
  L,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Base {
  Local(u16, u16, u32),
  Obj(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ptr {
  pub base: Base,
  pub path: Vec<PE>,
}
impl Ptr {
  pub fn obj(o: u32) -> Ptr {
    Ptr { base: Base::Obj(o), path: vec![] }
  }
  pub fn ext(&self, e: PE) -> Ptr {
    let mut p = self.clone();
    p.path.push(e);
    p
  }
}

#[derive(Clone, Debug)]
pub struct PtrV {
  pub p: Ptr,
  pub dynty: Option<Ty>,
  /// sub-slice [start, end) when the pointer denotes part of a sequence
  pub sub: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub struct Adt {
  pub ty: Option<Ty>,
  pub var: u32,
  pub f: Vec<V>,
}

#[derive(Clone, Debug)]
pub enum It {
  /// by-reference iteration over a sequence in memory
  Ref { p: Ptr, i: u32, end: u32 },
  /// owning iteration
  Own { v: Vec<V> },
  /// by-reference over a map: kind 0 = pairs, 1 = keys, 2 = values
  MapRef { p: Ptr, i: u32, end: u32, kind: u8, rev: bool },
  /// owning over map entries
  MapOwn { v: Vec<(V, V)>, kind: u8 },
}

#[derive(Clone, Debug)]
pub struct LockV {
  pub v: V,
  pub mutex: bool,
  pub readers: Vec<u16>,
  pub writer: Option<u16>,
}

#[derive(Clone, Debug)]
pub enum V {
  Uninit,
  Bool(bool),
  Int(Lin),
  Tok(TermId),
  Adt(Rc<Adt>),
  Ptr(Rc<PtrV>),
  Box(u32, Option<Ty>),
  Arc(u32),
  Weak(u32),
  Seq(Rc<Vec<V>>),
  Map(Rc<Vec<(V, V)>>),
  It(Rc<It>),
  Lock(Rc<LockV>),
  Guard(Rc<(Ptr, bool)>),
  Fn(Ty),
  Str(Rc<str>),
  TypeId(Ty),
  Cond,
  Thread(u16),
  Opaque(u32),
}

pub fn unit() -> V {
  V::Adt(Rc::new(Adt { ty: None, var: 0, f: vec![] }))
}
pub fn tup(f: Vec<V>) -> V {
  V::Adt(Rc::new(Adt { ty: None, var: 0, f }))
}
pub fn en(var: u32, f: Vec<V>) -> V {
  V::Adt(Rc::new(Adt { ty: None, var, f }))
}
pub fn some(v: V) -> V {
  en(1, vec![v])
}
pub fn none() -> V {
  en(0, vec![])
}
pub fn ok(v: V) -> V {
  en(0, vec![v])
}
pub fn int(x: i128) -> V {
  V::Int(Lin::c(x))
}
pub fn ptr(p: Ptr) -> V {
  V::Ptr(Rc::new(PtrV { p, dynty: None, sub: None }))
}

#[derive(Clone, Debug)]
pub struct Obj {
  pub v: V,
  pub ty: Option<Ty>,
  pub strong: u32,
  pub weak: u32,
  pub label: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CalleeKind {
  Handler(u16),
  Body,
  Missing,
}

pub struct Callee {
  pub inst: Instance,
  pub name: String,
  pub kind: CalleeKind,
  pub body: std::cell::RefCell<Option<Rc<BodyInfo>>>,
  pub args: GenericArgs,
}

pub struct BodyInfo {
  pub id: u32,
  pub name: String,
  pub body: Body,
  pub nlocals: usize,
  pub nargs: usize,
  pub self_by_ref: bool,
  pub is_lib: bool,
  pub is_harness: bool,
  pub calls: std::cell::RefCell<HashMap<usize, CallSite>>,
  pub consts: std::cell::RefCell<HashMap<(usize, usize, usize), V>>,
  pub hit: std::cell::RefCell<Vec<bool>>,
  pub loop_heads: Vec<bool>,
}

#[derive(Clone)]
pub enum CallSite {
  Direct(Rc<Callee>),
  /// Fn-family trait call: self type, by_value
  FnTrait(Ty, bool),
  /// trait-object method: re-resolve with the dynamic receiver type
  Virtual(FnDef, GenericArgs),
  FnPtr,
}

#[derive(Clone, Debug)]
pub enum DropItem {
  V(V),
  /// after a user Drop::drop ran on this temp object: drop its fields and free it
  Fields(u32),
}

#[derive(Clone)]
pub enum FK {
  Mir(Rc<BodyInfo>),
  Drop(Vec<DropItem>),
  /// call_once on a by-ref closure: object holding the closure; result once known
  AfterOnce(u32, Option<V>),
}

#[derive(Clone)]
pub struct Frame {
  pub k: FK,
  pub bb: u32,
  pub si: u32,
  pub locals: Vec<V>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Status {
  Run,
  Lock(Ptr, bool),
  Cond { cond: Ptr, mutex: Ptr, notified: bool, until: Option<i128> },
  Sleep(i128),
  Join(u16),
  Idle,
  Done,
}

#[derive(Clone)]
pub struct Thread {
  pub stack: Vec<Rc<Frame>>,
  pub st: Status,
  pub held: Vec<(Ptr, bool)>,
  pub result: Option<V>,
  pub name: u32,
}

pub struct Trace {
  pub msg: String,
  pub prev: Option<Rc<Trace>>,
}
impl Drop for Trace {
  fn drop(&mut self) {
    let mut cur = self.prev.take();
    while let Some(n) = cur {
      match Rc::try_unwrap(n) {
        Ok(mut t) => cur = t.prev.take(),
        Err(_) => break,
      }
    }
  }
}

const CH: usize = 32;
#[derive(Clone, Default)]
pub struct Heap {
  chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
  free: Rc<Vec<u32>>,
  len: u32,
}
impl Heap {
  pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
    self.chunks.get(id as usize / CH).and_then(|c| c.get(id as usize % CH)).and_then(|x| x.as_ref())
  }
  pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
    let c = self.chunks.get_mut(id as usize / CH)?;
    let c = Rc::make_mut(c);
    c.get_mut(id as usize % CH).and_then(|x| x.as_mut()).map(Rc::make_mut)
  }
  pub fn alloc(&mut self, o: Obj) -> u32 {
    let id = if let Some(id) = Rc::make_mut(&mut self.free).pop() {
      id
    } else {
      let id = self.len;
      self.len += 1;
      if id as usize / CH >= self.chunks.len() {
        self.chunks.push(Rc::new(vec![None; CH]));
      }
      id
    };
    Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH] = Some(Rc::new(o));
    id
  }
  pub fn free(&mut self, id: u32) -> Option<Rc<Obj>> {
    let r = Rc::make_mut(&mut self.chunks[id as usize / CH])[id as usize % CH].take();
    Rc::make_mut(&mut self.free).push(id);
    r
  }
  pub fn iter_ids(&self) -> impl Iterator<Item = u32> + '_ {
    (0..self.len).filter(move |i| self.get(*i).is_some())
  }
}

#[derive(Clone, Default, Debug)]
pub struct Facts {
  /// application term -> truth value
  pub preds: BTreeMap<TermId, bool>,
  pub ne: BTreeSet<(TermId, TermId)>,
  pub lt: BTreeSet<(TermId, TermId)>,
  /// application term -> its representative
  pub rw: BTreeMap<TermId, TermId>,
}

#[derive(Clone)]
pub struct State {
  pub heap: Heap,
  pub threads: Vec<Rc<Thread>>,
  pub cur: u16,
  pub facts: Rc<Facts>,
  pub dbm: Rc<crate::dbm::Dbm>,
  pub next_fresh: u32,
  pub now: i128,
  pub budget: u32,
  pub conc: bool,
  pub statics: Rc<BTreeMap<usize, u32>>,
  pub forced: Vec<u32>,
  pub fpos: usize,
  pub trace: Option<Rc<Trace>>,
  pub depth: u32,
  pub steps: u64,
  /// steps since client code last ran
  pub quiet: u64,
  pub props: u32,
  pub maprev: Option<bool>,
  pub widened: bool,
  pub ctx: u32,
  pub segs: Rc<Vec<u32>>,
  pub shared_locks: bool,
}
