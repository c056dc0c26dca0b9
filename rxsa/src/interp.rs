//! The abstract interpreter: places, statements, calls, drops, threads.
use crate::intrin::{self, Handler};
use crate::val::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub enum Stop {
  Fork(u32),
  /// property tags, key (stable), message
  Bug(String, String, String),
  /// precision lost
  Abort(String),
  Infeasible,
  End,
  Block(Status),
  SwitchTo(u16),
  /// the state was parked at a boundary or merged with a visited one
  Parked,
}
pub type R<T> = Result<T, Stop>;
pub fn abort<T>(s: impl Into<String>) -> R<T> {
  Err(Stop::Abort(s.into()))
}

pub enum Out {
  Ret(V),
  Pushed,
  /// statement fully handled, pc must stay/advance as set by the handler
  Done,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Term {
  Fresh(u32),
  App(u32, Vec<TermId>),
}

pub struct Violation {
  pub props: String,
  pub key: String,
  pub msg: String,
  pub scenario: String,
  pub trace: Vec<String>,
  pub stack: Vec<String>,
  pub count: u64,
}

/// steps of library code without any client code in between
pub const MAX_QUIET: u64 = 300_000;
#[derive(Default)]
pub struct Stats {
  pub steps: u64,
  pub states: u64,
  pub merged: u64,
  pub forks: u64,
  pub paths: u64,
  pub ends: u64,
  pub cut_depth: u64,
  pub cut_states: u64,
  pub cut_steps: u64,
  pub max_quiet: u64,
  pub preempt: u64,
  pub locks: u64,
}

pub struct Cx {
  pub bodies: HashMap<Instance, Rc<BodyInfo>>,
  pub callees: HashMap<Instance, Rc<Callee>>,
  pub handlers: Vec<Handler>,
  pub shims: HashMap<String, FnDef>,
  pub terms: Vec<Term>,
  pub term_map: HashMap<Term, TermId>,
  pub sub_rw: std::collections::BTreeMap<TermId, TermId>,
  pub strs: Vec<String>,
  pub str_map: HashMap<String, u32>,
  pub work: Vec<State>,
  pub visited: HashSet<u128>,
  pub visited_conc: HashMap<u128, u32>,
  pub viol: BTreeMap<(String, String), Violation>,
  pub notes: BTreeMap<String, u64>,
  pub checks: BTreeMap<String, u64>,
  pub stats: Stats,
  pub const_cache: RefCell<HashMap<usize, V>>,
  pub drop_impl: RefCell<HashMap<Ty, Option<Instance>>>,
  pub ty_sym: RefCell<HashMap<Ty, u32>>,
  pub scenario: String,
  pub max_depth: u32,
  pub max_steps: u64,
  pub deadline: std::time::Instant,
  pub timed_out: bool,
  pub try_ops: bool,
  pub verbose: bool,
  pub lock_threads: HashMap<(u32, u32), u32>,
  pub kprops: Vec<String>,
  /// nanoseconds the client counts as one
  pub unit: i128,
  pub dyn_cache: HashMap<(FnDef, GenericArgs), Rc<Callee>>,
  pub init_budget: u32,
  pub tier: u32,
  pub next_level: Vec<State>,
  pub max_states: u64,
}

pub const INT: u32 = 0;

impl Cx {
  pub fn intern(&mut self, s: &str) -> u32 {
    if let Some(i) = self.str_map.get(s) {
      return *i;
    }
    let i = self.strs.len() as u32;
    self.strs.push(s.to_string());
    self.str_map.insert(s.to_string(), i);
    i
  }
  pub fn term(&mut self, t: Term) -> TermId {
    if let Some(i) = self.term_map.get(&t) {
      return *i;
    }
    let i = self.terms.len() as u32;
    self.terms.push(t.clone());
    self.term_map.insert(t, i);
    i
  }
  pub fn fresh(&mut self, st: &mut State) -> TermId {
    let k = st.next_fresh;
    st.next_fresh += 1;
    self.term(Term::Fresh(k))
  }
  pub fn show_term(&self, t: TermId) -> String {
    match &self.terms[t as usize] {
      Term::Fresh(k) => format!("x{}", k),
      Term::App(f, a) => format!(
        "{}({})",
        self.strs[*f as usize],
        a.iter().map(|t| self.show_term(*t)).collect::<Vec<_>>().join(",")
      ),
    }
  }
  pub fn show(&self, st: &State, v: &V, d: u32) -> String {
    if d > 5 {
      return "..".into();
    }
    match v {
      V::Tok(t) => self.show_term(*t),
      V::Int(l) if l.sym == 0 => format!("{}", l.off),
      V::Int(l) => format!("n{}+{}", l.sym, l.off),
      V::Bool(b) => format!("{}", b),
      V::Adt(a) => format!(
        "{}{}",
        if a.var > 0 { format!("#{}", a.var) } else { String::new() },
        if a.f.is_empty() {
          "()".into()
        } else {
          format!("({})", a.f.iter().map(|x| self.show(st, x, d + 1)).collect::<Vec<_>>().join(","))
        }
      ),
      V::Seq(s) => {
        format!("[{}]", s.iter().map(|x| self.show(st, x, d + 1)).collect::<Vec<_>>().join(","))
      }
      V::Ptr(p) => match self.read(st, &p.p) {
        Ok(v) => self.show(st, v, d + 1),
        _ => "&?".into(),
      },
      V::Arc(o) => match st.heap.get(*o) {
        Some(x) => self.show(st, &x.v, d + 1),
        None => "arc?".into(),
      },
      V::Box(o, _) => match st.heap.get(*o) {
        Some(x) => self.show(st, &x.v, d + 1),
        None => "box?".into(),
      },
      V::Str(s) => format!("{:?}", s),
      V::Uninit => "_".into(),
      V::Lock(l) => format!("Lock({})", self.show(st, &l.v, d + 1)),
      V::Thread(t) => format!("t{}", t),
      _ => "*".into(),
    }
  }
  pub fn note(&mut self, s: &str) {
    *self.notes.entry(s.to_string()).or_insert(0) += 1;
  }

  // ---------------------------------------------------------------- memory
  pub fn base<'a>(&self, st: &'a State, b: &Base) -> R<&'a V> {
    match b {
      Base::Local(t, d, l) => match st.threads.get(*t as usize).and_then(|t| t.stack.get(*d as usize)) {
        Some(f) => match f.locals.get(*l as usize) {
          Some(v) => Ok(v),
          None => abort("dangling local"),
        },
        None => abort("dangling frame"),
      },
      Base::Obj(o) => match st.heap.get(*o) {
        Some(o) => Ok(&o.v),
        None => abort("dangling object"),
      },
    }
  }
  pub fn base_mut<'a>(&self, st: &'a mut State, b: &Base) -> R<&'a mut V> {
    match b {
      Base::Local(t, d, l) => {
        let th = match st.threads.get_mut(*t as usize) {
          Some(t) => Rc::make_mut(t),
          None => return abort("dangling thread"),
        };
        match th.stack.get_mut(*d as usize) {
          Some(f) => match Rc::make_mut(f).locals.get_mut(*l as usize) {
            Some(v) => Ok(v),
            None => abort("dangling local"),
          },
          None => abort("dangling frame"),
        }
      }
      Base::Obj(o) => match st.heap.get_mut(*o) {
        Some(o) => Ok(&mut o.v),
        None => abort("dangling object"),
      },
    }
  }
  pub fn step_ref<'a>(&self, v: &'a V, e: &PE) -> R<&'a V> {
    match (v, e) {
      (V::Adt(a), PE::F(i)) => match a.f.get(*i as usize) {
        Some(v) => Ok(v),
        None => abort("field oob"),
      },
      (V::Seq(s), PE::I(i)) | (V::Seq(s), PE::F(i)) => match s.get(*i as usize) {
        Some(v) => Ok(v),
        None => abort("index oob"),
      },
      (V::Adt(a), PE::I(i)) => match a.f.get(*i as usize) {
        Some(v) => Ok(v),
        None => abort("index oob"),
      },
      (V::Map(m), PE::I(i)) => {
        let k = (*i / 2) as usize;
        match m.get(k) {
          Some(kv) => Ok(if i % 2 == 0 { &kv.0 } else { &kv.1 }),
          None => abort("map oob"),
        }
      }
      (V::Lock(l), PE::L) => Ok(&l.v),
      (V::Opaque(_), _) => Ok(v),
      _ => abort(format!("project {:?} of {:?}", e, std::mem::discriminant(v))),
    }
  }
  pub fn read<'a>(&self, st: &'a State, p: &Ptr) -> R<&'a V> {
    let mut v = self.base(st, &p.base)?;
    for e in &p.path {
      v = self.step_ref(v, e)?;
    }
    Ok(v)
  }
  pub fn lval<'a>(&self, st: &'a mut State, p: &Ptr) -> R<&'a mut V> {
    let mut v = self.base_mut(st, &p.base)?;
    for e in &p.path {
      if let (V::Uninit, PE::F(i)) = (&*v, e) {
        let n = *i as usize + 1;
        *v = V::Adt(Rc::new(Adt { ty: None, var: 0, f: vec![V::Uninit; n] }));
      }
      v = match (v, e) {
        (V::Adt(a), PE::F(i)) | (V::Adt(a), PE::I(i)) => {
          let a = Rc::make_mut(a);
          while a.f.len() <= *i as usize {
            a.f.push(V::Uninit);
          }
          &mut a.f[*i as usize]
        }
        (V::Seq(s), PE::I(i)) | (V::Seq(s), PE::F(i)) => match Rc::make_mut(s).get_mut(*i as usize) {
          Some(v) => v,
          None => return abort("index oob"),
        },
        (V::Map(m), PE::I(i)) => match Rc::make_mut(m).get_mut((*i / 2) as usize) {
          Some(kv) => {
            if i % 2 == 0 {
              &mut kv.0
            } else {
              &mut kv.1
            }
          }
          None => return abort("map oob"),
        },
        (V::Lock(l), PE::L) => &mut Rc::make_mut(l).v,
        (_, e) => return abort(format!("lval project {:?}", e)),
      };
    }
    Ok(v)
  }
  pub fn write(&self, st: &mut State, p: &Ptr, v: V) -> R<()> {
    *self.lval(st, p)? = v;
    Ok(())
  }

  pub fn depth(&self, st: &State) -> u16 {
    (st.threads[st.cur as usize].stack.len() - 1) as u16
  }
  pub fn top<'a>(&self, st: &'a State) -> &'a Rc<Frame> {
    st.threads[st.cur as usize].stack.last().unwrap()
  }
  pub fn top_mut<'a>(&self, st: &'a mut State) -> &'a mut Frame {
    let c = st.cur as usize;
    Rc::make_mut(Rc::make_mut(&mut st.threads[c]).stack.last_mut().unwrap())
  }
  pub fn thread_mut<'a>(&self, st: &'a mut State) -> &'a mut Thread {
    let c = st.cur as usize;
    Rc::make_mut(&mut st.threads[c])
  }

  /// resolve a place to a pointer plus the metadata of the last dereference
  pub fn place(&self, st: &State, pl: &Place) -> R<(Ptr, Option<Rc<PtrV>>)> {
    let mut p = Ptr { base: Base::Local(st.cur, self.depth(st), pl.local as u32), path: vec![] };
    let mut meta: Option<Rc<PtrV>> = None;
    for e in &pl.projection {
      match e {
        ProjectionElem::Deref => {
          let v = self.read(st, &p)?;
          meta = None;
          match v {
            V::Ptr(q) => {
              meta = Some(q.clone());
              p = q.p.clone();
            }
            V::Box(o, t) => {
              let q = Ptr::obj(*o);
              meta = Some(Rc::new(PtrV { p: q.clone(), dynty: *t, sub: None }));
              p = q;
            }
            V::Str(_) | V::Opaque(_) => {}
            V::Guard(g) => p = g.0.ext(PE::L),
            V::Arc(o) => p = Ptr::obj(*o),
            v => return abort(format!("deref of {:?} in {}", std::mem::discriminant(v), self.fname(st))),
          }
        }
        ProjectionElem::Field(i, _) => {
          // MaybeUninit / ManuallyDrop around a place not written yet
          match self.read(st, &p).unwrap_or(&V::Uninit) {
            // Box / Unique / NonNull wrappers are transparent
            V::Ptr(_) | V::Box(..) | V::Str(_) | V::Opaque(_) | V::Int(_) | V::Tok(_) | V::TypeId(_) => {}
            _ => {
              meta = None;
              p.path.push(PE::F(*i as u32));
            }
          }
        }
        ProjectionElem::Index(l) => {
          let sub = meta.as_ref().and_then(|m| m.sub);
          let iv = self.read(
            st,
            &Ptr { base: Base::Local(st.cur, self.depth(st), *l as u32), path: vec![] },
          )?;
          match iv {
            V::Int(Lin { sym: 0, off }) => {
              let o = *off as u32 + sub.map_or(0, |s| s.0);
              p.path.push(PE::I(o))
            }
            _ => return abort("symbolic index"),
          }
          meta = None;
        }
        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
          let sub = meta.as_ref().and_then(|m| m.sub);
          let n = self.seq_len(st, &p, sub)?;
          let b = sub.map_or(0, |s| s.0);
          let i = if *from_end { n - *offset as u32 } else { *offset as u32 };
          p.path.push(PE::I(b + i));
          meta = None;
        }
        ProjectionElem::Subslice { from, to, from_end } => {
          let sub = meta.as_ref().and_then(|m| m.sub);
          let n = self.seq_len(st, &p, sub)?;
          let b = sub.map_or(0, |s| s.0);
          let e = if *from_end { n - *to as u32 } else { *to as u32 };
          meta = Some(Rc::new(PtrV { p: p.clone(), dynty: None, sub: Some((b + *from as u32, b + e)) }));
        }
        ProjectionElem::Downcast(_) | ProjectionElem::OpaqueCast(_) => {}
      }
    }
    if !matches!(pl.projection.last(), Some(ProjectionElem::Deref | ProjectionElem::Subslice { .. })) {
      meta = None;
    }
    Ok((p, meta))
  }
  pub fn seq_len(&self, st: &State, p: &Ptr, sub: Option<(u32, u32)>) -> R<u32> {
    if let Some((a, b)) = sub {
      return Ok(b - a);
    }
    match self.read(st, p)? {
      V::Seq(s) => Ok(s.len() as u32),
      V::Adt(a) => Ok(a.f.len() as u32),
      V::Map(a) => Ok(a.len() as u32),
      V::Str(s) => Ok(s.len() as u32),
      v => abort(format!("len of {:?}", v)),
    }
  }
  pub fn fname(&self, st: &State) -> String {
    match &self.top(st).k {
      FK::Mir(b) => b.name.clone(),
      _ => "drop".into(),
    }
  }

  pub fn operand(&self, st: &mut State, op: &Operand, consume: bool) -> R<V> {
    match op {
      Operand::Copy(p) => {
        if p.projection.is_empty() {
          let d = self.depth(st) as usize;
          return Ok(st.threads[st.cur as usize].stack[d].locals[p.local].clone());
        }
        let (q, _) = self.place(st, p)?;
        Ok(self.read(st, &q)?.clone())
      }
      Operand::Move(p) => {
        if p.projection.is_empty() && consume {
          let f = self.top_mut(st);
          return Ok(std::mem::replace(&mut f.locals[p.local], V::Uninit));
        }
        let (q, m) = self.place(st, p)?;
        if let Some(m) = &m {
          // moving a fat pointer's target is not possible for unsized; keep value semantics
          let _ = m;
        }
        if consume {
          let v = self.lval(st, &q)?;
          Ok(std::mem::replace(v, V::Uninit))
        } else {
          Ok(self.read(st, &q)?.clone())
        }
      }
      Operand::Constant(c) => self.constant(st, c),
      Operand::RuntimeChecks(_) => Ok(V::Bool(false)),
    }
  }

  // ---------------------------------------------------------------- constants
  pub fn constant(&self, st: &mut State, c: &ConstOperand) -> R<V> {
    let key = c as *const _ as usize;
    if let Some(v) = self.const_cache.borrow().get(&key) {
      return Ok(v.clone());
    }
    let (v, cacheable) = self.decode_const(st, &c.const_)?;
    if cacheable {
      self.const_cache.borrow_mut().insert(key, v.clone());
    }
    Ok(v)
  }
  pub fn decode_const(&self, st: &mut State, c: &MirConst) -> R<(V, bool)> {
    match c.kind() {
      ConstantKind::ZeroSized => Ok((self.zst(c.ty()), true)),
      ConstantKind::Allocated(a) => {
        let mut cacheable = true;
        let v = self.decode(st, c.ty(), a, 0, &mut cacheable)?;
        Ok((v, cacheable))
      }
      ConstantKind::Ty(tc) => match tc.eval_target_usize() {
        Ok(n) => Ok((int(n as i128), true)),
        Err(_) => Ok((V::Opaque(0), true)),
      },
      _ => Ok((V::Opaque(0), true)),
    }
  }
  pub fn zst(&self, ty: Ty) -> V {
    match ty.kind() {
      TyKind::RigidTy(RigidTy::FnDef(..)) => V::Fn(ty),
      TyKind::RigidTy(RigidTy::Closure(..)) => V::Adt(Rc::new(Adt { ty: Some(ty), var: 0, f: vec![] })),
      TyKind::RigidTy(RigidTy::Tuple(ts)) => tup(ts.iter().map(|t| self.zst(*t)).collect()),
      TyKind::RigidTy(RigidTy::Array(..)) => V::Seq(Rc::new(vec![])),
      TyKind::RigidTy(RigidTy::Adt(d, a)) => {
        let f = match d.variants().first() {
          Some(v) => v.fields().iter().map(|f| self.zst(f.ty_with_args(&a))).collect(),
          None => vec![],
        };
        V::Adt(Rc::new(Adt { ty: Some(ty), var: 0, f }))
      }
      _ => unit(),
    }
  }
  pub fn decode(&self, st: &mut State, ty: Ty, a: &Allocation, off: usize, cacheable: &mut bool) -> R<V> {
    let rd = |n: usize| -> R<u128> { a.read_partial_uint(off..off + n).or_else(|_| abort("const read")) };
    match ty.kind() {
      TyKind::RigidTy(r) => match r {
        RigidTy::Bool => Ok(V::Bool(rd(1)? != 0)),
        RigidTy::Char => Ok(int(rd(4)? as i128)),
        RigidTy::Int(k) => {
          let n = k.num_bytes();
          let x = rd(n)?;
          let s = 128 - 8 * n as u32;
          Ok(int(((x << s) as i128) >> s))
        }
        RigidTy::Uint(k) => Ok(int(rd(k.num_bytes())? as i128)),
        RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
          let prov = a.provenance.ptrs.iter().find(|(s, _)| *s as usize == off).map(|x| x.1.clone());
          let Some(prov) = prov else { return Ok(V::Opaque(0)) };
          match GlobalAlloc::from(prov.0) {
            GlobalAlloc::Memory(m) => {
              if inner.kind().is_str() {
                let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                let b = m.raw_bytes().unwrap_or_default();
                return Ok(V::Str(Rc::from(String::from_utf8_lossy(&b[..len.min(b.len())]).as_ref())));
              }
              match inner.kind() {
                TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                  return Ok(V::Opaque(0));
                }
                _ => {}
              }
              *cacheable = false;
              let v = self.decode(st, inner, &m, 0, cacheable)?;
              let id = prov.0.to_index() + (1 << 40);
              if let Some(o) = st.statics.get(&id) {
                return Ok(ptr(Ptr::obj(*o)));
              }
              let o = st.heap.alloc(Obj { v, ty: Some(inner), strong: 1, weak: 0, label: 0 });
              Rc::make_mut(&mut st.statics).insert(id, o);
              Ok(ptr(Ptr::obj(o)))
            }
            GlobalAlloc::Static(d) => {
              *cacheable = false;
              let o = self.static_obj(st, d)?;
              Ok(ptr(Ptr::obj(o)))
            }
            GlobalAlloc::Function(i) => Ok(V::Fn(i.ty())),
            _ => Ok(V::Opaque(0)),
          }
        }
        RigidTy::Tuple(ts) => {
          let Ok(l) = ty.layout() else { return Ok(V::Opaque(0)) };
          let sh = l.shape();
          let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields else {
            return Ok(self.zst(ty));
          };
          let mut f = vec![];
          for (i, t) in ts.iter().enumerate() {
            f.push(self.decode(st, *t, a, off + offsets[i].bytes(), cacheable)?);
          }
          Ok(tup(f))
        }
        RigidTy::Array(t, n) => {
          let n = n.eval_target_usize().unwrap_or(0) as usize;
          let Ok(l) = t.layout() else { return Ok(V::Opaque(0)) };
          let sz = l.shape().size.bytes();
          if n > 64 {
            return Ok(V::Opaque(0));
          }
          let mut f = vec![];
          for i in 0..n {
            f.push(self.decode(st, t, a, off + i * sz, cacheable)?);
          }
          Ok(V::Seq(Rc::new(f)))
        }
        RigidTy::FnDef(..) | RigidTy::Closure(..) => Ok(self.zst(ty)),
        RigidTy::FnPtr(_) => {
          let prov = a.provenance.ptrs.iter().find(|(s, _)| *s as usize == off).map(|x| x.1.clone());
          match prov.map(|p| GlobalAlloc::from(p.0)) {
            Some(GlobalAlloc::Function(i)) => Ok(V::Fn(i.ty())),
            _ => Ok(V::Opaque(0)),
          }
        }
        RigidTy::Adt(d, args) => {
          let name = d.name();
          if name == "std::time::Duration" {
            let s = rd(8)? as i128;
            let n = a.read_partial_uint(off + 8..off + 12).unwrap_or(0) as i128;
            return Ok(int(s * 1_000_000_000 + n));
          }
          if name == "std::any::TypeId" {
            for (s, p) in a.provenance.ptrs.iter() {
              if *s as usize == off {
                if let GlobalAlloc::TypeId { ty } = GlobalAlloc::from(p.0) {
                  return Ok(V::TypeId(ty));
                }
              }
            }
            return Ok(V::Opaque(0));
          }
          if name.starts_with("std::sync::atomic::Atomic") {
            let n = ty.layout().map(|l| l.shape().size.bytes()).unwrap_or(8);
            let v = rd(n)? as i128;
            let b = ty_name(ty).contains("bool") || ty_name(ty).contains("Bool");
            return Ok(tup(vec![if b { V::Bool(v != 0) } else { int(v) }]));
          }
          let lk = name == "std::sync::Mutex" || name == "std::sync::RwLock";
          let Ok(l) = ty.layout() else { return Ok(V::Opaque(0)) };
          let sh = l.shape();
          if lk {
            let fs = d.variants()[0].fields();
            if let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields {
              for (i, f) in fs.iter().enumerate() {
                if f.name.as_str() == "data" {
                  // UnsafeCell<T>: transparent
                  if let TyKind::RigidTy(RigidTy::Adt(_, ua)) = f.ty_with_args(&args).kind() {
                    let it = ua.0[0].ty().unwrap();
                    let v = self.decode(st, *it, a, off + offsets[i].bytes(), cacheable)?;
                    return Ok(V::Lock(Rc::new(LockV {
                      v,
                      mutex: name == "std::sync::Mutex",
                      readers: vec![],
                      writer: None,
                    })));
                  }
                }
              }
            }
            return Ok(V::Opaque(0));
          }
          if name == "std::cell::UnsafeCell" {
            return self.decode(st, *args.0[0].ty().unwrap(), a, off, cacheable);
          }
          if name == "std::vec::Vec" || name == "std::collections::VecDeque" {
            return Ok(V::Seq(Rc::new(vec![])));
          }
          if sh.size.bytes() == 0 && d.num_variants() == 1 {
            return Ok(self.zst(ty));
          }
          if d.kind() == AdtKind::Struct {
            let fs = d.variants()[0].fields();
            let offs: Vec<usize> = match &sh.fields {
              rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
              _ => return Ok(V::Opaque(0)),
            };
            let mut f = vec![];
            for (i, fd) in fs.iter().enumerate() {
              f.push(self.decode(st, fd.ty_with_args(&args), a, off + offs[i], cacheable)?);
            }
            return Ok(V::Adt(Rc::new(Adt { ty: Some(ty), var: 0, f })));
          }
          if d.kind() == AdtKind::Enum {
            use rustc_public::abi::*;
            match &sh.variants {
              VariantsShape::Single { index } => {
                return Ok(V::Adt(Rc::new(Adt { ty: Some(ty), var: index.to_index() as u32, f: vec![] })));
              }
              VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let to = match &sh.fields {
                  FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                  _ => 0,
                };
                let tsz = match tag {
                  Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                    Primitive::Int { length, .. } => length.bits() / 8,
                    _ => 8,
                  },
                };
                let tv = match a.read_partial_uint(off + to..off + to + tsz) {
                  Ok(t) => t,
                  _ => return Ok(V::Opaque(0)),
                };
                let has_prov = a.provenance.ptrs.iter().any(|(s, _)| *s as usize == off + to);
                let vi = match tag_encoding {
                  TagEncoding::Direct => {
                    let mut r = 0;
                    for v in d.variants() {
                      if d.discriminant_for_variant(v.idx()).val == tv {
                        r = v.idx().to_index();
                      }
                    }
                    r
                  }
                  TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    let rel = tv.wrapping_sub(*niche_start);
                    let n = niche_variants.end().to_index() - niche_variants.start().to_index();
                    if !has_prov && rel <= n as u128 {
                      niche_variants.start().to_index() + rel as usize
                    } else {
                      untagged_variant.to_index()
                    }
                  }
                };
                let vd = d.variants()[vi].clone();
                let mut f = vec![];
                for (i, fd) in vd.fields().iter().enumerate() {
                  let o = variants[vi].offsets[i].bytes();
                  f.push(self.decode(st, fd.ty_with_args(&args), a, off + o, cacheable)?);
                }
                return Ok(V::Adt(Rc::new(Adt { ty: Some(ty), var: vi as u32, f })));
              }
              _ => {}
            }
          }
          Ok(V::Opaque(0))
        }
        _ => Ok(V::Opaque(0)),
      },
      _ => Ok(V::Opaque(0)),
    }
  }
  pub fn static_obj(&self, st: &mut State, d: StaticDef) -> R<u32> {
    let id = d.def_id().to_index();
    if let Some(o) = st.statics.get(&id) {
      return Ok(*o);
    }
    let ty = d.ty();
    let v = match d.eval_initializer() {
      Ok(a) => {
        let mut c = true;
        self.decode(st, ty, &a, 0, &mut c)?
      }
      Err(_) => V::Opaque(0),
    };
    let o = st.heap.alloc(Obj { v, ty: Some(ty), strong: 1, weak: 0, label: 0 });
    Rc::make_mut(&mut st.statics).insert(id, o);
    Ok(o)
  }

  // ---------------------------------------------------------------- decisions
  pub fn decide(&mut self, st: &mut State, n: u32) -> R<u32> {
    if n <= 1 {
      return Ok(0);
    }
    if st.fpos < st.forced.len() {
      let r = st.forced[st.fpos];
      st.fpos += 1;
      Ok(r)
    } else {
      Err(Stop::Fork(n))
    }
  }
  pub fn cmp_lin(&mut self, st: &mut State, a: Lin, b: Lin) -> R<Ordering> {
    if a.sym == b.sym {
      return Ok(a.off.cmp(&b.off));
    }
    let k = a.off - b.off;
    let hi = st.dbm.ub(a.sym, b.sym).map(|x| x + k);
    let lo = st.dbm.ub(b.sym, a.sym).map(|x| -x + k);
    let mut opts = vec![];
    if lo.map_or(true, |l| l < 0) {
      opts.push(Ordering::Less);
    }
    if lo.map_or(true, |l| l <= 0) && hi.map_or(true, |h| h >= 0) {
      opts.push(Ordering::Equal);
    }
    if hi.map_or(true, |h| h > 0) {
      opts.push(Ordering::Greater);
    }
    if opts.is_empty() {
      return Err(Stop::Infeasible);
    }
    let d = self.decide(st, opts.len() as u32)?;
    let o = opts[d as usize];
    let m = Rc::make_mut(&mut st.dbm);
    // a.sym - b.sym + k  (op) 0
    let okk = match o {
      Ordering::Less => m.add(a.sym, b.sym, -1 - k),
      Ordering::Equal => m.add(a.sym, b.sym, -k) && m.add(b.sym, a.sym, k),
      Ordering::Greater => m.add(b.sym, a.sym, k - 1),
    };
    if !okk {
      return Err(Stop::Infeasible);
    }
    Ok(o)
  }
  pub fn tok_eq(&mut self, st: &mut State, a: TermId, b: TermId) -> R<bool> {
    if a == b {
      return Ok(true);
    }
    let k = (a.min(b), a.max(b));
    if st.facts.ne.contains(&k) || st.facts.lt.contains(&(a, b)) || st.facts.lt.contains(&(b, a)) {
      return Ok(false);
    }
    if self.decide(st, 2)? == 0 {
      Rc::make_mut(&mut st.facts).ne.insert(k);
      Ok(false)
    } else {
      self.unify(st, a, b)?;
      Ok(true)
    }
  }
  pub fn tok_cmp(&mut self, st: &mut State, a: TermId, b: TermId) -> R<Ordering> {
    if a == b {
      return Ok(Ordering::Equal);
    }
    if st.facts.lt.contains(&(a, b)) {
      return Ok(Ordering::Less);
    }
    if st.facts.lt.contains(&(b, a)) {
      return Ok(Ordering::Greater);
    }
    let k = (a.min(b), a.max(b));
    let ne = st.facts.ne.contains(&k);
    let d = self.decide(st, if ne { 2 } else { 3 })?;
    match d {
      0 => {
        self.add_lt(st, a, b)?;
        Ok(Ordering::Less)
      }
      1 => {
        self.add_lt(st, b, a)?;
        Ok(Ordering::Greater)
      }
      _ => {
        self.unify(st, a, b)?;
        Ok(Ordering::Equal)
      }
    }
  }
  fn add_lt(&mut self, st: &mut State, a: TermId, b: TermId) -> R<()> {
    let f = Rc::make_mut(&mut st.facts);
    let mut pre: Vec<TermId> = f.lt.iter().filter(|x| x.1 == a).map(|x| x.0).collect();
    pre.push(a);
    let mut post: Vec<TermId> = f.lt.iter().filter(|x| x.0 == b).map(|x| x.1).collect();
    post.push(b);
    for x in &pre {
      for y in &post {
        if x == y || f.lt.contains(&(*y, *x)) {
          return Err(Stop::Infeasible);
        }
        f.lt.insert((*x, *y));
      }
    }
    Ok(())
  }
  fn subst_term(&mut self, t: TermId, from: TermId, to: TermId) -> TermId {
    if t == from {
      return to;
    }
    match self.terms[t as usize].clone() {
      Term::Fresh(_) => t,
      Term::App(f, a) => {
        let b: Vec<TermId> = a.iter().map(|x| self.subst_term(*x, from, to)).collect();
        if a == b {
          t
        } else {
          let mut b = b;
          if self.strs[f as usize] == "+" {
            b.sort();
          }
          let t = self.term(Term::App(f, b));
          let t = if t == from { to } else { t };
          match self.sub_rw.get(&t) {
            Some(r) => *r,
            None => t,
          }
        }
      }
    }
  }
  fn term_has(&self, t: TermId, x: TermId) -> bool {
    t == x
      || match &self.terms[t as usize] {
        Term::Fresh(_) => false,
        Term::App(_, a) => a.iter().any(|y| self.term_has(*y, x)),
      }
  }
  /// the representative of a term built now (arguments are representatives already)
  pub fn norm(&self, st: &State, t: TermId) -> TermId {
    match st.facts.rw.get(&t) {
      Some(r) => *r,
      None => t,
    }
  }
  fn subst_v(&mut self, v: &mut V, from: TermId, to: TermId) {
    match v {
      V::Tok(t) => *t = self.subst_term(*t, from, to),
      V::Adt(a) => {
        if has_tok_vec(&a.f) {
          for x in Rc::make_mut(a).f.iter_mut() {
            self.subst_v(x, from, to);
          }
        }
      }
      V::Seq(a) => {
        for x in Rc::make_mut(a).iter_mut() {
          self.subst_v(x, from, to);
        }
      }
      V::Map(a) => {
        for x in Rc::make_mut(a).iter_mut() {
          self.subst_v(&mut x.0, from, to);
          self.subst_v(&mut x.1, from, to);
        }
      }
      V::It(i) => match Rc::make_mut(i) {
        It::Own { v } => {
          for x in v {
            self.subst_v(x, from, to);
          }
        }
        It::MapOwn { v, .. } => {
          for x in v {
            self.subst_v(&mut x.0, from, to);
            self.subst_v(&mut x.1, from, to);
          }
        }
        _ => {}
      },
      V::Lock(l) => self.subst_v(&mut Rc::make_mut(l).v, from, to),
      _ => {}
    }
  }
  /// make a and b the same token everywhere
  pub fn unify(&mut self, st: &mut State, a: TermId, b: TermId) -> R<()> {
    // keep the structurally simpler one that does not contain the other
    let (from, to) = if self.term_has(a, b) {
      (a, b)
    } else if self.term_has(b, a) {
      (b, a)
    } else {
      match (&self.terms[a as usize], &self.terms[b as usize]) {
        (Term::Fresh(_), Term::App(..)) => (a, b),
        (Term::App(..), Term::Fresh(_)) => (b, a),
        _ => (a.max(b), a.min(b)),
      }
    };
    self.sub_rw = st.facts.rw.clone();
    let ids: Vec<u32> = st.heap.iter_ids().collect();
    for o in ids {
      let has = {
        let ob = st.heap.get(o).unwrap();
        has_tok(&ob.v)
      };
      if has {
        let mut v = std::mem::replace(&mut st.heap.get_mut(o).unwrap().v, V::Uninit);
        self.subst_v(&mut v, from, to);
        st.heap.get_mut(o).unwrap().v = v;
      }
    }
    for t in 0..st.threads.len() {
      let th = Rc::make_mut(&mut st.threads[t]);
      for f in th.stack.iter_mut() {
        if has_tok_vec(&f.locals) {
          let f = Rc::make_mut(f);
          for v in f.locals.iter_mut() {
            self.subst_v(v, from, to);
          }
        }
        if let FK::Drop(_) = f.k {
          if let FK::Drop(l) = &mut Rc::make_mut(f).k {
            for d in l.iter_mut() {
              if let DropItem::V(v) = d {
                self.subst_v(v, from, to);
              }
            }
          }
        }
      }
    }
    let f = (*st.facts).clone();
    let mut g = Facts::default();
    // rewrite rules: terms equal to another one that may be built again
    let mut more: Vec<(TermId, TermId)> = vec![];
    let mut rules: Vec<(TermId, TermId)> = f.rw.iter().map(|(l, r)| (*l, *r)).collect();
    if let Term::App(..) = self.terms[from as usize] {
      rules.push((from, to));
    }
    self.sub_rw.clear();
    for (l, r) in rules {
      let l2 = match self.terms[l as usize].clone() {
        Term::App(h, xs) => {
          let ys: Vec<TermId> = xs.iter().map(|x| self.subst_term(*x, from, to)).collect();
          self.term(Term::App(h, ys))
        }
        _ => l,
      };
      let r2 = self.subst_term(r, from, to);
      if l2 != r2 {
        match g.rw.insert(l2, r2) {
          Some(o) if o != r2 => more.push((o, r2)),
          _ => {}
        }
      }
    }
    self.sub_rw = g.rw.clone();
    for (t, b) in f.preds {
      let t2 = self.subst_term(t, from, to);
      if let Some(o) = g.preds.insert(t2, b) {
        if o != b {
          return Err(Stop::Infeasible);
        }
      }
    }
    for (x, y) in f.ne {
      let (x, y) = (self.subst_term(x, from, to), self.subst_term(y, from, to));
      if x == y {
        return Err(Stop::Infeasible);
      }
      g.ne.insert((x.min(y), x.max(y)));
    }
    let mut s2 = st.clone();
    s2.facts = Rc::new(g);
    for (x, y) in f.lt {
      let (x, y) = (self.subst_term(x, from, to), self.subst_term(y, from, to));
      if x == y {
        return Err(Stop::Infeasible);
      }
      self.add_lt(&mut s2, x, y)?;
    }
    st.facts = s2.facts;
    for (x, y) in more {
      if x != y {
        self.unify(st, x, y)?;
      }
    }
    Ok(())
  }
  pub fn pred(&mut self, st: &mut State, t: TermId) -> R<bool> {
    if let Some(b) = st.facts.preds.get(&t) {
      return Ok(*b);
    }
    let d = self.decide(st, 2)? == 1;
    Rc::make_mut(&mut st.facts).preds.insert(t, d);
    Ok(d)
  }
  /// structural equality, deciding token equalities as needed
  pub fn veq(&mut self, st: &mut State, a: &V, b: &V) -> R<bool> {
    match (a, b) {
      (V::Tok(x), V::Tok(y)) => self.tok_eq(st, *x, *y),
      (V::Int(x), V::Int(y)) => Ok(self.cmp_lin(st, *x, *y)? == Ordering::Equal),
      (V::Bool(x), V::Bool(y)) => Ok(x == y),
      (V::Str(x), V::Str(y)) => Ok(x == y),
      (V::TypeId(x), V::TypeId(y)) => Ok(x == y),
      (V::Thread(x), V::Thread(y)) => Ok(x == y),
      (V::Adt(x), V::Adt(y)) => {
        if x.var != y.var {
          return Ok(false);
        }
        let (x, y) = (x.clone(), y.clone());
        if x.f.len() != y.f.len() {
          return Ok(false);
        }
        for i in 0..x.f.len() {
          if !self.veq(st, &x.f[i], &y.f[i])? {
            return Ok(false);
          }
        }
        Ok(true)
      }
      (V::Seq(x), V::Seq(y)) => {
        if x.len() != y.len() {
          return Ok(false);
        }
        let (x, y) = (x.clone(), y.clone());
        for i in 0..x.len() {
          if !self.veq(st, &x[i], &y[i])? {
            return Ok(false);
          }
        }
        Ok(true)
      }
      (V::Ptr(x), V::Ptr(y)) => {
        let a = self.read(st, &x.p)?.clone();
        let b = self.read(st, &y.p)?.clone();
        self.veq(st, &a, &b)
      }
      (V::Ptr(x), _) => {
        let a = self.read(st, &x.p)?.clone();
        self.veq(st, &a, b)
      }
      (_, V::Ptr(y)) => {
        let b = self.read(st, &y.p)?.clone();
        self.veq(st, a, &b)
      }
      (V::Arc(x), V::Arc(y)) => {
        if x == y {
          return Ok(true);
        }
        let a = st.heap.get(*x).unwrap().v.clone();
        let b = st.heap.get(*y).unwrap().v.clone();
        self.veq(st, &a, &b)
      }
      _ => abort(format!("eq {:?} {:?}", std::mem::discriminant(a), std::mem::discriminant(b))),
    }
  }

  // ---------------------------------------------------------------- bodies and callees
  pub fn body(&mut self, inst: Instance) -> R<Rc<BodyInfo>> {
    if let Some(b) = self.bodies.get(&inst) {
      return Ok(b.clone());
    }
    let Some(body) = inst.body() else { return abort(format!("no MIR for {}", inst.name())) };
    let krate = inst.def.krate().name;
    let nl = body.locals().len();
    let na = body.arg_locals().len();
    let self_by_ref = na > 0
      && matches!(body.arg_locals()[0].ty.kind(), TyKind::RigidTy(RigidTy::Ref(..)));
    let nb = body.blocks.len();
    let mut loop_heads = vec![false; nb];
    // back edges by DFS
    let mut color = vec![0u8; nb];
    let mut stack = vec![(0usize, 0usize)];
    if nb > 0 {
      color[0] = 1;
    }
    while let Some((b, i)) = stack.pop() {
      let su = body.blocks[b].terminator.successors();
      if i < su.len() {
        stack.push((b, i + 1));
        let s = su[i];
        if color[s] == 0 {
          color[s] = 1;
          stack.push((s, 0));
        } else if color[s] == 1 {
          loop_heads[s] = true;
        }
      } else {
        color[b] = 2;
      }
    }
    let b = Rc::new(BodyInfo {
      id: self.bodies.len() as u32,
      name: inst.def.name().to_string(),
      nlocals: nl,
      nargs: na,
      self_by_ref,
      is_lib: krate == "another_rxrust",
      is_harness: krate == "harness",
      calls: Default::default(),
      consts: Default::default(),
      hit: RefCell::new(vec![false; nb]),
      loop_heads,
      body,
    });
    self.bodies.insert(inst, b.clone());
    Ok(b)
  }
  pub fn callee(&mut self, inst: Instance) -> Rc<Callee> {
    if let Some(c) = self.callees.get(&inst) {
      return c.clone();
    }
    let name = inst.def.name().to_string();
    let kind = match intrin::lookup(&name, &inst) {
      Some(h) => {
        self.handlers.push(h);
        CalleeKind::Handler((self.handlers.len() - 1) as u16)
      }
      None => {
        if inst.has_body() || inst.kind == InstanceKind::Shim {
          CalleeKind::Body
        } else {
          CalleeKind::Missing
        }
      }
    };
    let c = Rc::new(Callee { inst, name, kind, body: RefCell::new(None), args: inst.args() });
    self.callees.insert(inst, c.clone());
    c
  }
  pub fn call_site(&mut self, b: &Rc<BodyInfo>, bb: usize, func: &Operand) -> R<CallSite> {
    if let Some(c) = b.calls.borrow().get(&bb) {
      return Ok(c.clone());
    }
    let ty = func.ty(b.body.locals()).or_else(|_| abort("func ty"))?;
    let cs = match ty.kind() {
      TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.resolve(d, &a)?,
      _ => CallSite::FnPtr,
    };
    b.calls.borrow_mut().insert(bb, cs.clone());
    Ok(cs)
  }
  pub fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> R<CallSite> {
    let n = d.name().to_string();
    let fam = match n.as_str() {
      "std::ops::Fn::call" => Some(false),
      "std::ops::FnMut::call_mut" => Some(false),
      "std::ops::FnOnce::call_once" => Some(true),
      _ => None,
    };
    if let Some(byval) = fam {
      let st = *a.0[0].ty().unwrap();
      return Ok(CallSite::FnTrait(st, byval));
    }
    let Ok(inst) = Instance::resolve(d, a) else { return abort(format!("resolve {}", n)) };
    if let InstanceKind::Virtual { .. } = inst.kind {
      return Ok(CallSite::Virtual(d, a.clone()));
    }
    Ok(CallSite::Direct(self.callee(inst)))
  }

  pub fn push_frame(&mut self, st: &mut State, b: Rc<BodyInfo>, args: Vec<V>) -> R<()> {
    let mut args = args;
    if args.len() != b.nargs {
      // "rust-call": untuple the last argument
      if args.len() == 2 && b.nargs >= 1 {
        let t = args.pop().unwrap();
        match t {
          V::Adt(a) => args.extend(a.f.iter().cloned()),
          _ => return abort("untuple"),
        }
      }
      if args.len() != b.nargs {
        return abort(format!("arity {} {} {}", b.name, args.len(), b.nargs));
      }
    }
    let mut locals = Vec::with_capacity(b.nlocals);
    locals.push(V::Uninit);
    locals.extend(args);
    locals.resize(b.nlocals, V::Uninit);
    let th = self.thread_mut(st);
    if th.stack.len() > 600 {
      return Err(Stop::Bug("C07".into(), "stack-overflow".into(), format!("unbounded recursion in {}", b.name)));
    }
    th.stack.push(Rc::new(Frame { k: FK::Mir(b), bb: 0, si: 0, locals }));
    Ok(())
  }
  pub fn push_drop(&mut self, st: &mut State, items: Vec<DropItem>) {
    let th = self.thread_mut(st);
    th.stack.push(Rc::new(Frame { k: FK::Drop(items), bb: 0, si: 0, locals: vec![] }));
  }
  /// dynamic type behind a pointer-like receiver
  pub fn dyn_ty(&self, st: &State, v: &V) -> R<Ty> {
    match v {
      V::Ptr(p) => {
        if let Some(t) = p.dynty {
          return Ok(t);
        }
        if p.p.path.is_empty() {
          if let Base::Obj(o) = p.p.base {
            if let Some(t) = st.heap.get(o).and_then(|o| o.ty) {
              return Ok(t);
            }
          }
        }
        abort("dyn type unknown")
      }
      V::Box(o, t) => match t.or(st.heap.get(*o).and_then(|o| o.ty)) {
        Some(t) => Ok(t),
        None => abort("dyn type unknown (box)"),
      },
      V::Arc(o) => match st.heap.get(*o).and_then(|o| o.ty) {
        Some(t) => Ok(t),
        None => abort("dyn type unknown (arc)"),
      },
      _ => abort("dyn receiver"),
    }
  }
  /// call a value of type `sty` through an Fn-family trait; `selfv` is the receiver argument
  pub fn call_fn(&mut self, st: &mut State, sty: Ty, byval: bool, selfv: V, argt: V) -> R<Out> {
    match sty.kind() {
      TyKind::RigidTy(RigidTy::Closure(d, a)) => {
        let Ok(inst) = Instance::resolve_closure(d, &a, ClosureKind::Fn)
          .or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnMut))
          .or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnOnce))
        else {
          return abort("closure resolve");
        };
        let mut b = self.body(inst)?;
        // resolve_closure with a kind the closure does not have yields a shim; find the real one
        if inst.kind == InstanceKind::Shim {
          for k in [ClosureKind::FnMut, ClosureKind::FnOnce] {
            if let Ok(i) = Instance::resolve_closure(d, &a, k) {
              if i.kind == InstanceKind::Item {
                b = self.body(i)?;
                break;
              }
            }
          }
        }
        let V::Adt(t) = argt else { return abort("fn args") };
        let mut args = Vec::with_capacity(1 + t.f.len());
        if byval && b.self_by_ref {
          let o = st.heap.alloc(Obj { v: selfv, ty: Some(sty), strong: 1, weak: 0, label: 0 });
          let th = self.thread_mut(st);
          th.stack.push(Rc::new(Frame { k: FK::AfterOnce(o, None), bb: 0, si: 0, locals: vec![] }));
          args.push(ptr(Ptr::obj(o)));
        } else if !byval && !b.self_by_ref {
          return abort("FnOnce closure called by reference");
        } else {
          args.push(selfv);
        }
        args.extend(t.f.iter().cloned());
        // bypass untupling: argument count matches
        self.push_frame(st, b, args)?;
        Ok(Out::Pushed)
      }
      TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
        let V::Adt(t) = argt else { return abort("fn args") };
        let cs = self.resolve(d, &a)?;
        self.invoke(st, cs, t.f.clone())
      }
      TyKind::RigidTy(RigidTy::FnPtr(_)) => {
        let f = if byval { selfv } else { self.deref_val(st, &selfv)? };
        let V::Fn(t) = f else {
          if let V::Adt(a) = &f {
            if let Some(t) = a.ty {
              return self.call_fn(st, t, true, f.clone(), argt);
            }
          }
          return abort("fn pointer");
        };
        self.call_fn(st, t, true, V::Fn(t), argt)
      }
      TyKind::RigidTy(RigidTy::Ref(_, inner, _)) => {
        let v = if byval { selfv } else { self.deref_val(st, &selfv)? };
        self.call_fn(st, inner, false, v, argt)
      }
      TyKind::RigidTy(RigidTy::Dynamic(..)) => {
        let t = self.dyn_ty(st, &selfv)?;
        self.call_fn(st, t, false, selfv, argt)
      }
      TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => {
        let inner = *a.0[0].ty().unwrap();
        if byval {
          let V::Box(o, t) = selfv else { return abort("box call") };
          let dt = match inner.kind() {
            TyKind::RigidTy(RigidTy::Dynamic(..)) => self.dyn_ty(st, &V::Box(o, t))?,
            _ => inner,
          };
          let ob = st.heap.free(o).unwrap();
          self.call_fn(st, dt, true, ob.v.clone(), argt)
        } else {
          let v = self.deref_val(st, &selfv)?;
          let V::Box(o, t) = v else { return abort("box call") };
          let p = V::Ptr(Rc::new(PtrV { p: Ptr::obj(o), dynty: t, sub: None }));
          self.call_fn(st, inner, false, p, argt)
        }
      }
      k => abort(format!("call of {:?}", k)),
    }
  }
  pub fn deref_val(&self, st: &State, v: &V) -> R<V> {
    match v {
      V::Ptr(p) => Ok(self.read(st, &p.p)?.clone()),
      V::Box(o, _) => Ok(st.heap.get(*o).unwrap().v.clone()),
      V::Arc(o) => Ok(st.heap.get(*o).unwrap().v.clone()),
      v => Ok(v.clone()),
    }
  }
  pub fn invoke(&mut self, st: &mut State, cs: CallSite, mut args: Vec<V>) -> R<Out> {
    match cs {
      CallSite::FnTrait(t, byval) => {
        if args.len() != 2 {
          return abort("fn trait arity");
        }
        let a = args.pop().unwrap();
        let s = args.pop().unwrap();
        self.call_fn(st, t, byval, s, a)
      }
      CallSite::Virtual(d, a) => {
        let t = self.dyn_ty(st, &args[0])?;
        let mut a2 = a.0.clone();
        a2[0] = GenericArgKind::Type(t);
        let a2 = GenericArgs(a2);
        let cs = self.resolve(d, &a2)?;
        // strip the dynamic type: the receiver is now concrete
        if let V::Ptr(p) = &args[0] {
          args[0] = V::Ptr(Rc::new(PtrV { p: p.p.clone(), dynty: None, sub: p.sub }));
        }
        self.invoke(st, cs, args)
      }
      CallSite::Direct(c) => match c.kind {
        CalleeKind::Handler(h) => {
          let f = self.handlers[h as usize].f;
          f(self, st, &c, args)
        }
        CalleeKind::Body => {
          let b = {
            let x = c.body.borrow().clone();
            match x {
              Some(b) => b,
              None => {
                let b = self.body(c.inst)?;
                *c.body.borrow_mut() = Some(b.clone());
                b
              }
            }
          };
          self.push_frame(st, b, args)?;
          Ok(Out::Pushed)
        }
        CalleeKind::Missing => {
          // a variant constructor used as a function
          if let Some(sig) = c.inst.ty().kind().fn_sig() {
            let out = sig.skip_binder().output();
            if let TyKind::RigidTy(RigidTy::Adt(def, _)) = out.kind() {
              let last = c.name.rsplit("::").find(|x| x.chars().next().map_or(false, |c| c.is_uppercase()));
              if let Some(last) = last {
                if let Some(vi) = def.variants().iter().position(|v| v.name() == last && v.fields().len() == args.len()) {
                  return Ok(Out::Ret(V::Adt(Rc::new(Adt { ty: Some(out), var: vi as u32, f: args }))));
                }
              }
            }
          }
          abort(format!("no model for {}", c.name))
        }
      },
      CallSite::FnPtr => abort("fnptr"),
    }
  }
  /// call a harness shim whose generic parameters are the types of its parameters (plus extras)
  pub fn call_shim(&mut self, st: &mut State, name: &str, tys: Vec<GenericArgKind>, args: Vec<V>) -> R<Out> {
    let Some(d) = self.shims.get(name).cloned() else { return abort(format!("no shim {}", name)) };
    let ga = GenericArgs(tys);
    let Ok(inst) = Instance::resolve(d, &ga) else { return abort(format!("shim resolve {}", name)) };
    let c = self.callee(inst);
    self.invoke(st, CallSite::Direct(c), args)
  }

  /// deliver a return value to the frame on top
  pub fn deliver(&mut self, st: &mut State, v: V) -> R<()> {
    let th = self.thread_mut(st);
    if th.stack.is_empty() {
      th.result = Some(v);
      th.st = Status::Done;
      return Ok(());
    }
    let f = Rc::make_mut(th.stack.last_mut().unwrap());
    match &mut f.k {
      FK::Drop(_) => Ok(()),
      FK::AfterOnce(_, r) => {
        *r = Some(v);
        Ok(())
      }
      FK::Mir(b) => {
        let b = b.clone();
        let bb = f.bb as usize;
        match &b.body.blocks[bb].terminator.kind {
          TerminatorKind::Call { destination, target, .. } => {
            let Some(t) = target else { return abort("return to diverging call") };
            if destination.projection.is_empty() {
              f.locals[destination.local] = v;
            } else {
              let (p, _) = self.place(st, destination)?;
              self.write(st, &p, v)?;
            }
            let f = self.top_mut(st);
            f.bb = *t as u32;
            f.si = 0;
            Ok(())
          }
          _ => abort("deliver to non-call"),
        }
      }
    }
  }

  // ---------------------------------------------------------------- drops
  pub fn user_drop(&mut self, ty: Ty) -> Option<Instance> {
    if let Some(x) = self.drop_impl.borrow().get(&ty) {
      return *x;
    }
    let mut r = None;
    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
      let k = d.krate().name;
      if k == "another_rxrust" || k == "harness" {
        let inst = Instance::resolve_drop_in_place(ty);
        if let Some(b) = inst.body() {
          for bb in &b.blocks {
            if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
              if let Ok(t) = func.ty(b.locals()) {
                if let TyKind::RigidTy(RigidTy::FnDef(fd, a)) = t.kind() {
                  if fd.name().ends_with("Drop::drop") {
                    if *a.0[0].ty().unwrap() == ty {
                      r = Instance::resolve(fd, &a).ok();
                    }
                  }
                }
              }
            }
          }
        }
      }
    }
    self.drop_impl.borrow_mut().insert(ty, r);
    r
  }
  pub fn drop_step(&mut self, st: &mut State) -> R<()> {
    loop {
      // a lock's release matters to try_lock only
      if self.try_ops && st.conc {
        if let FK::Drop(l) = &self.top(st).k {
          if let Some(DropItem::V(V::Guard(_))) = l.last() {
            self.preempt(st)?;
          }
        }
      }
      let item = {
        let f = self.top_mut(st);
        match &mut f.k {
          FK::Drop(l) => l.pop(),
          _ => return Ok(()),
        }
      };
      let Some(item) = item else {
        let th = self.thread_mut(st);
        th.stack.pop();
        if th.stack.is_empty() {
          th.st = Status::Done;
        }
        return Ok(());
      };
      let mut more: Vec<DropItem> = vec![];
      match item {
        DropItem::Fields(o) => {
          if let Some(ob) = st.heap.free(o) {
            if let V::Adt(a) = &ob.v {
              for x in a.f.iter().rev() {
                more.push(DropItem::V(x.clone()));
              }
            }
          }
        }
        DropItem::V(v) => match v {
          V::Adt(a) => {
            let ud = match a.ty {
              Some(t) => {
                if a.f.is_empty() || true {
                  self.user_drop(t)
                } else {
                  None
                }
              }
              None => None,
            };
            if let Some(inst) = ud {
              let ty = a.ty;
              let o = st.heap.alloc(Obj { v: V::Adt(a), ty, strong: 1, weak: 0, label: 0 });
              let f = self.top_mut(st);
              if let FK::Drop(l) = &mut f.k {
                l.push(DropItem::Fields(o));
              }
              let c = self.callee(inst);
              let _ = self.invoke(st, CallSite::Direct(c), vec![ptr(Ptr::obj(o))])?;
              return Ok(());
            }
            if let Some(t) = a.ty {
              if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() {
                if d.name() == "std::mem::ManuallyDrop" || d.name() == "std::mem::MaybeUninit" {
                  continue;
                }
              }
            }
            for x in a.f.iter().rev() {
              if droppable(x) {
                more.push(DropItem::V(x.clone()));
              }
            }
          }
          V::Box(o, _) => {
            if let Some(ob) = st.heap.free(o) {
              more.push(DropItem::V(ob.v.clone()));
            }
          }
          V::Arc(o) => {
            let Some(ob) = st.heap.get_mut(o) else { return abort("drop of dead arc") };
            ob.strong -= 1;
            if ob.strong == 0 {
              let v = std::mem::replace(&mut ob.v, V::Uninit);
              if ob.weak == 0 {
                st.heap.free(o);
              }
              more.push(DropItem::V(v));
            }
          }
          V::Weak(o) => {
            if o != u32::MAX {
              if let Some(ob) = st.heap.get_mut(o) {
                ob.weak -= 1;
                if ob.weak == 0 && ob.strong == 0 {
                  st.heap.free(o);
                }
              }
            }
          }
          V::Seq(s) => {
            for x in s.iter().rev() {
              if droppable(x) {
                more.push(DropItem::V(x.clone()));
              }
            }
          }
          V::Map(s) => {
            for x in s.iter().rev() {
              more.push(DropItem::V(x.1.clone()));
              more.push(DropItem::V(x.0.clone()));
            }
          }
          V::It(i) => match &*i {
            It::Own { v } => {
              for x in v.iter().rev() {
                more.push(DropItem::V(x.clone()));
              }
            }
            It::MapOwn { v, .. } => {
              for x in v.iter().rev() {
                more.push(DropItem::V(x.1.clone()));
                more.push(DropItem::V(x.0.clone()));
              }
            }
            _ => {}
          },
          V::Lock(l) => more.push(DropItem::V(l.v.clone())),
          V::Guard(g) => self.release(st, &g.0, g.1)?,
          _ => {}
        },
      }
      if !more.is_empty() {
        let f = self.top_mut(st);
        if let FK::Drop(l) = &mut f.k {
          l.extend(more);
        }
      }
    }
  }

  // ---------------------------------------------------------------- locks
  pub fn release(&mut self, st: &mut State, p: &Ptr, write: bool) -> R<()> {
    let me = st.cur;
    if let V::Lock(l) = self.lval(st, p)? {
      let l = Rc::make_mut(l);
      if write {
        l.writer = None;
      } else if let Some(i) = l.readers.iter().position(|t| *t == me) {
        l.readers.remove(i);
      } else {
        l.readers.pop();
      }
    }
    let th = self.thread_mut(st);
    if let Some(i) = th.held.iter().rposition(|h| h.0 == *p && h.1 == write) {
      th.held.remove(i);
    }
    self.wake_lock(st, p);
    Ok(())
  }
  fn wake_lock(&mut self, st: &mut State, p: &Ptr) {
    for t in 0..st.threads.len() {
      let w = match &st.threads[t].st {
        Status::Lock(q, _) => q == p,
        Status::Cond { mutex, notified: true, .. } => mutex == p,
        _ => false,
      };
      if w {
        // retried when scheduled
        if let Status::Lock(..) = st.threads[t].st {
          let w = if let Status::Lock(_, w) = st.threads[t].st { w } else { false };
          if self.can_lock(st, p, w, t as u16) {
            Rc::make_mut(&mut st.threads[t]).st = Status::Run;
          }
        }
      }
    }
  }
  pub fn can_lock(&self, st: &State, p: &Ptr, write: bool, me: u16) -> bool {
    let Ok(V::Lock(l)) = self.read(st, p) else { return true };
    if l.writer.is_some() {
      return false;
    }
    if write || l.mutex {
      return l.readers.is_empty();
    }
    // writer-preferring: a waiting writer blocks new readers while readers hold the lock
    if !l.readers.is_empty() {
      for (i, t) in st.threads.iter().enumerate() {
        if i as u16 != me {
          if let Status::Lock(q, true) = &t.st {
            if q == p {
              return false;
            }
          }
        }
      }
    }
    true
  }
  pub fn lock_name(&self, st: &State, p: &Ptr) -> String {
    let what = match self.read(st, p) {
      Ok(V::Lock(l)) => match &l.v {
        V::Map(_) => "map",
        V::Seq(_) => "seq",
        V::Int(_) => "int",
        V::Bool(_) => "bool",
        V::Adt(_) => "struct/option",
        _ => "value",
      },
      _ => "?",
    };
    let lb = match p.base {
      Base::Obj(o) => st.heap.get(o).map(|o| o.label).unwrap_or(0),
      _ => 0,
    };
    format!("lock<{}>@{}", what, self.strs.get(lb as usize).cloned().unwrap_or_default())
  }
  /// innermost library function on the stack
  pub fn lib_site(&self, st: &State) -> String {
    for f in st.threads[st.cur as usize].stack.iter().rev() {
      if let FK::Mir(b) = &f.k {
        if b.is_lib {
          return b.name.clone();
        }
      }
    }
    "harness".into()
  }
  pub fn preempt(&mut self, st: &mut State) -> R<()> {
    if !st.conc {
      return Ok(());
    }
    if st.forced.is_empty() && st.threads.len() > 1 {
      // a state reached before in another interleaving has been continued already
      // (with at least as many preemptions left)
      let b = st.budget;
      st.budget = 0;
      let k = crate::canon::key(self, st);
      st.budget = b;
      match self.visited_conc.get(&k) {
        Some(x) if *x >= b => {
          self.stats.merged += 1;
          return Err(Stop::Parked);
        }
        _ => {
          self.visited_conc.insert(k, b);
        }
      }
    }
    if st.budget == 0 {
      return Ok(());
    }
    let others: Vec<u16> = (0..st.threads.len() as u16)
      .filter(|t| *t != st.cur && st.threads[*t as usize].st == Status::Run)
      .collect();
    if others.is_empty() {
      return Ok(());
    }
    let d = self.decide(st, 1 + others.len() as u32)?;
    if d == 0 {
      return Ok(());
    }
    Err(Stop::SwitchTo(others[d as usize - 1]))
  }
  pub fn acquire(&mut self, st: &mut State, p: &Ptr, write: bool) -> R<V> {
    self.stats.locks += 1;
    let me = st.cur;
    if !matches!(self.read(st, p)?, V::Lock(_)) {
      return abort("lock of non-lock");
    }
    self.preempt(st)?;
    if !self.can_lock(st, p, write, me) {
      // self deadlock?
      let (w, r) = match self.read(st, p)? {
        V::Lock(l) => (l.writer == Some(me), l.readers.contains(&me)),
        _ => (false, false),
      };
      if w || (r && write) {
        let site = self.lib_site(st);
        let held = self.lock_name(st, p);
        return Err(Stop::Bug(
          "C07".into(),
          format!("self-deadlock in {} on {}", site, held),
          format!("{} acquires {} ({}) while the same thread already holds it", site, held, if write { "write" } else { "read" }),
        ));
      }
      return Err(Stop::Block(Status::Lock(p.clone(), write)));
    }
    self.acquire_now(st, p, write)
  }
  pub fn acquire_now(&mut self, st: &mut State, p: &Ptr, write: bool) -> R<V> {
    let me = st.cur;
    if let V::Lock(l) = self.lval(st, p)? {
      let l = Rc::make_mut(l);
      if write || l.mutex {
        l.writer = Some(me);
      } else {
        l.readers.push(me);
      }
    }
    self.thread_mut(st).held.push((p.clone(), write));
    Ok(V::Guard(Rc::new((p.clone(), write))))
  }

  // ---------------------------------------------------------------- statements
  pub fn ty_of(&self, b: &BodyInfo, op: &Operand) -> R<Ty> {
    op.ty(b.body.locals()).or_else(|_| abort("operand ty"))
  }
  pub fn wrap(&self, x: i128, ty: Ty) -> (i128, bool) {
    let (bits, signed) = int_bits(ty);
    if bits == 0 || bits >= 128 {
      return (x, false);
    }
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    if x >= lo && x <= hi {
      return (x, false);
    }
    let m = 1i128 << bits;
    let mut y = x.rem_euclid(m);
    if signed && y > hi {
      y -= m;
    }
    (y, true)
  }
  fn binop(&mut self, st: &mut State, op: BinOp, a: V, b: V, ty: Ty, checked: bool) -> R<V> {
    use BinOp::*;
    let mk = |v: V, o: bool| if checked { tup(vec![v, V::Bool(o)]) } else { v };
    if let (V::Opaque(_), _) | (_, V::Opaque(_)) = (&a, &b) {
      return abort(format!("binop {:?} on opaque in {}", op, self.fname(st)));
    }
    match op {
      Eq | Ne | Lt | Le | Gt | Ge | Cmp => {
        let o = match (&a, &b) {
          (V::Int(x), V::Int(y)) => self.cmp_lin(st, *x, *y)?,
          (V::Bool(x), V::Bool(y)) => x.cmp(y),
          (V::Ptr(x), V::Ptr(y)) => {
            if x.p == y.p {
              Ordering::Equal
            } else {
              x.p.cmp(&y.p)
            }
          }
          (V::Box(x, _), V::Box(y, _)) => x.cmp(y),
          (V::Fn(x), V::Fn(y)) => {
            if x == y {
              Ordering::Equal
            } else {
              Ordering::Less
            }
          }
          (V::Adt(x), V::Adt(y)) if x.f.is_empty() && y.f.is_empty() => x.var.cmp(&y.var),
          (V::TypeId(x), V::TypeId(y)) => {
            if x == y {
              Ordering::Equal
            } else {
              Ordering::Less
            }
          }
          _ => return abort(format!("compare {:?} {:?}", a, b)),
        };
        Ok(match op {
          Eq => V::Bool(o == Ordering::Equal),
          Ne => V::Bool(o != Ordering::Equal),
          Lt => V::Bool(o == Ordering::Less),
          Le => V::Bool(o != Ordering::Greater),
          Gt => V::Bool(o == Ordering::Greater),
          Ge => V::Bool(o != Ordering::Less),
          _ => ordering(o),
        })
      }
      Add | AddUnchecked | Sub | SubUnchecked | Mul | MulUnchecked => {
        let (V::Int(x), V::Int(y)) = (&a, &b) else { return abort("arith") };
        let neg = matches!(op, Sub | SubUnchecked);
        if matches!(op, Mul | MulUnchecked) {
          if x.sym == 0 && y.sym == 0 {
            let (r, o) = match x.off.checked_mul(y.off) {
              Some(p) => self.wrap(p, ty),
              None => (0, true),
            };
            return Ok(mk(int(r), o));
          }
          return abort("symbolic mul");
        }
        if y.sym == 0 {
          let o = if neg { x.off - y.off } else { x.off + y.off };
          if x.sym == 0 {
            let (r, ov) = self.wrap(o, ty);
            return Ok(mk(int(r), ov));
          }
          let r = Lin { sym: x.sym, off: o };
          // unsigned subtraction may go below zero
          if neg && checked && !int_bits(ty).1 {
            let o = self.cmp_lin(st, r, Lin::c(0))?;
            return Ok(mk(V::Int(r), o == Ordering::Less));
          }
          return Ok(mk(V::Int(r), false));
        }
        if neg && x.sym == y.sym {
          let (r, ov) = self.wrap(x.off - y.off, ty);
          return Ok(mk(int(r), ov));
        }
        if !neg && x.sym == 0 {
          return Ok(mk(V::Int(Lin { sym: y.sym, off: x.off + y.off }), false));
        }
        abort("symbolic arith")
      }
      Div | Rem => {
        let (V::Int(x), V::Int(y)) = (&a, &b) else { return abort("arith") };
        if x.sym != 0 || y.sym != 0 || y.off == 0 {
          return abort("symbolic div");
        }
        Ok(int(if op == Div { x.off / y.off } else { x.off % y.off }))
      }
      BitAnd | BitOr | BitXor => match (&a, &b) {
        (V::Bool(x), V::Bool(y)) => Ok(V::Bool(match op {
          BitAnd => *x & *y,
          BitOr => *x | *y,
          _ => *x ^ *y,
        })),
        (V::Int(Lin { sym: 0, off: x }), V::Int(Lin { sym: 0, off: y })) => Ok(int(match op {
          BitAnd => x & y,
          BitOr => x | y,
          _ => x ^ y,
        })),
        _ => abort("bitop"),
      },
      Shl | ShlUnchecked | Shr | ShrUnchecked => {
        let (V::Int(Lin { sym: 0, off: x }), V::Int(Lin { sym: 0, off: y })) = (&a, &b) else {
          return abort("shift");
        };
        let r = if matches!(op, Shl | ShlUnchecked) { x << (y & 127) } else { x >> (y & 127) };
        Ok(mk(int(self.wrap(r, ty).0), false))
      }
      Offset => abort("pointer offset"),
    }
  }
  fn is_sym(&self, st: &State, op: &Operand) -> bool {
    match op {
      Operand::Copy(p) | Operand::Move(p) => match self.place(st, p) {
        Ok((q, _)) => matches!(self.read(st, &q), Ok(V::Int(l)) if l.sym != 0),
        _ => false,
      },
      _ => false,
    }
  }
  pub fn rvalue(&mut self, st: &mut State, b: &Rc<BodyInfo>, r: &Rvalue) -> R<V> {
    match r {
      Rvalue::Use(op, _) => self.operand(st, op, true),
      Rvalue::CopyForDeref(p) => {
        let (q, _) = self.place(st, p)?;
        Ok(self.read(st, &q)?.clone())
      }
      Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
        // reborrow of a string constant keeps the value
        let (q, m) = self.place(st, p)?;
        if let Some(m) = m {
          return Ok(V::Ptr(Rc::new(PtrV { p: q, dynty: m.dynty, sub: m.sub })));
        }
        if matches!(p.projection.last(), Some(ProjectionElem::Deref)) {
          if let Ok(v @ (V::Str(_) | V::Opaque(_))) = self.read(st, &q) {
            return Ok(v.clone());
          }
        }
        Ok(ptr(q))
      }
      Rvalue::BinaryOp(op, x, y) => {
        let ty = self.ty_of(b, x)?;
        let a = self.operand(st, x, false)?;
        let c = self.operand(st, y, false)?;
        self.binop(st, *op, a, c, ty, false)
      }
      Rvalue::CheckedBinaryOp(op, x, y) => {
        let ty = self.ty_of(b, x)?;
        let a = self.operand(st, x, false)?;
        let c = self.operand(st, y, false)?;
        self.binop(st, *op, a, c, ty, true)
      }
      Rvalue::UnaryOp(op, x) => {
        let ty = self.ty_of(b, x)?;
        let a = self.operand(st, x, false)?;
        match (op, &a) {
          (UnOp::Not, V::Bool(x)) => Ok(V::Bool(!x)),
          (UnOp::Not, V::Int(l)) if l.sym == 0 => Ok(int(self.wrap(!l.off, ty).0)),
          (UnOp::Neg, V::Int(l)) if l.sym == 0 => Ok(int(self.wrap(-l.off, ty).0)),
          (UnOp::PtrMetadata, V::Ptr(p)) => Ok(int(self.seq_len(st, &p.p, p.sub)? as i128)),
          (UnOp::PtrMetadata, V::Box(o, _)) => Ok(int(self.seq_len(st, &Ptr::obj(*o), None)? as i128)),
          (UnOp::PtrMetadata, V::Str(s)) => Ok(int(s.len() as i128)),
          _ => abort("unop"),
        }
      }
      Rvalue::Cast(k, op, ty) => {
        let from = self.ty_of(b, op)?;
        let v = self.operand(st, op, true)?;
        match k {
          CastKind::IntToInt => match v {
            V::Int(l) if l.sym == 0 => Ok(int(self.wrap(l.off, *ty).0)),
            V::Bool(x) => Ok(int(x as i128)),
            V::Adt(a) => Ok(int(a.var as i128)),
            v => Ok(v),
          },
          CastKind::PointerCoercion(PointerCoercion::Unsize) => {
            // record the concrete type behind a new trait object
            let (fi, ti) = (pointee(from), pointee(*ty));
            if let (Some(fi), Some(ti)) = (fi, ti) {
              if matches!(ti.kind(), TyKind::RigidTy(RigidTy::Dynamic(..)))
                && !matches!(fi.kind(), TyKind::RigidTy(RigidTy::Dynamic(..)))
              {
                return Ok(match v {
                  V::Ptr(p) => V::Ptr(Rc::new(PtrV { p: p.p.clone(), dynty: Some(fi), sub: p.sub })),
                  V::Box(o, _) => {
                    if let Some(ob) = st.heap.get_mut(o) {
                      ob.ty = Some(fi);
                    }
                    V::Box(o, Some(fi))
                  }
                  V::Arc(o) => {
                    if let Some(ob) = st.heap.get_mut(o) {
                      ob.ty = Some(fi);
                    }
                    V::Arc(o)
                  }
                  v => v,
                });
              }
            }
            Ok(v)
          }
          CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_))
          | CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match v {
            V::Fn(_) => Ok(v),
            V::Adt(_) => Ok(V::Fn(from)),
            v => Ok(v),
          },
          CastKind::PtrToPtr => match v {
            V::Ptr(p) => {
              let keep = match pointee(*ty).map(|t| t.kind()) {
                Some(TyKind::RigidTy(RigidTy::Dynamic(..))) => p.dynty,
                _ => None,
              };
              Ok(V::Ptr(Rc::new(PtrV { p: p.p.clone(), dynty: keep, sub: p.sub })))
            }
            v => Ok(v),
          },
          CastKind::FloatToInt | CastKind::IntToFloat | CastKind::FloatToFloat => Ok(V::Opaque(0)),
          _ => Ok(v),
        }
      }
      Rvalue::Aggregate(k, ops) => {
        let mut f = Vec::with_capacity(ops.len());
        for o in ops {
          f.push(self.operand(st, o, true)?);
        }
        match k {
          AggregateKind::Array(_) => Ok(V::Seq(Rc::new(f))),
          AggregateKind::Tuple => Ok(tup(f)),
          AggregateKind::Adt(d, v, a, _, fi) => {
            if let Some(i) = fi {
              // union: keep the single field at its index
              let mut g = vec![V::Uninit; *i + 1];
              g[*i] = f.pop().unwrap();
              f = g;
            }
            let key = (d.def_id(), v.to_index());
            let _ = key;
            let ty = d.ty_with_args(a);
            Ok(V::Adt(Rc::new(Adt { ty: Some(ty), var: v.to_index() as u32, f })))
          }
          AggregateKind::Closure(d, a) => {
            let ty = Ty::new_closure(*d, a.clone());
            Ok(V::Adt(Rc::new(Adt { ty: Some(ty), var: 0, f })))
          }
          AggregateKind::RawPtr(..) => Ok(f.swap_remove(0)),
          _ => abort("aggregate kind"),
        }
      }
      Rvalue::Discriminant(p) => {
        let (q, _) = self.place(st, p)?;
        match self.read(st, &q)? {
          V::Adt(a) => {
            let var = a.var;
            let ty = p.ty(b.body.locals()).or_else(|_| abort("place ty"))?;
            self.discr(ty, var)
          }
          V::Uninit => {
            // optimised std code reads it from types with a single inhabited variant
            let ty = p.ty(b.body.locals()).or_else(|_| abort("place ty"))?;
            match ty.layout().map(|l| l.shape().variants) {
              Ok(rustc_public::abi::VariantsShape::Single { index }) => self.discr(ty, index.to_index() as u32),
              _ => abort(format!("discriminant of an uninitialised value in {}", b.name)),
            }
          }
          V::Opaque(_) => abort(format!("discriminant of opaque in {}", b.name)),
          V::Bool(x) => Ok(int(*x as i128)),
          v => abort(format!("discriminant of {:?} in {}", v, b.name)),
        }
      }
      Rvalue::Len(p) => {
        let (q, m) = self.place(st, p)?;
        Ok(int(self.seq_len(st, &q, m.and_then(|m| m.sub))? as i128))
      }
      Rvalue::Repeat(op, n) => {
        let v = self.operand(st, op, false)?;
        let n = n.eval_target_usize().unwrap_or(0) as usize;
        if n > 256 {
          return abort("big array");
        }
        Ok(V::Seq(Rc::new(vec![v; n])))
      }
      Rvalue::ThreadLocalRef(_) => abort("thread local"),
    }
  }
  pub fn discr(&self, ty: Ty, var: u32) -> R<V> {
    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
      if d.kind() == AdtKind::Enum {
        let x = d.discriminant_for_variant(VariantIdx::to_val(var as usize));
        let (v, _) = self.wrap(x.val as i128, x.ty);
        return Ok(int(v));
      }
    }
    Ok(int(var as i128))
  }

  /// one MIR step of the current thread
  pub fn step(&mut self, st: &mut State) -> R<()> {
    let top = self.top(st).clone();
    match &top.k {
      FK::Drop(_) => {
        drop(top);
        return self.drop_step(st);
      }
      FK::AfterOnce(o, r) => {
        let (o, r) = (*o, r.clone());
        drop(top);
        let Some(r) = r else { return abort("afteronce") };
        if let Some(ob) = st.heap.free(o) {
          // drop the closure's captures now, then deliver
          let f = self.top_mut(st);
          f.k = FK::AfterOnce(u32::MAX, Some(r));
          self.push_drop(st, vec![DropItem::V(ob.v.clone())]);
          return Ok(());
        }
        return abort("afteronce obj");
      }
      FK::Mir(_) => {}
    }
    let FK::Mir(b) = &top.k else { unreachable!() };
    let b = b.clone();
    let (bb, si) = (top.bb as usize, top.si as usize);
    drop(top);
    let blk = &b.body.blocks[bb];
    if si == 0 {
      b.hit.borrow_mut()[bb] = true;
    }
    if si < blk.statements.len() {
      match &blk.statements[si].kind {
        StatementKind::Assign(p, r) => {
          let v = self.rvalue(st, &b, r)?;
          if p.projection.is_empty() {
            let f = self.top_mut(st);
            f.locals[p.local] = v;
            f.si += 1;
            return Ok(());
          }
          let (q, _) = self.place(st, p)?;
          self.write(st, &q, v)?;
        }
        StatementKind::SetDiscriminant { place, variant_index } => {
          let (q, _) = self.place(st, place)?;
          let vi = variant_index.to_index() as u32;
          match self.lval(st, &q)? {
            V::Adt(a) => Rc::make_mut(a).var = vi,
            v => *v = en(vi, vec![]),
          }
        }
        StatementKind::StorageDead(l) => {
          let f = self.top_mut(st);
          f.locals[*l] = V::Uninit;
        }
        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => return abort("memcpy"),
        _ => {}
      }
      self.top_mut(st).si += 1;
      return Ok(());
    }
    match &blk.terminator.kind {
      TerminatorKind::Goto { target } => {
        let f = self.top_mut(st);
        f.bb = *target as u32;
        f.si = 0;
        Ok(())
      }
      TerminatorKind::SwitchInt { discr, targets } => {
        let v = self.operand(st, discr, false)?;
        let t = match v {
          V::Bool(x) => pick(targets, x as u128),
          V::Int(Lin { sym: 0, off }) => {
            let ty = self.ty_of(&b, discr)?;
            let (bits, _) = int_bits(ty);
            let u = if bits >= 128 || bits == 0 { off as u128 } else { (off as u128) & ((1u128 << bits) - 1) };
            pick(targets, u)
          }
          V::Int(l) => {
            let mut r = targets.otherwise();
            for (val, t) in targets.branches() {
              if self.cmp_lin(st, l, Lin::c(val as i128))? == Ordering::Equal {
                r = t;
                break;
              }
            }
            r
          }
          V::Opaque(_) => return abort(format!("branch on opaque in {}", b.name)),
          v => return abort(format!("switch on {:?} in {}", v, b.name)),
        };
        let f = self.top_mut(st);
        f.bb = t as u32;
        f.si = 0;
        Ok(())
      }
      TerminatorKind::Return => {
        let th = self.thread_mut(st);
        let f = th.stack.pop().unwrap();
        let v = f.locals[0].clone();
        self.ret(st, v)
      }
      TerminatorKind::Unreachable => Err(Stop::Infeasible),
      TerminatorKind::Drop { place, target, .. } => {
        let (q, _) = self.place(st, place)?;
        let v = match self.lval(st, &q) {
          Ok(v) => std::mem::replace(v, V::Uninit),
          Err(e) => return Err(e),
        };
        let f = self.top_mut(st);
        f.bb = *target as u32;
        f.si = 0;
        if droppable(&v) {
          self.push_drop(st, vec![DropItem::V(v)]);
          if self.try_ops && st.conc {
            return Ok(());
          }
          return self.drop_step(st);
        }
        Ok(())
      }
      TerminatorKind::Assert { cond, expected, msg, target, .. } => {
        let v = self.operand(st, cond, false)?;
        match v {
          V::Bool(x) if x == *expected => {
            let f = self.top_mut(st);
            f.bb = *target as u32;
            f.si = 0;
            Ok(())
          }
          V::Bool(_) => self.panicked(st, msg.description().unwrap_or("assert").to_string()),
          _ => abort("assert on opaque"),
        }
      }
      TerminatorKind::Call { func, args, .. } => {
        let cs = self.call_site(&b, bb, func)?;
        let cs = match cs {
          CallSite::FnPtr => {
            let f = self.operand(st, func, true)?;
            match f {
              V::Fn(t) => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.resolve(d, &a)?,
                _ => {
                  // closure coerced to fn pointer
                  let mut av = vec![];
                  for a in args {
                    av.push(self.operand(st, a, true)?);
                  }
                  let z = self.zst(t);
                  return match self.call_fn(st, t, true, z, tup(av))? {
                    Out::Ret(v) => self.deliver(st, v),
                    _ => Ok(()),
                  };
                }
              },
              _ => return abort("call through unknown fn pointer"),
            }
          }
          c => c,
        };
        let mut av = Vec::with_capacity(args.len());
        for a in args {
          av.push(self.operand(st, a, true)?);
        }
        match self.invoke(st, cs, av)? {
          Out::Ret(v) => self.deliver(st, v),
          Out::Pushed | Out::Done => Ok(()),
        }
      }
      TerminatorKind::Resume | TerminatorKind::Abort => Err(Stop::End),
      TerminatorKind::InlineAsm { .. } => abort("asm"),
    }
  }
  fn ret(&mut self, st: &mut State, v: V) -> R<()> {
    // pass through finished AfterOnce frames
    self.deliver(st, v)?;
    Ok(())
  }
  pub fn finish_after_once(&mut self, st: &mut State) -> R<bool> {
    let r = match &self.top(st).k {
      FK::AfterOnce(o, Some(r)) if *o == u32::MAX => Some(r.clone()),
      _ => None,
    };
    if let Some(r) = r {
      self.thread_mut(st).stack.pop();
      self.deliver(st, r)?;
      return Ok(true);
    }
    Ok(false)
  }
  pub fn panicked(&mut self, st: &State, msg: String) -> R<()> {
    let site = self.lib_site(st);
    for f in st.threads[st.cur as usize].stack.iter().rev() {
      if let FK::Mir(b) = &f.k {
        if b.is_harness {
          // a panic of the client itself is a limit of the model, never a verdict
          return abort(format!("client panic in {}: {}", b.name, msg));
        }
        if b.is_lib {
          break;
        }
      }
    }
    let p = self.kprops.get(st.props as usize).cloned().unwrap_or_default();
    Err(Stop::Bug(p, format!("panic in {}", site), format!("panic ({}) in {}", msg, site)))
  }

  /// may the next step fork or block?
  pub fn needs_snapshot(&mut self, st: &State) -> bool {
    let top = self.top(st);
    let FK::Mir(b) = &top.k else { return self.try_ops && st.conc };
    let bb = top.bb as usize;
    let blk = &b.body.blocks[bb];
    if (top.si as usize) < blk.statements.len() {
      match &blk.statements[top.si as usize].kind {
        StatementKind::Assign(_, Rvalue::BinaryOp(_, x, y))
        | StatementKind::Assign(_, Rvalue::CheckedBinaryOp(_, x, y)) => self.is_sym(st, x) || self.is_sym(st, y),
        _ => false,
      }
    } else {
      match &blk.terminator.kind {
        TerminatorKind::SwitchInt { discr, .. } => self.is_sym(st, discr),
        TerminatorKind::Call { func, .. } => {
          let b = b.clone();
          match self.call_site(&b, bb, func) {
            Ok(CallSite::Direct(c)) => match c.kind {
              CalleeKind::Handler(h) => self.handlers[h as usize].snap,
              _ => false,
            },
            // the dynamic callee may be a forking handler
            Ok(CallSite::Virtual(..)) | Ok(CallSite::FnPtr) => true,
            Ok(CallSite::FnTrait(t, _)) => {
              matches!(t.kind(), TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::FnPtr(..)) | TyKind::RigidTy(RigidTy::Dynamic(..)))
            }
            _ => false,
          }
        }
        _ => false,
      }
    }
  }

  // ---------------------------------------------------------------- exploration
  pub fn trace(&self, st: &mut State, msg: String) {
    st.trace = Some(Rc::new(Trace { msg, prev: st.trace.take() }));
  }
  pub fn report(&mut self, st: &State, props: &str, key: &str, msg: &str) {
    let k = (props.to_string(), format!("{}: {}", self.scenario_base(), key));
    if let Some(v) = self.viol.get_mut(&k) {
      v.count += 1;
      return;
    }
    let mut tr = vec![];
    let mut t = st.trace.clone();
    while let Some(x) = t {
      tr.push(x.msg.clone());
      t = x.prev.clone();
    }
    tr.reverse();
    let mut stack = vec![];
    for (i, th) in st.threads.iter().enumerate() {
      if th.st == Status::Done {
        continue;
      }
      stack.push(format!("thread {} ({})", i, status_name(&th.st)));
      for f in th.stack.iter().rev() {
        if let FK::Mir(b) = &f.k {
          let blk = &b.body.blocks[f.bb as usize];
          let sp = if (f.si as usize) < blk.statements.len() {
            blk.statements[f.si as usize].source_info.span
          } else {
            blk.terminator.source_info.span
          };
          stack.push(format!("  {} [{}:{}]", b.name, sp.get_filename(), sp.get_lines().start_line));
        }
      }
    }
    self.viol.insert(
      k.clone(),
      Violation {
        props: props.into(),
        key: k.1.clone(),
        msg: msg.into(),
        scenario: self.scenario.clone(),
        trace: tr,
        stack,
        count: 1,
      },
    );
  }
  pub fn scenario_base(&self) -> String {
    self.scenario.rsplit("::").next().unwrap_or(&self.scenario).trim_start_matches("sc_").to_string()
  }

  /// pick the next thread when the current one cannot continue
  pub fn schedule(&mut self, st: &mut State) -> R<()> {
    loop {
      let mut run: Vec<u16> =
        (0..st.threads.len() as u16).filter(|t| st.threads[*t as usize].st == Status::Run).collect();
      // condvar waiters that were notified need their mutex
      for t in 0..st.threads.len() {
        if let Status::Cond { notified: true, mutex, .. } = &st.threads[t].st {
          if self.can_lock(st, mutex, true, t as u16) {
            run.push(t as u16);
          }
        }
        if let Status::Lock(p, w) = &st.threads[t].st {
          if self.can_lock(st, p, *w, t as u16) {
            run.push(t as u16);
          }
        }
      }
      if !run.is_empty() {
        let d = self.decide(st, run.len() as u32)?;
        let t = run[d as usize];
        st.cur = t;
        let th = Rc::make_mut(&mut st.threads[t as usize]);
        match th.st.clone() {
          Status::Cond { mutex, .. } => {
            th.st = Status::Run;
            let m = mutex.clone();
            th.held.push((m.clone(), true));
            if let V::Lock(l) = self.lval(st, &m)? {
              Rc::make_mut(l).writer = Some(t);
            }
          }
          _ => th.st = Status::Run,
        }
        return Ok(());
      }
      // nobody can run: idle main first
      if let Some(t) = (0..st.threads.len()).find(|t| st.threads[*t].st == Status::Idle) {
        // blocked forever on a lock while everything is idle is a deadlock
        self.check_lock_deadlock(st)?;
        Rc::make_mut(&mut st.threads[t]).st = Status::Run;
        st.cur = t as u16;
        return Ok(());
      }
      // joins of finished threads
      let mut woke = false;
      for t in 0..st.threads.len() {
        if let Status::Join(o) = st.threads[t].st {
          if st.threads[o as usize].st == Status::Done {
            Rc::make_mut(&mut st.threads[t]).st = Status::Run;
            woke = true;
          }
        }
      }
      if woke {
        continue;
      }
      if st.threads[0].st == Status::Done {
        return Err(Stop::End);
      }
      if self.wake_sleepers(st) {
        continue;
      }
      self.check_lock_deadlock(st)?;
      return Err(Stop::Bug(
        "C07".into(),
        format!("blocked-forever {}", self.block_site(st)),
        "no thread can run and a client call never returns".into(),
      ));
    }
  }
  fn block_site(&self, st: &State) -> String {
    for f in st.threads[0].stack.iter().rev() {
      if let FK::Mir(b) = &f.k {
        if b.is_lib {
          return b.name.clone();
        }
      }
    }
    "client".into()
  }
  pub fn wake_sleepers(&mut self, st: &mut State) -> bool {
    let mut min: Option<i128> = None;
    for t in &st.threads {
      let u = match &t.st {
        Status::Sleep(u) => Some(*u),
        Status::Cond { until: Some(u), notified: false, .. } => Some(*u),
        _ => None,
      };
      if let Some(u) = u {
        min = Some(min.map_or(u, |m: i128| m.min(u)));
      }
    }
    let Some(m) = min else { return false };
    if m > st.now {
      st.now = m;
    }
    for t in 0..st.threads.len() {
      match st.threads[t].st.clone() {
        Status::Sleep(u) if u <= m => Rc::make_mut(&mut st.threads[t]).st = Status::Run,
        Status::Cond { cond, mutex, notified: false, until: Some(u) } if u <= m => {
          Rc::make_mut(&mut st.threads[t]).st = Status::Cond { cond, mutex, notified: true, until: Some(u) }
        }
        _ => {}
      }
    }
    true
  }
  pub fn check_lock_deadlock(&mut self, st: &State) -> R<()> {
    let mut names = vec![];
    let mut sites = vec![];
    for (i, t) in st.threads.iter().enumerate() {
      if let Status::Lock(p, w) = &t.st {
        names.push(format!(
          "thread {} waits for {} ({}) held by {:?}",
          i,
          self.lock_name(st, p),
          if *w { "write" } else { "read" },
          match self.read(st, p) {
            Ok(V::Lock(l)) => (l.writer, l.readers.clone()),
            _ => (None, vec![]),
          }
        ));
        for f in t.stack.iter().rev() {
          if let FK::Mir(b) = &f.k {
            if b.is_lib {
              sites.push(b.name.clone());
              break;
            }
          }
        }
      }
    }
    if names.is_empty() {
      return Ok(());
    }
    sites.sort();
    sites.dedup();
    Err(Stop::Bug("C07".into(), format!("deadlock {}", sites.join(" / ")), names.join("; ")))
  }

  /// breadth-first over the boundaries: every isomorphism class of boundary states is expanded once
  pub fn explore(&mut self, init: State) {
    self.work.push(init);
    loop {
      while let Some(st) = self.work.pop() {
        if std::time::Instant::now() > self.deadline {
          self.timed_out = true;
          self.work.clear();
          self.next_level.clear();
          return;
        }
        self.run_path(st);
      }
      if self.next_level.is_empty() {
        return;
      }
      self.work = std::mem::take(&mut self.next_level);
      self.work.reverse();
    }
  }
  pub fn at_boundary(&mut self, st: &mut State) -> R<Out> {
    st.forced.clear();
    st.fpos = 0;
    let k = crate::canon::key(self, st);
    if !self.visited.insert(k) {
      self.stats.merged += 1;
      return Err(Stop::Parked);
    }
    self.stats.states += 1;
    if st.depth > self.max_depth {
      self.stats.cut_depth += 1;
      return Err(Stop::Parked);
    }
    if self.stats.states > self.max_states {
      self.stats.cut_states += 1;
      return Err(Stop::Parked);
    }
    self.next_level.push(st.clone());
    Err(Stop::Parked)
  }
  fn fork(&mut self, base: State, n: u32) {
    self.stats.forks += (n - 1) as u64;
    for i in (0..n).rev() {
      let mut s = base.clone();
      s.forced.truncate(s.fpos.max(s.forced.len()));
      s.forced.push(i);
      s.fpos = 0;
      self.work.push(s);
    }
  }
  pub fn run_path(&mut self, mut st: State) {
    self.stats.paths += 1;
    let mut local_steps: u64 = 0;
    // Brent cycle detection on the full state
    let mut mark: Option<((u16, usize, u32, u32), u128)> = None;
    let mut next_mark: u64 = 4096;
    loop {
      local_steps += 1;
      self.stats.steps += 1;
      st.steps += 1;
      if local_steps % 65536 == 0 && std::time::Instant::now() > self.deadline {
        self.timed_out = true;
        self.work.clear();
        return;
      }
      if st.steps > self.max_steps {
        self.stats.cut_steps += 1;
        let n = format!("step limit in {}", self.lib_site(&st));
        self.note(&n);
        return;
      }
      if st.threads[st.cur as usize].st != Status::Run {
        let snap = st.clone();
        match self.schedule(&mut st) {
          Ok(()) => {
            st.forced.clear();
            st.fpos = 0;
            continue;
          }
          Err(Stop::Fork(n)) => {
            let mut b = snap;
            b.fpos = 0;
            self.fork(b, n);
            return;
          }
          Err(e) => {
            self.finish(&st, e);
            return;
          }
        }
      }
      // cycle detection at loop heads (Brent)
      if local_steps >= 4096 {
        let f = self.top(&st);
        if f.si == 0 {
          if let FK::Mir(b) = &f.k {
            if b.loop_heads[f.bb as usize] {
              let loc = (st.cur, st.threads[st.cur as usize].stack.len(), b.id, f.bb);
              if local_steps >= next_mark {
                mark = Some((loc, crate::canon::key(self, &st)));
                next_mark = local_steps + local_steps / 2;
              } else if let Some((l, m)) = &mark {
                if *l == loc && crate::canon::key(self, &st) == *m {
                  let site = self.lib_site(&st);
                  let p = "C07,C06".to_string();
                  self.report(&st, &p, &format!("livelock in {}", site), &format!("{} loops for ever without any state change", site));
                  return;
                }
              }
            }
          }
        }
      }
      match self.finish_after_once(&mut st) {
        Ok(true) => continue,
        Ok(false) => {}
        Err(e) => {
          self.finish(&st, e);
          return;
        }
      }
      st.quiet += 1;
      if let FK::Mir(b) = &self.top(&st).k {
        if b.is_harness {
          if st.quiet > self.stats.max_quiet {
            self.stats.max_quiet = st.quiet;
          }
          st.quiet = 0;
        } else if st.quiet > MAX_QUIET && b.is_lib {
          // the inputs of a client are a handful of events: no library call has that much to do before it calls back or returns
          let site = self.lib_site(&st);
          self.finish(&st, Stop::Bug("C07".into(), format!("endless in {}", site), format!("{} neither returns nor calls back", site)));
          return;
        }
      }
      let snap = if self.needs_snapshot(&st) { Some(st.clone()) } else { None };
      match self.step(&mut st) {
        Ok(()) => {
          if !st.forced.is_empty() {
            st.forced.clear();
            st.fpos = 0;
          }
        }
        Err(Stop::Fork(n)) => match snap {
          Some(mut b) => {
            b.fpos = 0;
            self.fork(b, n);
            return;
          }
          None => {
            self.note(&format!("fork without snapshot in {}", self.fname(&st)));
            return;
          }
        },
        Err(Stop::Block(s)) => {
          let Some(b) = snap else {
            self.note(&format!("block without snapshot in {}", self.fname(&st)));
            return;
          };
          st = b;
          st.forced.clear();
          st.fpos = 0;
          self.thread_mut(&mut st).st = s;
        }
        Err(Stop::SwitchTo(t)) => {
          let Some(b) = snap else {
            self.note(&format!("switch without snapshot in {}", self.fname(&st)));
            return;
          };
          st = b;
          st.forced.clear();
          st.fpos = 0;
          st.budget -= 1;
          st.cur = t;
          self.stats.preempt += 1;
          self.trace(&mut st, format!("  -> switch to thread {}", t));
        }
        Err(e) => {
          self.finish(&st, e);
          return;
        }
      }
    }
  }
  fn finish(&mut self, st: &State, e: Stop) {
    match e {
      Stop::Bug(mut p, k, m) => {
        // a call that never returns also fails what the client was about to observe
        if p == "C07" {
          for q in self.kprops.get(st.props as usize).cloned().unwrap_or_default().split(',') {
            if !q.is_empty() && !p.split(',').any(|x| x == q) {
              p = format!("{},{}", p, q);
            }
          }
        }
        self.report(st, &p, &k, &m)
      }
      Stop::Abort(m) => {
        if self.verbose {
          let mut s = String::new();
          for f in st.threads[st.cur as usize].stack.iter().rev().take(8) {
            if let FK::Mir(b) = &f.k {
              s += &format!("\n    {} bb{} s{}", b.name, f.bb, f.si);
            }
          }
          eprintln!("imprecise: {}{}", m, s);
        }
        let m: String = m.chars().take(160).collect();
        self.note(&format!("imprecise: {}", m))
      }
      Stop::End => self.stats.ends += 1,
      Stop::Infeasible | Stop::Parked => {}
      Stop::Fork(_) | Stop::Block(_) | Stop::SwitchTo(_) => self.note("stray stop"),
    }
  }
}

pub fn status_name(s: &Status) -> &'static str {
  match s {
    Status::Run => "running",
    Status::Lock(..) => "waiting for a lock",
    Status::Cond { .. } => "waiting on a condvar",
    Status::Sleep(_) => "sleeping",
    Status::Join(_) => "joining",
    Status::Idle => "idle",
    Status::Done => "done",
  }
}
pub fn ty_name(t: Ty) -> String {
  format!("{}", t)
}
pub fn pick(t: &SwitchTargets, v: u128) -> usize {
  for (x, b) in t.branches() {
    if x == v {
      return b;
    }
  }
  t.otherwise()
}
pub fn ordering(o: Ordering) -> V {
  en(
    match o {
      Ordering::Less => 0,
      Ordering::Equal => 1,
      Ordering::Greater => 2,
    },
    vec![],
  )
}
pub fn int_bits(ty: Ty) -> (u32, bool) {
  match ty.kind() {
    TyKind::RigidTy(RigidTy::Int(k)) => (k.num_bytes() as u32 * 8, true),
    TyKind::RigidTy(RigidTy::Uint(k)) => (k.num_bytes() as u32 * 8, false),
    TyKind::RigidTy(RigidTy::Bool) => (8, false),
    TyKind::RigidTy(RigidTy::Char) => (32, false),
    _ => (0, true),
  }
}
pub fn pointee(t: Ty) -> Option<Ty> {
  match t.kind() {
    TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
    TyKind::RigidTy(RigidTy::Adt(d, a)) => {
      let n = d.name();
      if d.is_box() || n == "std::sync::Arc" || n == "std::rc::Rc" || n == "std::pin::Pin" || n == "std::ptr::NonNull" {
        let t = a.0.first().and_then(|x| x.ty()).copied();
        if n == "std::pin::Pin" {
          return t.and_then(pointee);
        }
        t
      } else {
        None
      }
    }
    _ => None,
  }
}
pub fn has_tok(v: &V) -> bool {
  match v {
    V::Tok(_) => true,
    V::Adt(a) => has_tok_vec(&a.f),
    V::Seq(a) => has_tok_vec(a),
    V::Map(a) => a.iter().any(|x| has_tok(&x.0) || has_tok(&x.1)),
    V::It(i) => match &**i {
      It::Own { v } => has_tok_vec(v),
      It::MapOwn { v, .. } => v.iter().any(|x| has_tok(&x.0) || has_tok(&x.1)),
      _ => false,
    },
    V::Lock(l) => has_tok(&l.v),
    _ => false,
  }
}
pub fn has_tok_vec(v: &[V]) -> bool {
  v.iter().any(has_tok)
}
pub fn droppable(v: &V) -> bool {
  match v {
    V::Adt(a) => a.ty.is_some() || a.f.iter().any(droppable),
    V::Seq(s) => s.iter().any(droppable),
    V::Map(s) => !s.is_empty(),
    V::It(_) | V::Lock(_) | V::Guard(_) | V::Box(..) | V::Arc(_) | V::Weak(_) => true,
    _ => false,
  }
}
