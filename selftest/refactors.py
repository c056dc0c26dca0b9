"""Behaviour-preserving edits of /repo: the checks must stay quiet on them. name -> [(file, old, new)...]; every old text occurs once unless a count is given."""
R = {}

R["fw_option"] = [
    ("internals/function_wrapper.rs", """    if let Some(x) = &*self.inner.read().unwrap() {
      Some(x.clone())
    } else {
      None
    }""", "    self.inner.read().unwrap().clone()"),
    ("internals/function_wrapper.rs", """    if let Some(ff) = self.fetch_function() {
      Some((ff.func)(indata))
    } else {
      None
    }""", "    self.fetch_function().map(|ff| (ff.func)(indata))"),
    ("internals/function_wrapper.rs", """    let f = {
      let mut f = self.inner.write().unwrap();
      if let Some(x) = &*f {
        let x = x.clone();
        *f = None;
        Some(x)
      } else {
        None
      }
    };
    if let Some(f) = f {
      Some((f.func)(indata))
    } else {
      None
    }""", """    let taken = self.inner.write().unwrap().take();
    match taken {
      Some(f) => Some((f.func)(indata)),
      None => None,
    }"""),
]
R["fw_mutex"] = [
    ("internals/function_wrapper.rs", "use std::sync::{Arc, RwLock};", "use std::sync::{Arc, Mutex};"),
    ("internals/function_wrapper.rs", "Arc<RwLock<Option<FunctionWrapperInner<'a, In, Out>>>>", "Arc<Mutex<Option<FunctionWrapperInner<'a, In, Out>>>>"),
    ("internals/function_wrapper.rs", "Arc::new(RwLock::new(Some(", "Arc::new(Mutex::new(Some("),
    ("internals/function_wrapper.rs", "let f = self.inner.write().unwrap().take();", "let f = self.inner.lock().unwrap().take();"),
    ("internals/function_wrapper.rs", "self.inner.read().unwrap().is_none()", "self.inner.lock().unwrap().is_none()"),
    ("internals/function_wrapper.rs", "if let Some(x) = &*self.inner.read().unwrap() {", "if let Some(x) = &*self.inner.lock().unwrap() {"),
    ("internals/function_wrapper.rs", "let mut f = self.inner.write().unwrap();", "let mut f = self.inner.lock().unwrap();"),
]
R["observer_cas"] = [
    ("observer.rs", "!self.closed.swap(true, Ordering::SeqCst)", "self.closed.compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst).is_ok()"),
    ("observer.rs", "!self.closed.load(Ordering::SeqCst)", "self.closed.load(Ordering::SeqCst) == false"),
    ("observer.rs", """    if self.close() {
      self.release();
    } else {
      self.call_on_unsubscribe();
    }""", """    if !self.close() {
      self.call_on_unsubscribe();
      return;
    }
    self.release();"""),
    ("observer.rs", "fn_on_unsubscribe: Arc<RwLock<Option<FunctionWrapper<'a, (), ()>>>>", "fn_on_unsubscribe: Arc<Mutex<Option<FunctionWrapper<'a, (), ()>>>>"),
    ("observer.rs", "Arc::new(RwLock::new(None))", "Arc::new(Mutex::new(None))"),
    ("observer.rs", "*self.fn_on_unsubscribe.write().unwrap() =", "*self.fn_on_unsubscribe.lock().unwrap() ="),
    ("observer.rs", "let f = self.fn_on_unsubscribe.write().unwrap().take();", "let f = self.fn_on_unsubscribe.lock().unwrap().take();"),
    ("observer.rs", "  Arc, RwLock,\n", "  Arc, Mutex,\n"),
]
R["observer_helper"] = [
    ("observer.rs", """      self.fn_next.clear();
      self.fn_complete.clear();
      self.fn_error.call_and_clear_if_available(x);
      self.call_on_unsubscribe();
    }
  }""", """      self.fn_next.clear();
      self.fn_complete.clear();
      self.last_call(&self.fn_error, x);
    }
  }
  fn last_call<X: Clone + Send + Sync>(&self, f: &FunctionWrapper<'a, X, ()>, x: X) {
    f.call_and_clear_if_available(x);
    self.call_on_unsubscribe();
  }"""),
    ("observer.rs", """      self.fn_complete.call_and_clear_if_available(());
      self.call_on_unsubscribe();""", "      self.last_call(&self.fn_complete, ());"),
    ("observer.rs", """    let f = self.fn_on_unsubscribe.write().unwrap().take();
    if let Some(f) = f {
      f.call(());
    }""", """    let Some(f) = self.fn_on_unsubscribe.write().unwrap().take() else {
      return;
    };
    f.call(());"""),
]
R["sctl_btree_atomic"] = [
    ("internals/stream_controller.rs", "  collections::HashMap,\n  sync::{Arc, RwLock},", "  collections::BTreeMap,\n  sync::{\n    atomic::{AtomicI32, Ordering},\n    Arc, RwLock,\n  },"),
    ("internals/stream_controller.rs", "  serial: Arc<RwLock<i32>>,", "  serial: Arc<AtomicI32>,"),
    ("internals/stream_controller.rs", "Arc<RwLock<HashMap<i32, FunctionWrapper", "Arc<RwLock<BTreeMap<i32, FunctionWrapper"),
    ("internals/stream_controller.rs", "Arc::new(RwLock::new(0))", "Arc::new(AtomicI32::new(0))"),
    ("internals/stream_controller.rs", "RwLock::new(HashMap::new())", "RwLock::new(BTreeMap::new())"),
    ("internals/stream_controller.rs", """    let serial = {
      let mut x = self.serial.write().unwrap();
      let ret = *x;
      *x += 1;
      ret
    };
""", "    let serial = self.serial.fetch_add(1, Ordering::Relaxed);\n"),
    ("internals/stream_controller.rs", """    unscribers.iter().for_each(|x| {
      x.1.call(());
    });""", """    for (_, f) in unscribers {
      f.call(());
    }"""),
]
R["sctl_vec"] = [
    ("internals/stream_controller.rs", "Arc<RwLock<HashMap<i32, FunctionWrapper<'a, (), ()>>>>,", "Arc<RwLock<Vec<(i32, FunctionWrapper<'a, (), ()>)>>>,"),
    ("internals/stream_controller.rs", "RwLock::new(HashMap::new())", "RwLock::new(Vec::new())"),
    ("internals/stream_controller.rs", "  collections::HashMap,\n  sync", "  sync"),
    ("internals/stream_controller.rs", """      unsubscribers.insert(
        serial.clone(),
        FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
      );""", """      unsubscribers.push((
        serial,
        FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
      ));"""),
    ("internals/stream_controller.rs", """        let mut observers = self.unscribers.write().unwrap();
        (observers.remove(serial), observers.len() == 0)""", """        let mut observers = self.unscribers.write().unwrap();
        let at = observers.iter().position(|x| x.0 == *serial);
        (at.map(|i| observers.swap_remove(i).1), observers.is_empty())"""),
    ("internals/stream_controller.rs", """    let o = self.unscribers.write().unwrap().remove(serial);
""", """    let o = {
      let mut observers = self.unscribers.write().unwrap();
      match observers.iter().position(|x| x.0 == *serial) {
        Some(i) => Some(observers.remove(i).1),
        None => None,
      }
    };
"""),
    ("internals/stream_controller.rs", """    unscribers.iter().for_each(|x| {
      x.1.call(());
    });""", """    let mut unscribers = unscribers.into_iter();
    while let Some((_, f)) = unscribers.next() {
      f.call(());
    }"""),
]
R["sctl_flow"] = [
    ("internals/stream_controller.rs", """    if self.subscriber.is_subscribed() {
      self.subscriber.next(x);
    } else {
      self.finalize();
    }""", """    if !self.is_subscribed() {
      return self.finalize();
    }
    self.subscriber.next(x);"""),
    ("internals/stream_controller.rs", """    if self.subscriber.is_subscribed() {
      self.subscriber.error(e);
      self.finalize();
    } else {
      self.finalize();
    }""", """    if self.subscriber.is_subscribed() {
      self.subscriber.error(e);
    }
    self.finalize();"""),
    ("internals/stream_controller.rs", """    let on_finalize = self.on_finalize.write().unwrap().take();
    if let Some(f) = on_finalize {
      f.call(());
    }""", """    self.run_on_finalize();"""),
    ("internals/stream_controller.rs", """  pub fn is_subscribed(&self) -> bool {""", """  fn run_on_finalize(&self) {
    let f = std::mem::replace(&mut *self.on_finalize.write().unwrap(), None);
    f.iter().for_each(|f| f.call(()));
  }

  pub fn is_subscribed(&self) -> bool {"""),
]
R["subject_btree"] = [
    ("subjects/subject.rs", "  collections::HashMap,\n", "  collections::BTreeMap,\n"),
    ("subjects/subject.rs", "observers: Arc<RwLock<HashMap<i32, Observer<'a, Item>>>>,", "observers: Arc<RwLock<BTreeMap<i32, Observer<'a, Item>>>>,"),
    ("subjects/subject.rs", "RwLock::new(HashMap::new())", "RwLock::new(BTreeMap::new())"),
    ("subjects/subject.rs", """    let binding = self.observers.read().unwrap();
    let x = binding.iter().map(|x| x.1.clone());
    Vec::from_iter(x)""", "    self.observers.read().unwrap().values().cloned().collect()"),
    ("subjects/subject.rs", """    self
      .fetch_observers()
      .into_iter()
      .for_each(move |x| x.next(item.clone()));""", """    for x in &self.fetch_observers() {
      x.next(item.clone());
    }"""),
]
R["subject_loops"] = [
    ("subjects/subject.rs", """    let observers = std::mem::take(&mut *self.observers.write().unwrap());
    Vec::from_iter(observers.into_iter().map(|x| x.1))""", """    let mut all = self.observers.write().unwrap();
    let mut v = Vec::with_capacity(all.len());
    for (_, x) in all.drain() {
      v.push(x);
    }
    v"""),
    ("subjects/subject.rs", """    let obs = self.take_observers();
    obs.into_iter().for_each(|x| x.complete());""", """    let mut obs = self.take_observers().into_iter();
    loop {
      match obs.next() {
        Some(x) => x.complete(),
        None => break,
      }
    }"""),
    ("subjects/subject.rs", """      let serial = {
        let mut serial = serial.write().unwrap();
        *serial += 1;
        *serial
      };""", """      let serial = Self::next_serial(&serial);"""),
    ("subjects/subject.rs", """  /// The number of registered observers, without""", """  fn next_serial(serial: &Arc<RwLock<i32>>) -> i32 {
    let mut s = serial.write().unwrap();
    let n = *s + 1;
    *s = n;
    n
  }

  /// The number of registered observers, without"""),
]
R["queue_wait_loop"] = [
    ("schedulers/async_function_queue.rs", """        let que_mtx = self.data.queue.lock().unwrap();
        let mut que_mtx = self
          .data
          .cond
          .wait_while(que_mtx, |que| {
            if *self.data.abort.read().unwrap() {
              false
            } else {
              que.is_empty()
            }
          })
          .unwrap();
        if""", """        let mut que_mtx = self.data.queue.lock().unwrap();
        while !*self.data.abort.read().unwrap() && que_mtx.is_empty() {
          que_mtx = self.data.cond.wait(que_mtx).unwrap();
        }
        if"""),
    ("schedulers/async_function_queue.rs", """      if let Some(f) = f {
        f.call(());
      } else {
        break;
      }""", """      match f {
        None => return,
        Some(f) => f.call(()),
      }"""),
    ("schedulers/async_function_queue.rs", """    que_mtx.push_back(FunctionWrapper::new(move |_| f()));
    self.data.cond.notify_one();""", """    que_mtx.push_back(FunctionWrapper::new(move |_| f()));
    drop(que_mtx);
    self.data.cond.notify_all();"""),
]
R["queue_atomic"] = [
    ("schedulers/async_function_queue.rs", "sync::{Arc, Condvar, Mutex, RwLock}", "sync::{\n    atomic::{AtomicBool, Ordering},\n    Arc, Condvar, Mutex,\n  }"),
    ("schedulers/async_function_queue.rs", "abort: RwLock<bool>", "abort: AtomicBool"),
    ("schedulers/async_function_queue.rs", "RwLock::new(false)", "AtomicBool::new(false)"),
    ("schedulers/async_function_queue.rs", "            if *self.data.abort.read().unwrap() {\n              false\n            } else {\n              que.is_empty()\n            }", "            !self.data.abort.load(Ordering::SeqCst) && que.is_empty()"),
    ("schedulers/async_function_queue.rs", "if *self.data.abort.read().unwrap() {", "if self.data.abort.load(Ordering::SeqCst) {"),
    ("schedulers/async_function_queue.rs", "    *self.data.abort.write().unwrap() = true;", "    self.data.abort.store(true, Ordering::SeqCst);"),
]
R["queue_one_mutex"] = [
    ("schedulers/async_function_queue.rs", "  queue: Mutex<VecDeque<FunctionWrapper<'a, (), ()>>>,\n", "  queue: Mutex<(VecDeque<FunctionWrapper<'a, (), ()>>, bool)>,\n"),
    ("schedulers/async_function_queue.rs", "  abort: RwLock<bool>,\n", ""),
    ("schedulers/async_function_queue.rs", "Mutex::new(VecDeque::new())", "Mutex::new((VecDeque::new(), false))"),
    ("schedulers/async_function_queue.rs", "        abort: RwLock::new(false),\n", ""),
    ("schedulers/async_function_queue.rs", "Mutex, RwLock}", "Mutex}"),
    ("schedulers/async_function_queue.rs", "            if *self.data.abort.read().unwrap() {\n              false\n            } else {\n              que.is_empty()\n            }", "            !que.1 && que.0.is_empty()"),
    ("schedulers/async_function_queue.rs", "if *self.data.abort.read().unwrap() {", "if que_mtx.1 {"),
    ("schedulers/async_function_queue.rs", "que_mtx.pop_front()", "que_mtx.0.pop_front()"),
    ("schedulers/async_function_queue.rs", "que_mtx.push_back", "que_mtx.0.push_back"),
    ("schedulers/async_function_queue.rs", "    que_mtx.clear();\n    *self.data.abort.write().unwrap() = true;", "    que_mtx.1 = true;\n    que_mtx.0.clear();"),
]
R["take_atomic"] = [
    ("operators/take.rs", "let n = Arc::new(RwLock::new(0));", "use std::sync::atomic::{AtomicUsize, Ordering};\n      let n = Arc::new(AtomicUsize::new(0));"),
    ("operators/take.rs", """          let (emit, complete) = {
            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
            (nn < count, (nn + 1) >= count)
          };
          if emit {""", """          let nn = n.fetch_add(1, Ordering::SeqCst);
          let complete = nn + 1 >= count;
          if nn < count {"""),
]
R["take_last_drain"] = [
    ("operators/take_last.rs", """          items.push_back(x);
          if items.len() > count {
            items.pop_front();
          }""", """          if count == 0 {
            return;
          }
          if items.len() == count {
            items.pop_front();
          }
          items.push_back(x);"""),
    ("operators/take_last.rs", """          for x in items_complete.read().unwrap().iter() {
            if !sctl_complete.is_subscribed() {
              break;
            }
            sctl_complete.sink_next(x.clone());
          }""", """          let items = std::mem::take(&mut *items_complete.write().unwrap());
          items
            .into_iter()
            .take_while(|_| sctl_complete.is_subscribed())
            .for_each(|x| sctl_complete.sink_next(x));"""),
]
R["skip_mutex"] = [
    ("operators/skip.rs", "let n = Arc::new(RwLock::new(0));", "let left = Arc::new(std::sync::Mutex::new(count));"),
    ("operators/skip.rs", """            let mut n = n.write().unwrap();
            let nn = *n;
            *n += 1;
            nn >= count""", """            let mut left = left.lock().unwrap();
            match left.checked_sub(1) {
              Some(n) => {
                *left = n;
                false
              }
              None => true,
            }"""),
    ("operators/skip_while.rs", """          if *enable.read().unwrap() {
            sctl_next.sink_next(x);
          } else {
            if !f.call(x.clone()) {
              *enable.write().unwrap() = true;
              sctl_next.sink_next(x);
            }
          }""", """          let open = *enable.read().unwrap() || !f.call(x.clone());
          if open {
            *enable.write().unwrap() = true;
            sctl_next.sink_next(x);
          }"""),
    ("operators/skip_last.rs", """          let emit = {
            let mut items = items_next.write().unwrap();
            items.push_back(x);
            if items.len() > count {
              items.pop_front()
            } else {
              None
            }
          };
          if let Some(x) = emit {
            sctl_next.sink_next(x);
          }""", """          let mut items = items_next.write().unwrap();
          items.push_back(x);
          let emit = if items.len() <= count { None } else { items.pop_front() };
          drop(items);
          emit.into_iter().for_each(|x| sctl_next.sink_next(x));"""),
]
R["zip_rewrite"] = [
    ("operators/zip.rs", """      let results = Arc::new(RwLock::new({
        let mut r = Vec::<VecDeque<Item>>::new();
        (0..(observables.len() + 1)).for_each(|_| {
          r.push(VecDeque::<Item>::new());
        });
        r
      }));""", """      let results = Arc::new(RwLock::new(vec![
        VecDeque::<Item>::new();
        observables.len() + 1
      ]));"""),
    ("operators/zip.rs", """          .get_mut(id.clone())
          .unwrap()
          .push_back(item);""", """          [*id]
          .push_back(item);"""),
    ("operators/zip.rs", """          let filled = re.iter().filter(|x| x.len() > 0).count();
          if filled == re.len() {
            let mut v = Vec::new();
            for items in re.iter_mut() {
              v.push(items.pop_front().unwrap());
            }
            Some(v)
          } else {
            None
          }""", """          if re.iter().any(|x| x.is_empty()) {
            return None;
          }
          re.iter_mut().map(|x| x.pop_front()).collect::<Option<Vec<_>>>()"""),
    ("operators/zip.rs", """      source.inner_subscribe(sbs.pop_front().unwrap());
      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop_front().unwrap());
      });""", """      for o in std::iter::once(&source).chain(observables.iter()) {
        o.inner_subscribe(sbs.pop_front().unwrap());
      }"""),
]
R["combine_latest_all"] = [
    ("operators/combine_latest.rs", """                latest[id] = Some(x);
                latest.iter().cloned().collect::<Option<Vec<_>>>()""", """                latest[id].replace(x);
                if latest.iter().all(|x| x.is_some()) {
                  Some(latest.iter().filter_map(|x| x.clone()).collect::<Vec<_>>())
                } else {
                  None
                }"""),
]
R["merge_chain"] = [
    ("operators/merge.rs", """      source.inner_subscribe(sbs.pop().unwrap());
      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop().unwrap());
      });""", """      source.inner_subscribe(sbs.remove(0));
      observables.iter().zip(sbs.into_iter()).for_each(|(o, s)| {
        o.inner_subscribe(s);
      });"""),
]
R["amb_match"] = [
    ("operators/amb.rs", """        if let Some(w) = &*w {
          *serial == *w
        } else {
          *w = Some(serial.clone());
          true
        }""", """        *w.get_or_insert(*serial) == *serial"""),
    ("operators/amb.rs", """      source.inner_subscribe(sbs.pop().unwrap());
      observables.iter().for_each(|o| {
        o.inner_subscribe(sbs.pop().unwrap());
      });""", """      let first = sbs.pop();
      if let Some(first) = first {
        source.inner_subscribe(first);
      }
      for o in observables.iter() {
        match sbs.pop() {
          Some(x) => {
            o.inner_subscribe(x);
          }
          None => unreachable!(),
        }
      }"""),
]
R["sample_take"] = [
    ("operators/sample.rs", """            let value = {
              let mut v = value_trigger_next.write().unwrap();
              let vv = v.clone();
              *v = None;
              vv
            };
            if let Some(v) = value {""", """            let value = value_trigger_next.write().unwrap().take();
            if let Some(v) = value {"""),
    ("operators/debounce.rs", """              let mut value = value.write().unwrap();
              let v = value.clone();
              *value = None;
              v""", """              value.write().unwrap().take()"""),
    ("operators/skip_until.rs", "let enable = Arc::new(RwLock::new(false));", "let enable = Arc::new(std::sync::atomic::AtomicBool::new(false));"),
    ("operators/skip_until.rs", "*enable_triggner_next.write().unwrap() = true;", "enable_triggner_next.store(true, std::sync::atomic::Ordering::Release);"),
    ("operators/skip_until.rs", "if *enable.read().unwrap() {", "if enable.load(std::sync::atomic::Ordering::Acquire) {"),
]
R["distinct_lock_once"] = [
    ("operators/distinct_until_changed.rs", """          let last_x = {
            if let Some(x) = &*last.read().unwrap() {
              Some(x.clone())
            } else {
              None
            }
          };
          if let Some(last_x) = last_x {
            if last_x != x {
              *last.write().unwrap() = Some(x.clone());
              sctl_next.sink_next(x);
            }
          } else {
            *last.write().unwrap() = Some(x.clone());
            sctl_next.sink_next(x);
          }""", """          let previous = last.read().unwrap().clone();
          let changed = match &previous {
            Some(p) => *p != x,
            None => true,
          };
          if changed {
            last.write().unwrap().replace(x.clone());
            sctl_next.sink_next(x);
          }"""),
]
R["fold_style"] = [
    ("operators/max.rs", """          if let Some(xx) = &*r {
            if x > *xx {
              *r = Some(x);
            }
          } else {
            *r = Some(x);
          }""", """          let better = r.as_ref().map_or(true, |xx| x > *xx);
          if better {
            *r = Some(x);
          }"""),
    ("operators/max.rs", """          if let Some(x) = &*result.read().unwrap() {
            sctl_complete.sink_next(x.clone());
          }""", """          let result = result.read().unwrap().clone();
          if let Some(x) = result {
            sctl_complete.sink_next(x);
          }"""),
    ("operators/sum.rs", """          if let Some(latest) = &*sum {
            *sum = Some(latest.clone() + x);
          } else {
            *sum = Some(x);
          }""", """          *sum = match sum.take() {
            Some(latest) => Some(latest + x),
            None => Some(x),
          };"""),
    ("operators/count.rs", "Arc::new(RwLock::new(0usize))", "Arc::new(std::sync::atomic::AtomicUsize::new(0))"),
    ("operators/count.rs", "*n_next.write().unwrap() += 1;", "n_next.fetch_add(1, std::sync::atomic::Ordering::AcqRel);"),
    ("operators/count.rs", "let n = *n.read().unwrap();", "let n = n.load(std::sync::atomic::Ordering::Acquire);"),
    ("operators/default_if_empty.rs", "          if !*emitted_complete.read().unwrap() {\n            sctl_complete.sink_next(default_complete.clone());\n          }", "          let emitted = *emitted_complete.read().unwrap();\n          if !emitted {\n            sctl_complete.sink_next(default_complete.clone());\n          }"),
]
R["buffer_take"] = [
    ("operators/buffer_with_count.rs", """          vec.push(item);
          if vec.len() == count {
            let v = vec.clone();
            vec.clear();
            Some(v)
          } else {
            None
          }""", """          vec.push(item);
          (vec.len() == count).then(|| std::mem::take(&mut *vec))"""),
    ("operators/buffer_with_count.rs", """            let vec = results.read().unwrap();
            if vec.len() > 0 {
              sctl_complete.sink_next(vec.clone());
            }""", """            let vec = results.write().unwrap().split_off(0);
            if !vec.is_empty() {
              sctl_complete.sink_next(vec);
            }"""),
]
R["group_entry"] = [
    ("operators/group_by.rs", """            let mut sbjmap = sbjmap_next.write().unwrap();
            if let Some(sbj) = sbjmap.get(&key) {
              (sbj.clone(), false)
            } else {
              let sbj = subjects::Subject::<Item>::new();
              sbjmap.insert(key, sbj.clone());
              (sbj, true)
            }""", """            use std::collections::hash_map::Entry;
            match sbjmap_next.write().unwrap().entry(key) {
              Entry::Occupied(o) => (o.get().clone(), false),
              Entry::Vacant(v) => (v.insert(subjects::Subject::<Item>::new()).clone(), true),
            }"""),
    ("operators/group_by.rs", """          let sbjs = sbjmap_complete.read().unwrap().clone();
          sbjs.iter().for_each(|x| {
            x.1.complete();
          });""", """          let sbjs: Vec<_> = sbjmap_complete.read().unwrap().values().cloned().collect();
          for sbj in sbjs {
            sbj.complete();
          }"""),
]
R["window_split"] = [
    ("operators/window_with_count.rs", """            let opened = *n == 0;
            *n += 1;
            if *n == count {
              *n = 0;
              let full = std::mem::replace(
                &mut *sbj,
                subjects::Subject::<Item>::new(),
              );
              (full, opened, true)
            } else {
              (sbj.clone(), opened, false)
            }""", """            let opened = *n == 0;
            *n = (*n + 1) % count;
            let full = *n == 0;
            let current = sbj.clone();
            if full {
              *sbj = subjects::Subject::<Item>::new();
            }
            (current, opened, full)"""),
]
R["concat_iter"] = [
    ("operators/concat.rs", """        let o = observables.write().unwrap().pop_front();
        let o = match o {
          Some(o) => o,
          None => {
            sctl.sink_complete_force();
            return;
          }
        };
""", """        let next = observables.write().unwrap().pop_front();
        let Some(o) = next else {
          return sctl.sink_complete_force();
        };
"""),
]
R["retry_left"] = [
    ("operators/retry.rs", "if max_retry == 0 || n < max_retry {", "let last = max_retry != 0 && n >= max_retry;\n            if !last {"),
    ("operators/retry_when.rs", """            if predicate.call(e.clone()) {
              sctl_error.upstream_abort_observe(&serial);
              do_subscribe(
                predicate.clone(),
                source_error.clone(),
                sctl_error.clone(),
              );
            } else {
              sctl_error.sink_error(e);
            }""", """            if !predicate.call(e.clone()) {
              sctl_error.sink_error(e);
              return;
            }
            sctl_error.upstream_abort_observe(&serial);
            let (p, s, c) = (predicate.clone(), source_error.clone(), sctl_error.clone());
            do_subscribe(p, s, c);"""),
]
R["interval_while"] = [
    ("observables/interval.rs", """      let mut n = 0;
      loop {
        thread::sleep(dur);
        if !s.is_subscribed() {
          break;
        }
        s.next(n);
        n += 1;
      }""", """      for n in 0.. {
        thread::sleep(dur);
        if s.is_subscribed() {
          s.next(n);
        } else {
          break;
        }
      }"""),
    ("observables/timer.rs", """    scheduler.post(move || {
      thread::sleep(dur);
      s.next(());
      s.complete();
      scheduler_in_post.abort();
    })""", """    let fire = move || {
      thread::sleep(dur);
      s.next(());
      s.complete();
    };
    scheduler.post(move || {
      fire();
      scheduler_in_post.abort();
    })"""),
    ("observables/from_iter.rs", """    for x in it.clone() {
      if s.is_subscribed() {
        s.next(x);
      } else {
        break;
      }
    }""", """    let mut it = it.clone();
    while s.is_subscribed() {
      match it.next() {
        Some(x) => s.next(x),
        None => break,
      }
    }"""),
    ("observables/repeat.rs", """    while s.is_subscribed() {
      s.next(x.clone());
    }""", """    loop {
      if !s.is_subscribed() {
        return;
      }
      s.next(x.clone());
    }"""),
]
R["ref_count_helper"] = [
    ("operators/ref_count.rs", """      let connected = match &*connection {
        Some(x) => x.is_subscribed(),
        None => false,
      };
      if connected || self.subject.observer_counter().call(()) == 0 {
        return;
      }
""", """      if connection.as_ref().map_or(false, |x| x.is_subscribed()) {
        return;
      }
      if self.subject.observer_counter().call(()) == 0 {
        return;
      }
"""),
    ("operators/ref_count.rs", """      let left = {
        let mut connection = connection.write().unwrap();
        if count.call(()) == 0 {
          connection.take().filter(|x| x.close())
        } else {
          None
        }
      };
      if let Some(observer) = left {
        observer.release();
      }""", """      let mut guard = connection.write().unwrap();
      if count.call(()) != 0 {
        return;
      }
      let left = guard.take();
      if let Some(observer) = left {
        let closed = observer.close();
        drop(guard);
        if closed {
          observer.release();
        }
      }"""),
]
R["to_vec_mutex"] = [
    ("operators/to_vec.rs", "done: Arc<RwLock<bool>>", "done: Arc<std::sync::atomic::AtomicBool>"),
    ("operators/to_vec.rs", "done: Arc::new(RwLock::new(false))", "done: Arc::new(std::sync::atomic::AtomicBool::new(false))"),
    ("operators/to_vec.rs", "*done_error.write().unwrap() = true;", "done_error.store(true, std::sync::atomic::Ordering::SeqCst);"),
    ("operators/to_vec.rs", "*done_complete.write().unwrap() = true;", "done_complete.store(true, std::sync::atomic::Ordering::SeqCst);"),
    ("operators/to_vec.rs", "if *self.done.read().unwrap() {", "if self.done.load(std::sync::atomic::Ordering::SeqCst) {"),
    ("operators/to_vec.rs", """        let waker = waker_error.read().unwrap().clone();
        if let Some(w) = waker {
          w.wake();
        }""", """        let waker = waker_error.write().unwrap().take();
        if let Some(w) = waker {
          w.wake();
        }"""),
    ("operators/to_vec.rs", """      if let Some(err) = &*self.err.read().unwrap() {
        task::Poll::Ready(Err(err.clone()))
      } else {
        task::Poll::Ready(Ok(Arc::clone(&self.buffer)))
      }""", """      let err = self.err.read().unwrap().clone();
      task::Poll::Ready(match err {
        Some(err) => Err(err),
        None => Ok(Arc::clone(&self.buffer)),
      })"""),
]
R["behavior_struct"] = [
    ("subjects/behavior_subject.rs", """          let event = {
            let mut events = events.write().unwrap();
            let event = events.0.pop_front();
            events.1 = event.is_some();
            event
          };
          match event {
            Some(Material::Next(x)) => s.next(x),
            Some(Material::Error(e)) => s.error(e),
            Some(Material::Complete) => s.complete(),
            None => break,
          }""", """          let mut guard = events.write().unwrap();
          let Some(event) = guard.0.pop_front() else {
            guard.1 = false;
            break;
          };
          guard.1 = true;
          drop(guard);
          match event {
            Material::Next(x) => s.next(x),
            Material::Error(e) => s.error(e),
            Material::Complete => s.complete(),
          }"""),
    ("subjects/behavior_subject.rs", """    let observers = {
      let mut last_item = self.last_item.write().unwrap();
      if last_item.is_none() || self.last_error.read().unwrap().is_some() {
        return;
      }
      *last_item = Some(item.clone());
      self.subject.fetch_observers()
    };
    observers.iter().for_each(|x| x.next(item.clone()));""", """    let mut last_item = self.last_item.write().unwrap();
    let failed = self.last_error.read().unwrap().is_some();
    if failed || last_item.is_none() {
      return;
    }
    last_item.replace(item.clone());
    let observers = self.subject.fetch_observers();
    drop(last_item);
    for o in observers {
      o.next(item.clone());
    }"""),
]
R["replay_loop"] = [
    ("subjects/replay_subject.rs", """          while s.is_subscribed() {
            let (item, error, completed) = {
              let mut cursor = cursor.write().unwrap();
              let items = items.read().unwrap();
              let item = items.get(cursor.0).cloned();
              let error = was_error.read().unwrap().clone();
              let completed = *was_completed.read().unwrap();
              cursor.0 += 1;
              if item.is_none() && error.is_none() && !completed {
                *cursor = (items.len(), false);
              }
              (item, error, completed)
            };
            if let Some(x) = item {
              s.next(x);
            } else if let Some(err) = error {
              s.error(err);
            } else if completed {
              s.complete();
            } else {
              return;
            }
          }""", """          loop {
            if !s.is_subscribed() {
              break;
            }
            let mut position = cursor.write().unwrap();
            let history = items.read().unwrap();
            let item = if position.0 < history.len() { Some(history[position.0].clone()) } else { None };
            let error = was_error.read().unwrap().clone();
            let completed = *was_completed.read().unwrap();
            let idle = item.is_none() && error.is_none() && !completed;
            if idle {
              position.0 = history.len();
              position.1 = false;
            } else {
              position.0 += 1;
            }
            drop(history);
            drop(position);
            match (item, error) {
              (Some(x), _) => s.next(x),
              (None, Some(err)) => s.error(err),
              (None, None) if completed => s.complete(),
              _ => return,
            }
          }"""),
]
R["observe_on_helper"] = [
    ("operators/observe_on.rs", """        move |_, x: Item| {
          let sctl_next = sctl_next.clone();
          scheduler_next.post(move || {
            sctl_next.sink_next(x.clone());
          });
        },""", """        move |_, x: Item| {
          let task = {
            let sctl = sctl_next.clone();
            move || sctl.sink_next(x.clone())
          };
          scheduler_next.post(task);
        },"""),
    ("operators/subscribe_on.rs", """      let scheduler_on_finalize = scheduler.clone();
      sctl.set_on_finalize(move || {
        scheduler_on_finalize.abort();
      });
""", """      {
        let scheduler = scheduler.clone();
        sctl.set_on_finalize(move || scheduler.abort());
      }
"""),
    ("operators/debounce.rs", "while sctl.is_subscribed() {\n            thread::sleep(dur);", "loop {\n            if !sctl.is_subscribed() {\n              break;\n            }\n            thread::sleep(dur);"),
]
R["switch_atomic"] = [
    ("operators/switch_on_next.rs", "let emitted = Arc::new(RwLock::new(false));", "let emitted = Arc::new(Mutex::new(false));"),
    ("operators/switch_on_next.rs", """            if *emitted.read().unwrap() {
              sctl_next.upstream_abort_observe(&serial);
            } else {
              sctl_next.sink_next(x);
            }""", """            let switched = *emitted.lock().unwrap();
            match switched {
              true => sctl_next.upstream_abort_observe(&serial),
              false => sctl_next.sink_next(x),
            }"""),
    ("operators/switch_on_next.rs", "*emitted.write().unwrap() = true;", "*emitted.lock().unwrap() = true;"),
    ("operators/switch_on_next.rs", "use std::sync::{Arc, RwLock};", "use std::sync::{Arc, Mutex};"),
]
R["subscription_map"] = [
    ("subscription.rs", """    if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
      x
    } else {
      false
    }""", "    self.fn_is_subscribed.call_if_available(()).unwrap_or(false)"),
    ("observable.rs", """    let unsub_observer = observer.clone();
    let issub_observer = observer.clone();
    self.source.call(observer.clone());
    Subscription::new(
      move || {
        unsub_observer.unsubscribe();
      },
      move || issub_observer.is_subscribed(),
    )""", """    let (a, b) = (observer.clone(), observer.clone());
    let subscription = Subscription::new(move || a.unsubscribe(), move || b.is_subscribed());
    self.source.call(observer);
    subscription"""),
]
R["timeout_helper"] = [
    ("operators/timeout.rs", """          let timer = timer.write().unwrap().take();
          if let Some(timer) = timer {
            timer.unsubscribe();
          }""", """          let old = std::mem::take(&mut *timer.write().unwrap());
          match old {
            Some(t) => t.unsubscribe(),
            None => {}
          }"""),
    ("operators/time_interval.rs", """          if let Some(start_time) = *start_time_next.read().unwrap() {
            sctl_next.sink_next(start_time.elapsed());
          }
          *start_time_next.write().unwrap() = Some(Instant::now());""", """          let start = *start_time_next.read().unwrap();
          if let Some(t) = start {
            sctl_next.sink_next(Instant::now().duration_since(t));
          }
          start_time_next.write().unwrap().replace(Instant::now());"""),
]
