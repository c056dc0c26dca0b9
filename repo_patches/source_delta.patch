From f0f5982a60217d9b8460f27ffed1419dbcb24870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:02 +0000
Subject: [PATCH 01/25] fix: Observer delivers nothing after its terminal event
 and releases its callbacks

A terminal event only cleared its own callback slot: items after a terminal, or
error after complete, were still delivered (also when racing), and the teardown
installed with set_on_unsubscribe was neither run nor released. The teardown was
also called with its lock held.
---
 src/internals/function_wrapper.rs |  3 +-
 src/observer.rs                   | 48 ++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/internals/function_wrapper.rs b/src/internals/function_wrapper.rs
index 58deba9..d696320 100644
--- a/src/internals/function_wrapper.rs
+++ b/src/internals/function_wrapper.rs
@@ -36,7 +36,8 @@ where
     }
   }
   pub fn clear(&self) {
-    *self.inner.write().unwrap() = None;
+    let f = self.inner.write().unwrap().take();
+    drop(f); // after the lock has been released
   }
   pub fn empty(&self) -> bool {
     self.inner.read().unwrap().is_none()
diff --git a/src/observer.rs b/src/observer.rs
index b6cd151..5648988 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -1,6 +1,9 @@
 use crate::internals::function_wrapper::*;
 use crate::prelude::*;
-use std::sync::{Arc, RwLock};
+use std::sync::{
+  atomic::{AtomicBool, Ordering},
+  Arc, RwLock,
+};
 
 #[derive(Clone)]
 pub struct Observer<'a, T>
@@ -11,6 +14,7 @@ where
   fn_error: FunctionWrapper<'a, RxError, ()>,
   fn_complete: FunctionWrapper<'a, (), ()>,
   fn_on_unsubscribe: Arc<RwLock<Option<FunctionWrapper<'a, (), ()>>>>,
+  closed: Arc<AtomicBool>,
 }
 
 impl<'a, T> Observer<'a, T>
@@ -32,28 +36,38 @@ where
       fn_error: FunctionWrapper::new(error),
       fn_complete: FunctionWrapper::new(move |_| complete()),
       fn_on_unsubscribe: Arc::new(RwLock::new(None)),
+      closed: Arc::new(AtomicBool::new(false)),
     }
   }
   pub fn next(&self, x: T) {
     self.fn_next.call_if_available(x);
   }
   pub fn error(&self, x: RxError) {
-    self.fn_error.call_and_clear_if_available(x);
+    if self.close() {
+      self.fn_next.clear();
+      self.fn_complete.clear();
+      self.fn_error.call_and_clear_if_available(x);
+      self.call_on_unsubscribe();
+    }
   }
   pub fn complete(&self) {
-    self.fn_complete.call_and_clear_if_available(());
+    if self.close() {
+      self.fn_next.clear();
+      self.fn_error.clear();
+      self.fn_complete.call_and_clear_if_available(());
+      self.call_on_unsubscribe();
+    }
   }
   pub fn unsubscribe(&self) {
-    self.fn_next.clear();
-    self.fn_error.clear();
-    self.fn_complete.clear();
-    if let Some(f) = &*self.fn_on_unsubscribe.read().unwrap() {
-      f.call(());
+    if self.close() {
+      self.fn_next.clear();
+      self.fn_error.clear();
+      self.fn_complete.clear();
     }
-    *self.fn_on_unsubscribe.write().unwrap() = None;
+    self.call_on_unsubscribe();
   }
   pub fn is_subscribed(&self) -> bool {
-    self.fn_next.exists() && self.fn_error.exists() && self.fn_complete.exists()
+    !self.closed.load(Ordering::SeqCst)
   }
   pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
   where
@@ -61,6 +75,20 @@ where
   {
     *self.fn_on_unsubscribe.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.is_subscribed() {
+      self.call_on_unsubscribe();
+    }
+  }
+
+  // Only the first of `error`, `complete` and `unsubscribe` closes the observer.
+  fn close(&self) -> bool {
+    !self.closed.swap(true, Ordering::SeqCst)
+  }
+  fn call_on_unsubscribe(&self) {
+    let f = self.fn_on_unsubscribe.write().unwrap().take();
+    if let Some(f) = f {
+      f.call(());
+    }
   }
 }
 
-- 
2.43.0


From 16b7a8580e1f23ccb79ac695b5b414f33cdc0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 02/25] fix: StreamController releases its subscriber and late
 observers when it is finalized

A pipeline that ended by a terminal event kept the subscriber, its callbacks and
every operator closure alive through the reference cycle subscriber -> teardown ->
controller -> subscriber. finalize also called out with its locks held, and an
observer or an on_finalize registered after the end stayed live for ever.
---
 src/internals/stream_controller.rs | 32 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index bda8774..d7eb6ca 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -42,6 +42,9 @@ where
   {
     *self.on_finalize.write().unwrap() =
       Some(FunctionWrapper::new(move |_| f()));
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
   }
 
   pub fn new_observer<XItem, Next, Error, Complete>(
@@ -73,11 +76,16 @@ where
     );
     let o_unsub = observer.clone();
 
-    let mut unsubscribers = self.unscribers.write().unwrap();
-    unsubscribers.insert(
-      serial.clone(),
-      FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
-    );
+    {
+      let mut unsubscribers = self.unscribers.write().unwrap();
+      unsubscribers.insert(
+        serial.clone(),
+        FunctionWrapper::new(move |_| o_unsub.unsubscribe()),
+      );
+    }
+    if !self.subscriber.is_subscribed() {
+      self.finalize();
+    }
     observer
   }
 
@@ -122,25 +130,21 @@ where
   }
 
   pub fn upstream_abort_observe(&self, serial: &i32) {
-    let mut observers = self.unscribers.write().unwrap();
-    let o = observers.remove(serial);
+    let o = self.unscribers.write().unwrap().remove(serial);
     if let Some(o) = o {
       o.call(());
     }
   }
 
   pub fn finalize(&self) {
-    self.unscribers.read().unwrap().iter().for_each(|x| {
+    self.subscriber.unsubscribe();
+    let unscribers = std::mem::take(&mut *self.unscribers.write().unwrap());
+    unscribers.iter().for_each(|x| {
       x.1.call(());
     });
-    self.unscribers.write().unwrap().clear();
-    if self.subscriber.is_subscribed() {
-      self.subscriber.unsubscribe();
-    }
-    let on_finalize = &mut *self.on_finalize.write().unwrap();
+    let on_finalize = self.on_finalize.write().unwrap().take();
     if let Some(f) = on_finalize {
       f.call(());
-      *on_finalize = None;
     }
   }
 
-- 
2.43.0


From 2854173058ba521b50a63b9206b27b2d448632f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 03/25] fix: an operator that completes early unsubscribes its
 source

sink_complete only forgot the input: the source of take_while, contains and
dematerialize kept seeing is_subscribed() == true after the subscription ended.
---
 src/internals/stream_controller.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/internals/stream_controller.rs b/src/internals/stream_controller.rs
index d7eb6ca..d445fbd 100644
--- a/src/internals/stream_controller.rs
+++ b/src/internals/stream_controller.rs
@@ -108,11 +108,13 @@ where
 
   pub fn sink_complete(&self, serial: &i32) {
     if self.subscriber.is_subscribed() {
-      let done_all = {
+      let (o, done_all) = {
         let mut observers = self.unscribers.write().unwrap();
-        observers.remove(serial);
-        observers.len() == 0
+        (observers.remove(serial), observers.len() == 0)
       };
+      if let Some(o) = o {
+        o.call(());
+      }
       if done_all {
         self.subscriber.complete();
         self.finalize();
-- 
2.43.0


From ccda9f625fcd1cdd96f33a66f7aa3ccdeeb468e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 04/25] fix: default_if_empty keeps its state per subscription

---
 src/operators/default_if_empty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/default_if_empty.rs b/src/operators/default_if_empty.rs
index 936ef39..127dfd6 100644
--- a/src/operators/default_if_empty.rs
+++ b/src/operators/default_if_empty.rs
@@ -19,9 +19,9 @@ where
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let default = self.default.clone();
-    let emitted = Arc::new(RwLock::new(false));
 
     Observable::<Item>::create(move |s| {
+      let emitted = Arc::new(RwLock::new(false));
       let default_complete = default.clone();
 
       let emitted_next = Arc::clone(&emitted);
-- 
2.43.0


From 32af85bdb05dc6daf7c43e6dc04fa8e054b873c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 05/25] fix: skip_while discards items until its condition
 becomes false

The condition was inverted: items were discarded while it was false.
---
 src/operators/skip_while.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/skip_while.rs b/src/operators/skip_while.rs
index 3951f0b..9c935a7 100644
--- a/src/operators/skip_while.rs
+++ b/src/operators/skip_while.rs
@@ -38,9 +38,9 @@ where
           if *enable.read().unwrap() {
             sctl_next.sink_next(x);
           } else {
-            if f.call(x.clone()) {
-              sctl_next.sink_next(x);
+            if !f.call(x.clone()) {
               *enable.write().unwrap() = true;
+              sctl_next.sink_next(x);
             }
           }
         },
-- 
2.43.0


From a9b34497231da032dc6a6695ccb357ac437bd50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 06/25] fix: tap acts for every subscription

The observer behind tap was shared between subscriptions, so its error and
complete callbacks ran for the first one only.
---
 src/operators/tap.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/operators/tap.rs b/src/operators/tap.rs
index 81c13ed..61c2f61 100644
--- a/src/operators/tap.rs
+++ b/src/operators/tap.rs
@@ -1,4 +1,4 @@
-use crate::internals::stream_controller::*;
+use crate::internals::{function_wrapper::*, stream_controller::*};
 use crate::prelude::*;
 
 #[derive(Clone)]
@@ -6,7 +6,9 @@ pub struct Tap<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  tap_observer: Observer<'a, Item>,
+  tap_next: FunctionWrapper<'a, Item, ()>,
+  tap_error: FunctionWrapper<'a, RxError, ()>,
+  tap_complete: FunctionWrapper<'a, (), ()>,
 }
 
 impl<'a, Item> Tap<'a, Item>
@@ -24,12 +26,16 @@ where
     Complete: Fn() + Send + Sync + 'a,
   {
     Tap {
-      tap_observer: Observer::new(next, error, complete),
+      tap_next: FunctionWrapper::new(next),
+      tap_error: FunctionWrapper::new(error),
+      tap_complete: FunctionWrapper::new(move |_| complete()),
     }
   }
 
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let tap_observer = self.tap_observer.clone();
+    let tap_next = self.tap_next.clone();
+    let tap_error = self.tap_error.clone();
+    let tap_complete = self.tap_complete.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
       let source_next = source.clone();
@@ -38,20 +44,20 @@ where
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
 
-      let tap_observer_next = tap_observer.clone();
-      let tap_observer_error = tap_observer.clone();
-      let tap_observer_complete = tap_observer.clone();
+      let tap_next = tap_next.clone();
+      let tap_error = tap_error.clone();
+      let tap_complete = tap_complete.clone();
       source_next.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
-          tap_observer_next.next(x.clone());
+          tap_next.call(x.clone());
           sctl_next.sink_next(x);
         },
         move |_, e| {
-          tap_observer_error.error(e.clone());
+          tap_error.call(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          tap_observer_complete.complete();
+          tap_complete.call(());
           sctl_complete.sink_complete(&serial)
         },
       ));
-- 
2.43.0


From 83fedd102ae4b87d279fceae49e45443eb59f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 07/25] fix: window_with_count(1) opens a window per item; no
 lock is held while emitting

---
 src/operators/window_with_count.rs | 33 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/operators/window_with_count.rs b/src/operators/window_with_count.rs
index 8bf13cc..ebd6627 100644
--- a/src/operators/window_with_count.rs
+++ b/src/operators/window_with_count.rs
@@ -44,27 +44,38 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          let mut n = n.write().unwrap();
-          if *n == 0 {
-            sctl_next.sink_next(sbj_next.read().unwrap().observable());
-            sbj_next.read().unwrap().next(x);
-            *n += 1;
-          } else {
-            sbj_next.read().unwrap().next(x);
+          let (sbj, opened, full) = {
+            let mut n = n.write().unwrap();
+            let mut sbj = sbj_next.write().unwrap();
+            let opened = *n == 0;
             *n += 1;
             if *n == count {
-              sbj_next.read().unwrap().complete();
-              *sbj_next.write().unwrap() = subjects::Subject::<Item>::new();
               *n = 0;
+              let full = std::mem::replace(
+                &mut *sbj,
+                subjects::Subject::<Item>::new(),
+              );
+              (full, opened, true)
+            } else {
+              (sbj.clone(), opened, false)
             }
+          };
+          if opened {
+            sctl_next.sink_next(sbj.observable());
+          }
+          sbj.next(x);
+          if full {
+            sbj.complete();
           }
         },
         move |_, e| {
-          sbj_error.read().unwrap().error(e.clone());
+          let sbj = sbj_error.read().unwrap().clone();
+          sbj.error(e.clone());
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbj_complete.read().unwrap().complete();
+          let sbj = sbj_complete.read().unwrap().clone();
+          sbj.complete();
           sctl_complete.sink_complete(&serial);
         },
       ));
-- 
2.43.0


From 6ec244db6e046118434de295037e2f38242a2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 08/25] fix: group_by emits groups and their terminal without
 holding its lock

---
 src/operators/group_by.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/operators/group_by.rs b/src/operators/group_by.rs
index abdd0c4..de463ae 100644
--- a/src/operators/group_by.rs
+++ b/src/operators/group_by.rs
@@ -50,27 +50,31 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |_, x: Item| {
           let key = f.call(x.clone()); // Umm, can I use it as a reference?
-          let sbj = {
+          let (sbj, is_new) = {
             let mut sbjmap = sbjmap_next.write().unwrap();
             if let Some(sbj) = sbjmap.get(&key) {
-              sbj.clone()
+              (sbj.clone(), false)
             } else {
               let sbj = subjects::Subject::<Item>::new();
               sbjmap.insert(key, sbj.clone());
-              sctl_next.sink_next(sbj.observable());
-              sbj
+              (sbj, true)
             }
           };
+          if is_new {
+            sctl_next.sink_next(sbj.observable());
+          }
           sbj.next(x);
         },
         move |_, e| {
-          sbjmap_error.read().unwrap().iter().for_each(|x| {
+          let sbjs = sbjmap_error.read().unwrap().clone();
+          sbjs.iter().for_each(|x| {
             x.1.error(e.clone());
           });
           sctl_error.sink_error(e);
         },
         move |serial| {
-          sbjmap_complete.read().unwrap().iter().for_each(|x| {
+          let sbjs = sbjmap_complete.read().unwrap().clone();
+          sbjs.iter().for_each(|x| {
             x.1.complete();
           });
           sctl_complete.sink_complete(&serial);
-- 
2.43.0


From 6fb6409d66a0595b557733fbc0142bb8abedbb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 09/25] fix: scan emits without holding its lock

---
 src/operators/scan.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/operators/scan.rs b/src/operators/scan.rs
index 7f72e59..f812e13 100644
--- a/src/operators/scan.rs
+++ b/src/operators/scan.rs
@@ -36,17 +36,17 @@ where
 
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
+          let x = {
             let mut r = result_next.write().unwrap();
-            if let Some(xx) = &*r {
-              *r = Some(f.call((xx.clone(), x)));
+            let x = if let Some(xx) = &*r {
+              f.call((xx.clone(), x))
             } else {
-              *r = Some(x);
-            }
-          }
-          if let Some(x) = &*result_next.read().unwrap() {
-            sctl_next.sink_next(x.clone());
-          }
+              x
+            };
+            *r = Some(x.clone());
+            x
+          };
+          sctl_next.sink_next(x);
         },
         move |_, e| {
           sctl_error.sink_error(e);
-- 
2.43.0


From ce3193650f65ddafd823bc9d44ee2d4d2ec357b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 10/25] fix: element_at delivers nothing when the source is
 shorter

---
 src/operators/element_at.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operators/element_at.rs b/src/operators/element_at.rs
index 14b60e3..a4f318e 100644
--- a/src/operators/element_at.rs
+++ b/src/operators/element_at.rs
@@ -7,6 +7,7 @@ where
   Item: Clone + Send + Sync,
 {
   take_op: operators::Take<Item>,
+  skip: usize,
 }
 
 impl<'a, Item> ElementAt<Item>
@@ -16,10 +17,12 @@ where
   pub fn new(count: usize) -> ElementAt<Item> {
     ElementAt {
       take_op: operators::Take::<Item>::new(count),
+      skip: count.saturating_sub(1),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
     let take_op = self.take_op.clone();
+    let skip = self.skip;
 
     Observable::<Item>::create(move |s| {
       let source = source.clone();
@@ -31,7 +34,7 @@ where
 
       take_op
         .execute(source)
-        .last()
+        .skip(skip)
         .inner_subscribe(sctl.new_observer(
           move |_, x| {
             sctl_next.sink_next(x);
-- 
2.43.0


From 8b19d07833240f4ba7e0a7bf06473c9aa8703ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 11/25] fix: Subject takes its observers atomically and calls
 out without its locks

---
 src/subjects/subject.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 34dd4b6..3268581 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -34,6 +34,11 @@ where
     Vec::from_iter(x)
   }
 
+  fn take_observers(&self) -> Vec<Observer<'a, Item>> {
+    let observers = std::mem::take(&mut *self.observers.write().unwrap());
+    Vec::from_iter(observers.into_iter().map(|x| x.1))
+  }
+
   pub fn next(&self, item: Item) {
     self
       .fetch_observers()
@@ -41,13 +46,11 @@ where
       .for_each(move |x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
+    let obs = self.take_observers();
     obs.into_iter().for_each(move |x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    let obs = self.fetch_observers();
-    self.observers.write().unwrap().clear();
+    let obs = self.take_observers();
     obs.into_iter().for_each(|x| x.complete());
   }
 
@@ -73,17 +76,24 @@ where
             observers.remove(&serial);
             observers.len()
           };
-          if let Some(on_unsubscribe) = &*on_unsubscribe.read().unwrap() {
+          let on_unsubscribe = on_unsubscribe.read().unwrap().clone();
+          if let Some(on_unsubscribe) = on_unsubscribe {
             on_unsubscribe.call(len);
           }
         });
       }
       let len = {
         let mut observers = observers.write().unwrap();
-        observers.insert(serial, s);
+        observers.insert(serial, s.clone());
         observers.len()
       };
-      if let Some(on_subscribe) = &*on_subscribe.read().unwrap() {
+      if !s.is_subscribed() {
+        // it has ended meanwhile
+        observers.write().unwrap().remove(&serial);
+        return;
+      }
+      let on_subscribe = on_subscribe.read().unwrap().clone();
+      if let Some(on_subscribe) = on_subscribe {
         on_subscribe.call(len);
       }
     })
-- 
2.43.0


From 9eee913ad6f746312e14491e1eb3eda1ecae832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 12/25] fix: BehaviorSubject hands over without gap, calls out
 without its locks and ends once

---
 src/subjects/behavior_subject.rs | 124 ++++++++++++++++++++++---------
 src/subjects/subject.rs          |   4 +-
 2 files changed, 92 insertions(+), 36 deletions(-)

diff --git a/src/subjects/behavior_subject.rs b/src/subjects/behavior_subject.rs
index c4c079c..bb493d1 100644
--- a/src/subjects/behavior_subject.rs
+++ b/src/subjects/behavior_subject.rs
@@ -1,4 +1,6 @@
+use crate::internals::function_wrapper::*;
 use crate::prelude::*;
+use std::collections::VecDeque;
 use std::sync::{Arc, RwLock};
 
 #[derive(Clone)]
@@ -24,16 +26,38 @@ where
   }
 
   pub fn next(&self, item: Item) {
-    *self.last_item.write().unwrap() = Some(item.clone());
-    self.subject.next(item);
+    let observers = {
+      let mut last_item = self.last_item.write().unwrap();
+      if last_item.is_none() || self.last_error.read().unwrap().is_some() {
+        return;
+      }
+      *last_item = Some(item.clone());
+      self.subject.fetch_observers()
+    };
+    observers.iter().for_each(|x| x.next(item.clone()));
   }
   pub fn error(&self, err: RxError) {
-    *self.last_error.write().unwrap() = Some(err.clone());
-    self.subject.error(err);
+    let observers = {
+      let last_item = self.last_item.write().unwrap();
+      let mut last_error = self.last_error.write().unwrap();
+      if last_item.is_none() || last_error.is_some() {
+        return;
+      }
+      *last_error = Some(err.clone());
+      self.subject.take_observers()
+    };
+    observers.iter().for_each(|x| x.error(err.clone()));
   }
   pub fn complete(&self) {
-    *self.last_item.write().unwrap() = None;
-    self.subject.complete();
+    let observers = {
+      let mut last_item = self.last_item.write().unwrap();
+      if last_item.is_none() || self.last_error.read().unwrap().is_some() {
+        return;
+      }
+      *last_item = None;
+      self.subject.take_observers()
+    };
+    observers.iter().for_each(|x| x.complete());
   }
   pub fn observable(&self) -> Observable<'a, Item> {
     let last_item = Arc::clone(&self.last_item);
@@ -41,42 +65,74 @@ where
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
+      // Events not yet delivered, and whether someone is delivering them:
+      // what arrives during the hand-over of the current value waits.
+      let events = Arc::new(RwLock::new((
+        VecDeque::<Material<Item>>::new(),
+        true,
+      )));
+      let deliver = {
+        let s = s.clone();
+        let events = Arc::clone(&events);
+        FunctionWrapper::new(move |_: ()| loop {
+          let event = {
+            let mut events = events.write().unwrap();
+            let event = events.0.pop_front();
+            events.1 = event.is_some();
+            event
+          };
+          match event {
+            Some(Material::Next(x)) => s.next(x),
+            Some(Material::Error(e)) => s.error(e),
+            Some(Material::Complete) => s.complete(),
+            None => break,
+          }
+        })
+      };
+      let push = {
+        let events = Arc::clone(&events);
+        let deliver = deliver.clone();
+        FunctionWrapper::new(move |event| {
+          let busy = {
+            let mut events = events.write().unwrap();
+            events.0.push_back(event);
+            std::mem::replace(&mut events.1, true)
+          };
+          if !busy {
+            deliver.call(());
+          }
+        })
+      };
+
+      let push_next = push.clone();
+      let push_error = push.clone();
+      let push_complete = push;
+      let observer = Observer::new(
+        move |x| push_next.call(Material::Next(x)),
+        move |e| push_error.call(Material::Error(e)),
+        move || push_complete.call(Material::Complete),
+      );
       {
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
+      }
+
+      {
+        // no event is missed between the current value and the registration
         let last_item = &*last_item.read().unwrap();
         let last_error = &*last_error.read().unwrap();
+        let mut events = events.write().unwrap();
 
         if let Some(err) = last_error {
-          s.error(err.clone());
-          return;
-        }
-        if let Some(item) = last_item {
-          s.next(item.clone());
+          events.0.push_back(Material::Error(err.clone()));
+        } else if let Some(item) = last_item {
+          events.0.push_back(Material::Next(item.clone()));
+          subject.observable().inner_subscribe(observer);
         } else {
-          s.complete();
-          return;
+          events.0.push_back(Material::Complete);
         }
       }
-
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
-      }
-
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-      *sbsc.write().unwrap() = Some(subject.observable().subscribe(
-        move |x| s_next.next(x),
-        move |e| s_error.error(e),
-        move || {
-          s_complete.complete();
-        },
-      ));
+      deliver.call(());
     })
   }
 }
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index 3268581..c624ec2 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -28,13 +28,13 @@ where
     }
   }
 
-  fn fetch_observers(&self) -> Vec<Observer<'a, Item>> {
+  pub(crate) fn fetch_observers(&self) -> Vec<Observer<'a, Item>> {
     let binding = self.observers.read().unwrap();
     let x = binding.iter().map(|x| x.1.clone());
     Vec::from_iter(x)
   }
 
-  fn take_observers(&self) -> Vec<Observer<'a, Item>> {
+  pub(crate) fn take_observers(&self) -> Vec<Observer<'a, Item>> {
     let observers = std::mem::take(&mut *self.observers.write().unwrap());
     Vec::from_iter(observers.into_iter().map(|x| x.1))
   }
-- 
2.43.0


From 52fa71989ed0877339804662c67b30baf35d6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 13/25] fix: ReplaySubject delivers its history in push order,
 once, without its locks, and ends once

---
 src/subjects/replay_subject.rs | 116 +++++++++++++++++++++------------
 1 file changed, 75 insertions(+), 41 deletions(-)

diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index 9c33645..d458637 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -1,3 +1,4 @@
+use crate::internals::function_wrapper::*;
 use crate::prelude::*;
 use std::sync::{Arc, RwLock};
 
@@ -26,17 +27,39 @@ where
   }
 
   pub fn next(&self, item: Item) {
-    (*self.items.write().unwrap()).push(item.clone());
+    {
+      let mut items = self.items.write().unwrap();
+      if self.is_ended() {
+        return;
+      }
+      items.push(item.clone());
+    }
     self.subject.next(item);
   }
   pub fn error(&self, err: RxError) {
-    *self.was_error.write().unwrap() = Some(err.clone());
+    {
+      let _items = self.items.write().unwrap();
+      if self.is_ended() {
+        return;
+      }
+      *self.was_error.write().unwrap() = Some(err.clone());
+    }
     self.subject.error(err);
   }
   pub fn complete(&self) {
-    *self.was_completed.write().unwrap() = true;
+    {
+      let _items = self.items.write().unwrap();
+      if self.is_ended() {
+        return;
+      }
+      *self.was_completed.write().unwrap() = true;
+    }
     self.subject.complete();
   }
+  fn is_ended(&self) -> bool {
+    self.was_error.read().unwrap().is_some()
+      || *self.was_completed.read().unwrap()
+  }
   pub fn observable(&self) -> Observable<'a, Item> {
     let items = Arc::clone(&self.items);
     let was_error = Arc::clone(&self.was_error);
@@ -44,52 +67,63 @@ where
     let subject = Arc::clone(&self.subject);
 
     Observable::create(move |s| {
-      let sbsc = Arc::new(RwLock::new(None::<Subscription>));
-      {
-        let sbsc = Arc::clone(&sbsc);
-        s.set_on_unsubscribe(move || {
-          if let Some(sbsc) = &*sbsc.read().unwrap() {
-            sbsc.unsubscribe();
-          }
-        });
-      }
-
       let items = Arc::clone(&items);
       let was_error = Arc::clone(&was_error);
       let was_completed = Arc::clone(&was_completed);
 
-      let s_next = s.clone();
-      let s_error = s.clone();
-      let s_complete = s.clone();
-
-      *sbsc.write().unwrap() = Some(
-        utils::ready_set_go(
-          move || {
-            // block until emitted for replay
-            let items = &items.read().unwrap();
-            let was_error = &*was_error.read().unwrap();
-            let was_completed = &*was_completed.read().unwrap();
-            items.iter().for_each(|x| {
-              s.next(x.clone());
-            });
-            if let Some(err) = &*was_error {
-              s.error(err.clone());
-              return;
-            } else if *was_completed {
+      // Index of the next item to deliver, and whether someone is delivering:
+      // both the history and what is pushed meanwhile come from `items`.
+      let cursor = Arc::new(RwLock::new((0, false)));
+      let deliver = {
+        let s = s.clone();
+        FunctionWrapper::new(move |_: ()| {
+          if std::mem::replace(&mut cursor.write().unwrap().1, true) {
+            return;
+          }
+          while s.is_subscribed() {
+            let (item, error, completed) = {
+              let mut cursor = cursor.write().unwrap();
+              let items = items.read().unwrap();
+              let item = items.get(cursor.0).cloned();
+              let error = was_error.read().unwrap().clone();
+              let completed = *was_completed.read().unwrap();
+              cursor.0 += 1;
+              if item.is_none() && error.is_none() && !completed {
+                *cursor = (items.len(), false);
+              }
+              (item, error, completed)
+            };
+            if let Some(x) = item {
+              s.next(x);
+            } else if let Some(err) = error {
+              s.error(err);
+            } else if completed {
               s.complete();
+            } else {
               return;
             }
-          },
-          subject.observable(),
-        )
-        .subscribe(
-          move |x| s_next.next(x),
-          move |e| s_error.error(e),
-          move || {
-            s_complete.complete();
-          },
-        ),
+          }
+        })
+      };
+
+      let deliver_next = deliver.clone();
+      let deliver_error = deliver.clone();
+      let deliver_complete = deliver.clone();
+      let observer = Observer::new(
+        move |_| deliver_next.call(()),
+        move |_| deliver_error.call(()),
+        move || deliver_complete.call(()),
       );
+      {
+        let observer = observer.clone();
+        s.set_on_unsubscribe(move || observer.unsubscribe());
+      }
+
+      utils::ready_set_go(
+        move || deliver.call(()),
+        subject.observable(),
+      )
+      .inner_subscribe(observer);
     })
   }
 
-- 
2.43.0


From cd45039f4d762f15cc6637c642a15b0fa842af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 14/25] fix: AsyncSubject hands its last item to late
 subscribers

---
 src/subjects/async_subject.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subjects/async_subject.rs b/src/subjects/async_subject.rs
index 5c6e2c8..b9d1026 100644
--- a/src/subjects/async_subject.rs
+++ b/src/subjects/async_subject.rs
@@ -6,7 +6,7 @@ pub struct AsyncSubject<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  subject: Arc<subject::Subject<'a, Item>>,
+  subject: Arc<replay_subject::ReplaySubject<'a, Item>>,
 }
 
 impl<'a, Item> AsyncSubject<'a, Item>
@@ -15,7 +15,7 @@ where
 {
   pub fn new() -> AsyncSubject<'a, Item> {
     AsyncSubject {
-      subject: Arc::new(subjects::Subject::new()),
+      subject: Arc::new(subjects::ReplaySubject::new()),
     }
   }
 
-- 
2.43.0


From 30f7fdcaa6afc19780c90efd09e26f6c648539fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 15/25] fix: ref_count and replay connect without holding a
 lock, reconnect, and form no reference cycle

---
 src/operators/ref_count.rs     | 90 ++++++++++++++++++---------------
 src/operators/replay.rs        | 91 +++++++++++++++++++---------------
 src/subjects/replay_subject.rs | 30 ++++++++---
 src/subjects/subject.rs        | 12 +++++
 4 files changed, 137 insertions(+), 86 deletions(-)

diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index 5d4db86..e0849c2 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -9,7 +9,7 @@ where
 {
   subject: subjects::Subject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> RefCount<'a, Item>
@@ -20,58 +20,68 @@ where
     let _self = RefCount {
       subject: Subject::<Item>::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable()
+    let _self = self.clone();
+    Observable::create(move |s| {
+      _self.subject.observable().inner_subscribe(s);
+      _self.connect();
+    })
   }
 
   fn set_ref_count(&self) {
-    {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
-          }
+    let count = self.subject.observer_counter();
+    let connection = Arc::clone(&self.connection);
+    self.subject.set_on_unsubscribe(move |_| {
+      let left = {
+        let mut connection = connection.write().unwrap();
+        if count.call(()) == 0 {
+          connection.take()
+        } else {
+          None
         }
-      });
-    }
-
-    let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        ));
+      };
+      if let Some(observer) = left {
+        observer.unsubscribe();
       }
     });
   }
+
+  fn connect(&self) {
+    let observer = {
+      let mut connection = self.connection.write().unwrap();
+      let connected = match &*connection {
+        Some(x) => x.is_subscribed(),
+        None => false,
+      };
+      if connected || self.subject.observer_counter().call(()) == 0 {
+        return;
+      }
+
+      let sbj_next = self.subject.clone();
+      let sbj_error = self.subject.clone();
+      let sbj_complete = self.subject.clone();
+      let observer = Observer::new(
+        move |x| {
+          sbj_next.next(x);
+        },
+        move |e| {
+          sbj_error.error(e);
+        },
+        move || {
+          sbj_complete.complete();
+        },
+      );
+      *connection = Some(observer.clone());
+      observer
+    };
+    self.source.inner_subscribe(observer);
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index cae0f42..3b07562 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -8,7 +8,7 @@ where
 {
   subject: subjects::ReplaySubject<'a, Item>,
   source: Observable<'a, Item>,
-  subscription: Arc<RwLock<Option<Subscription<'a>>>>,
+  connection: Arc<RwLock<Option<Observer<'a, Item>>>>,
 }
 
 impl<'a, Item> Replay<'a, Item>
@@ -19,58 +19,69 @@ where
     let _self = Replay {
       subject: subjects::ReplaySubject::new(),
       source,
-      subscription: Arc::new(RwLock::new(None)),
+      connection: Arc::new(RwLock::new(None)),
     };
     _self.set_ref_count();
     _self
   }
 
   pub fn observable(&self) -> Observable<'a, Item> {
-    self.subject.observable()
+    let _self = self.clone();
+    Observable::create(move |s| {
+      _self.subject.observable().inner_subscribe(s);
+      _self.connect();
+    })
   }
 
   fn set_ref_count(&self) {
-    {
-      let subscription = Arc::clone(&self.subscription);
-      self.subject.set_on_unsubscribe(move |count| {
-        if count == 0 {
-          if let Some(sbsc) = &*subscription.read().unwrap() {
-            sbsc.unsubscribe();
-          }
+    let count = self.subject.observer_counter();
+    let erase = self.subject.history_eraser();
+    let connection = Arc::clone(&self.connection);
+    self.subject.set_on_unsubscribe(move |_| {
+      let left = {
+        let mut connection = connection.write().unwrap();
+        if count.call(()) == 0 {
+          connection.take()
+        } else {
+          None
         }
-      });
-    }
-
-    let source = self.source.clone();
-    let subject = self.subject.clone();
-    let subscription = Arc::clone(&self.subscription);
-
-    self.subject.set_on_subscribe(move |count| {
-      if count == 1 {
-        // connect
-        let sbj_next = subject.clone();
-        let sbj_error = subject.clone();
-        let sbj_complete = subject.clone();
-
-        let mut subscription = subscription.write().unwrap();
-        if subscription.is_some() {
-          return;
-        }
-
-        *subscription = Some(source.subscribe(
-          move |x| {
-            sbj_next.next(x);
-          },
-          move |e| {
-            sbj_error.error(e);
-          },
-          move || {
-            sbj_complete.complete();
-          },
-        ));
+      };
+      if let Some(observer) = left {
+        observer.unsubscribe();
+        erase.call(());
       }
     });
   }
+
+  fn connect(&self) {
+    let observer = {
+      let mut connection = self.connection.write().unwrap();
+      if connection.is_some()
+        || self.subject.is_ended()
+        || self.subject.observer_counter().call(()) == 0
+      {
+        return;
+      }
+
+      let sbj_next = self.subject.clone();
+      let sbj_error = self.subject.clone();
+      let sbj_complete = self.subject.clone();
+      let observer = Observer::new(
+        move |x| {
+          sbj_next.next(x);
+        },
+        move |e| {
+          sbj_error.error(e);
+        },
+        move || {
+          sbj_complete.complete();
+        },
+      );
+      *connection = Some(observer.clone());
+      observer
+    };
+    self.source.inner_subscribe(observer);
+  }
 }
 
 impl<'a, Item> Observable<'a, Item>
diff --git a/src/subjects/replay_subject.rs b/src/subjects/replay_subject.rs
index d458637..dd88f21 100644
--- a/src/subjects/replay_subject.rs
+++ b/src/subjects/replay_subject.rs
@@ -56,7 +56,7 @@ where
     }
     self.subject.complete();
   }
-  fn is_ended(&self) -> bool {
+  pub(crate) fn is_ended(&self) -> bool {
     self.was_error.read().unwrap().is_some()
       || *self.was_completed.read().unwrap()
   }
@@ -127,11 +127,29 @@ where
     })
   }
 
-  pub(crate) fn set_on_subscribe<F>(&self, f: F)
-  where
-    F: Fn(usize) + Send + Sync + 'a,
-  {
-    self.subject.set_on_subscribe(f);
+  /// Forgets the history, unless it is final.
+  pub(crate) fn history_eraser(&self) -> FunctionWrapper<'a, (), ()> {
+    let items = Arc::clone(&self.items);
+    let was_error = Arc::clone(&self.was_error);
+    let was_completed = Arc::clone(&self.was_completed);
+    FunctionWrapper::new(move |_| {
+      let history = {
+        let mut items = items.write().unwrap();
+        if was_error.read().unwrap().is_some()
+          || *was_completed.read().unwrap()
+        {
+          return;
+        }
+        std::mem::take(&mut *items)
+      };
+      drop(history);
+    })
+  }
+
+  pub(crate) fn observer_counter(
+    &self,
+  ) -> FunctionWrapper<'a, (), usize> {
+    self.subject.observer_counter()
   }
 
   pub(crate) fn set_on_unsubscribe<F>(&self, f: F)
diff --git a/src/subjects/subject.rs b/src/subjects/subject.rs
index c624ec2..8846bb5 100644
--- a/src/subjects/subject.rs
+++ b/src/subjects/subject.rs
@@ -99,6 +99,18 @@ where
     })
   }
 
+  /// The number of registered observers, without keeping them alive.
+  pub(crate) fn observer_counter(
+    &self,
+  ) -> FunctionWrapper<'a, (), usize> {
+    let observers = Arc::downgrade(&self.observers);
+    FunctionWrapper::new(move |_| match observers.upgrade() {
+      Some(x) => x.read().unwrap().len(),
+      None => 0,
+    })
+  }
+
+  #[allow(dead_code)]
   pub(crate) fn set_on_subscribe<F>(&self, f: F)
   where
     F: Fn(usize) + Send + Sync + 'a,
-- 
2.43.0


From 900b5a27572dd5a96f5a440244cd227ff14b0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 16/25] fix: concat keeps its queue of observables per
 subscription

---
 src/operators/concat.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/operators/concat.rs b/src/operators/concat.rs
index 2c3f931..b139fa8 100644
--- a/src/operators/concat.rs
+++ b/src/operators/concat.rs
@@ -21,11 +21,12 @@ where
     Concat { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Item> {
-    let observables = Arc::new(RwLock::new(VecDeque::from_iter(
-      self.observables.clone().into_iter(),
-    )));
+    let observables = self.observables.clone();
     Observable::create(move |s| {
       let sctl = StreamController::new(s);
+      let observables = Arc::new(RwLock::new(VecDeque::from_iter(
+        observables.clone().into_iter(),
+      )));
 
       fn complete_and_next<'a, Item>(
         idx: usize,
@@ -34,11 +35,14 @@ where
       ) where
         Item: Clone + Send + Sync,
       {
-        if observables.read().unwrap().is_empty() {
-          sctl.sink_complete_force();
-          return;
-        }
-        let o = observables.write().unwrap().pop_front().unwrap();
+        let o = observables.write().unwrap().pop_front();
+        let o = match o {
+          Some(o) => o,
+          None => {
+            sctl.sink_complete_force();
+            return;
+          }
+        };
 
         let sctl_next = sctl.clone();
         let sctl_error = sctl.clone();
-- 
2.43.0


From c96adbe735b44caf5511eec3af0e131d81f49c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 17/25] fix: amb completes when its winner completes

---
 src/operators/amb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/amb.rs b/src/operators/amb.rs
index cbc605f..fb211e6 100644
--- a/src/operators/amb.rs
+++ b/src/operators/amb.rs
@@ -64,7 +64,7 @@ where
               },
               move |serial| {
                 if is_win_complete(&serial) {
-                  sctl_complete.sink_complete(&serial);
+                  sctl_complete.sink_complete_force();
                 } else {
                   sctl_complete.upstream_abort_observe(&serial);
                 }
-- 
2.43.0


From 85bfff2c29d5b5e94c768bdc6943f3ab297525ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 18/25] fix: combine_latest emits the latest items on every
 item

---
 src/operators/combine_latest.rs | 64 ++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/operators/combine_latest.rs b/src/operators/combine_latest.rs
index 83b746a..7f523c2 100644
--- a/src/operators/combine_latest.rs
+++ b/src/operators/combine_latest.rs
@@ -1,6 +1,10 @@
 use crate::internals::function_wrapper::FunctionWrapper;
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct CombineLatest<'a, Item, Out>
@@ -8,7 +12,7 @@ where
   Item: Clone + Send + Sync,
   Out: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
   combine_f: FunctionWrapper<'a, Vec<Item>, Out>,
 }
 
@@ -25,35 +29,55 @@ where
     F: Fn(Vec<Item>) -> Out + Send + Sync + 'a,
   {
     CombineLatest {
-      zip_op: operators::Zip::new(observables),
+      observables: observables.to_vec(),
       combine_f: FunctionWrapper::new(f),
     }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, Out> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
     let combine_f = self.combine_f.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-      let combine_f = combine_f.clone();
-
       let sctl = StreamController::new(s);
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      let latest =
+        Arc::new(RwLock::new(vec![None::<Item>; observables.len() + 1]));
+
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        let combine_f = combine_f.clone();
+        VecDeque::from_iter((0..(observables.len() + 1)).map(move |id| {
+          let latest = Arc::clone(&latest);
+          let combine_f = combine_f.clone();
+          let sctl_next = sctl.clone();
+          let sctl_error = sctl.clone();
+          let sctl_complete = sctl.clone();
+          sctl.new_observer(
+            move |_, x| {
+              let items = {
+                let mut latest = latest.write().unwrap();
+                latest[id] = Some(x);
+                latest.iter().cloned().collect::<Option<Vec<_>>>()
+              };
+              if let Some(items) = items {
+                sctl_next.sink_next(combine_f.call(items));
+              }
+            },
+            move |_, e| {
+              sctl_error.sink_error(e);
+            },
+            move |serial| {
+              sctl_complete.sink_complete(&serial);
+            },
+          )
+        }))
+      };
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |_, x| {
-          sctl_next.sink_next(combine_f.call(x));
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From 5ca92a17e2f42d57db7f31f9fe41354a01ffafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 19/25] fix: sequence_equal compares lengths and answers once

---
 src/operators/sequence_equal.rs | 137 ++++++++++++++++++++++++++------
 1 file changed, 112 insertions(+), 25 deletions(-)

diff --git a/src/operators/sequence_equal.rs b/src/operators/sequence_equal.rs
index 41716e2..ac0d580 100644
--- a/src/operators/sequence_equal.rs
+++ b/src/operators/sequence_equal.rs
@@ -1,12 +1,68 @@
 use crate::internals::stream_controller::*;
 use crate::prelude::*;
+use std::{
+  collections::VecDeque,
+  sync::{Arc, RwLock},
+};
 
 #[derive(Clone)]
 pub struct SequenceEqual<'a, Item>
 where
   Item: Clone + Send + Sync,
 {
-  zip_op: operators::Zip<'a, Item>,
+  observables: Vec<Observable<'a, Item>>,
+}
+
+// Items of one source which have not been compared with all the others yet.
+#[derive(Clone)]
+struct Pending<Item> {
+  items: VecDeque<Item>,
+  completed: bool,
+}
+
+struct Comparison<Item> {
+  sources: Vec<Pending<Item>>,
+  answered: bool,
+}
+
+impl<Item> Comparison<Item>
+where
+  Item: PartialEq,
+{
+  // Gives the answer, once, as soon as it no longer depends on what the
+  // sources are going to emit.
+  fn answer(&mut self) -> Option<bool> {
+    if self.answered {
+      return None;
+    }
+    let answer = self.compare();
+    self.answered = answer.is_some();
+    answer
+  }
+
+  fn compare(&mut self) -> Option<bool> {
+    let sources = &mut self.sources;
+    loop {
+      let heads =
+        sources.iter().filter_map(|s| s.items.front()).collect::<Vec<_>>();
+      if heads.is_empty() {
+        return match sources.iter().all(|s| s.completed) {
+          true => Some(true),
+          false => None,
+        };
+      }
+      let shorter = sources.iter().any(|s| s.items.is_empty() && s.completed);
+      if shorter || heads.iter().any(|x| *x != heads[0]) {
+        return Some(false);
+      }
+      if heads.len() < sources.len() {
+        return None;
+      }
+      sources.iter_mut().for_each(|s| {
+        s.items.pop_front();
+      });
+    }
+  }
 }
 
 impl<'a, Item> SequenceEqual<'a, Item>
@@ -14,37 +70,68 @@ where
   Item: Clone + Send + Sync + PartialEq,
 {
   pub fn new(observables: &[Observable<'a, Item>]) -> SequenceEqual<'a, Item> {
-    SequenceEqual { zip_op: operators::Zip::new(observables) }
+    SequenceEqual { observables: observables.to_vec() }
   }
   pub fn execute(&self, source: Observable<'a, Item>) -> Observable<'a, bool> {
-    let zip_op = self.zip_op.clone();
+    let observables = self.observables.clone();
 
     Observable::create(move |s| {
-      let source = source.clone();
-
       let sctl = StreamController::new(s);
 
-      let sctl_next = sctl.clone();
-      let sctl_error = sctl.clone();
-      let sctl_complete = sctl.clone();
+      let comparison = Arc::new(RwLock::new(Comparison {
+        sources: vec![
+          Pending::<Item> {
+            items: VecDeque::new(),
+            completed: false
+          };
+          observables.len() + 1
+        ],
+        answered: false,
+      }));
 
-      zip_op.execute(source).inner_subscribe(sctl.new_observer(
-        move |serial, x: Vec<Item>| {
-          let check = x.get(0).unwrap();
-          if !x.iter().all(|i| i == check) {
-            sctl_next.upstream_abort_observe(&serial);
-            sctl_next.sink_next(false);
-            sctl_next.sink_complete(&serial);
-          }
-        },
-        move |_, e| {
-          sctl_error.sink_error(e);
-        },
-        move |serial| {
-          sctl_complete.sink_next(true);
-          sctl_complete.sink_complete(&serial);
-        },
-      ));
+      // prepare subscribers
+      let mut sbs = {
+        let sctl = sctl.clone();
+        VecDeque::from_iter((0..(observables.len() + 1)).map(move |id| {
+          let comparison_next = Arc::clone(&comparison);
+          let comparison_complete = Arc::clone(&comparison);
+          let sctl_next = sctl.clone();
+          let sctl_error = sctl.clone();
+          let sctl_complete = sctl.clone();
+          sctl.new_observer(
+            move |_, x| {
+              let answer = {
+                let mut comparison = comparison_next.write().unwrap();
+                comparison.sources[id].items.push_back(x);
+                comparison.answer()
+              };
+              if let Some(x) = answer {
+                sctl_next.sink_next(x);
+                sctl_next.sink_complete_force();
+              }
+            },
+            move |_, e| {
+              sctl_error.sink_error(e);
+            },
+            move |_| {
+              let answer = {
+                let mut comparison = comparison_complete.write().unwrap();
+                comparison.sources[id].completed = true;
+                comparison.answer()
+              };
+              if let Some(x) = answer {
+                sctl_complete.sink_next(x);
+                sctl_complete.sink_complete_force();
+              }
+            },
+          )
+        }))
+      };
+
+      source.inner_subscribe(sbs.pop_front().unwrap());
+      observables.iter().for_each(|o| {
+        o.inner_subscribe(sbs.pop_front().unwrap());
+      });
     })
   }
 }
-- 
2.43.0


From b90e6e68185bacb7069926002352103a7bf522cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:32 +0000
Subject: [PATCH 20/25] fix: timeout cancels its timer when it ends, arms none
 afterwards, and forgets none

---
 src/operators/timeout.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/operators/timeout.rs b/src/operators/timeout.rs
index 883a502..394a1d7 100644
--- a/src/operators/timeout.rs
+++ b/src/operators/timeout.rs
@@ -43,25 +43,33 @@ where
       let timer = Arc::new(RwLock::new(None::<Subscription<'a>>));
       let scheduler_ctor = scheduler_ctor.clone();
 
+      let cancel = {
+        let timer = Arc::clone(&timer);
+        FunctionWrapper::new(move |_: ()| {
+          let timer = timer.write().unwrap().take();
+          if let Some(timer) = timer {
+            timer.unsubscribe();
+          }
+        })
+      };
+      {
+        let cancel = cancel.clone();
+        sctl.set_on_finalize(move || cancel.call(()));
+      }
+
       let sctl_next = sctl.clone();
       let sctl_error = sctl.clone();
       let sctl_complete = sctl.clone();
       source.inner_subscribe(sctl.new_observer(
         move |_, x| {
-          {
-            let mut timer = timer.write().unwrap();
-            if let Some(timer) = &*timer {
-              timer.unsubscribe();
-            }
-            *timer = None;
-          }
+          cancel.call(());
 
           sctl_next.sink_next(x);
 
-          {
+          if sctl_next.is_subscribed() {
             let sctl = sctl_next.clone();
             let scheduler_ctor = scheduler_ctor.clone();
-            *timer.write().unwrap() = Some(
+            let armed =
               observables::interval(dur, move || scheduler_ctor.call(()))
                 .take(1)
                 .subscribe(
@@ -72,8 +80,14 @@ where
                   },
                   junk_error!(),
                   junk_complete!(),
-                ),
-            );
+                );
+            let replaced = timer.write().unwrap().replace(armed);
+            if let Some(replaced) = replaced {
+              replaced.unsubscribe();
+            }
+            if !sctl_next.is_subscribed() {
+              cancel.call(());
+            }
           }
         },
         move |_, e| {
-- 
2.43.0


From b68e96f8ede7ce4104617f656d3d3b48fb953c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 21/25] fix: to_vec wakes its task without holding its lock

---
 src/operators/to_vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/to_vec.rs b/src/operators/to_vec.rs
index 1351ea0..1e53dd4 100644
--- a/src/operators/to_vec.rs
+++ b/src/operators/to_vec.rs
@@ -34,13 +34,15 @@ where
       move |e| {
         *err_error.write().unwrap() = Some(e);
         *done_error.write().unwrap() = true;
-        if let Some(w) = waker_error.read().unwrap().clone() {
+        let waker = waker_error.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
       move || {
         *done_complete.write().unwrap() = true;
-        if let Some(w) = waker_complete.read().unwrap().clone() {
+        let waker = waker_complete.read().unwrap().clone();
+        if let Some(w) = waker {
           w.wake();
         }
       },
-- 
2.43.0


From 77c8b047cd813e5f99939e749c75863fe605ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 22/25] fix: ref_count and replay close the source subscription
 before another can begin

A subscriber arriving while the last one left could be connected while the old
source subscription was still live, get an item twice, or lose history.
---
 src/observer.rs            | 20 ++++++++++++++------
 src/operators/ref_count.rs |  4 ++--
 src/operators/replay.rs    |  7 ++++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/observer.rs b/src/observer.rs
index 5648988..303bd7b 100644
--- a/src/observer.rs
+++ b/src/observer.rs
@@ -40,7 +40,9 @@ where
     }
   }
   pub fn next(&self, x: T) {
-    self.fn_next.call_if_available(x);
+    if self.is_subscribed() {
+      self.fn_next.call_if_available(x);
+    }
   }
   pub fn error(&self, x: RxError) {
     if self.close() {
@@ -60,11 +62,10 @@ where
   }
   pub fn unsubscribe(&self) {
     if self.close() {
-      self.fn_next.clear();
-      self.fn_error.clear();
-      self.fn_complete.clear();
+      self.release();
+    } else {
+      self.call_on_unsubscribe();
     }
-    self.call_on_unsubscribe();
   }
   pub fn is_subscribed(&self) -> bool {
     !self.closed.load(Ordering::SeqCst)
@@ -81,9 +82,16 @@ where
   }
 
   // Only the first of `error`, `complete` and `unsubscribe` closes the observer.
-  fn close(&self) -> bool {
+  pub(crate) fn close(&self) -> bool {
     !self.closed.swap(true, Ordering::SeqCst)
   }
+  // What `unsubscribe` does after it has closed the observer.
+  pub(crate) fn release(&self) {
+    self.fn_next.clear();
+    self.fn_error.clear();
+    self.fn_complete.clear();
+    self.call_on_unsubscribe();
+  }
   fn call_on_unsubscribe(&self) {
     let f = self.fn_on_unsubscribe.write().unwrap().take();
     if let Some(f) = f {
diff --git a/src/operators/ref_count.rs b/src/operators/ref_count.rs
index e0849c2..070f380 100644
--- a/src/operators/ref_count.rs
+++ b/src/operators/ref_count.rs
@@ -41,13 +41,13 @@ where
       let left = {
         let mut connection = connection.write().unwrap();
         if count.call(()) == 0 {
-          connection.take()
+          connection.take().filter(|x| x.close())
         } else {
           None
         }
       };
       if let Some(observer) = left {
-        observer.unsubscribe();
+        observer.release();
       }
     });
   }
diff --git a/src/operators/replay.rs b/src/operators/replay.rs
index 3b07562..67f04b0 100644
--- a/src/operators/replay.rs
+++ b/src/operators/replay.rs
@@ -41,14 +41,15 @@ where
       let left = {
         let mut connection = connection.write().unwrap();
         if count.call(()) == 0 {
-          connection.take()
+          let left = connection.take().filter(|x| x.close());
+          erase.call(());
+          left
         } else {
           None
         }
       };
       if let Some(observer) = left {
-        observer.unsubscribe();
-        erase.call(());
+        observer.release();
       }
     });
   }
-- 
2.43.0


From ee5d886f882eb693207404f524bf639eec2ad896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 23/25] fix: range does not overflow when it reaches the
 largest integer

---
 src/observables/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observables/range.rs b/src/observables/range.rs
index 5a36f87..c5a05d3 100644
--- a/src/observables/range.rs
+++ b/src/observables/range.rs
@@ -2,11 +2,11 @@ use crate::prelude::*;
 
 pub fn range<'a>(initial: i64, count: i64) -> Observable<'a, i64> {
   Observable::create(move |s| {
-    for n in initial..(initial + count) {
+    for n in 0..count {
       if !s.is_subscribed() {
         break;
       }
-      s.next(n.clone());
+      s.next(initial + n);
     }
     s.complete();
   })
-- 
2.43.0


From f6337dba8f54c24c11283a3d15d743c5ed8e3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:14 +0000
Subject: [PATCH 24/25] fix: contains answers once even if its subscriber makes
 the source emit the target again

---
 src/operators/contains.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/contains.rs b/src/operators/contains.rs
index 43ecdb9..af0d5ee 100644
--- a/src/operators/contains.rs
+++ b/src/operators/contains.rs
@@ -28,6 +28,7 @@ where
       source.inner_subscribe(sctl.new_observer(
         move |serial, x| {
           if x == target {
+            sctl_next.upstream_abort_observe(&serial);
             sctl_next.sink_next(true);
             sctl_next.sink_complete(&serial);
           }
-- 
2.43.0


From c73210bd77507515f204bf073794a606e2d86f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:24 +0000
Subject: [PATCH 25/25] fix: unsubscribe does not return before a concurrent
 unsubscribe has taken effect

---
 src/subscription.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subscription.rs b/src/subscription.rs
index e9691ce..f50c4a3 100644
--- a/src/subscription.rs
+++ b/src/subscription.rs
@@ -18,7 +18,9 @@ impl<'a> Subscription<'a> {
     }
   }
   pub fn unsubscribe(&self) {
-    self.fn_unsubscribe.call_and_clear_if_available(());
+    // another thread's call may be under way: do not return before it has taken effect
+    self.fn_unsubscribe.call_if_available(());
+    self.fn_unsubscribe.clear();
   }
   pub fn is_subscribed(&self) -> bool {
     if let Some(x) = self.fn_is_subscribed.call_if_available(()) {
-- 
2.43.0

