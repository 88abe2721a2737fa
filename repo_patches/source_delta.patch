From 717355ba07768cee41d5d9eebb3cb8c38edce8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 01/57] mc hooks: break the system reference cycle under
 cfg(kompact_mc)

---
 core/src/lib.rs            |  1 +
 core/src/runtime/system.rs | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 099dbec..f8a94e1 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -67,6 +67,7 @@
 //!     - Enables the distributed dispatching surface, such as actor paths, registration, aliasing, and routing.
 //!     - Plain default `kompact` is local-only. Enable this feature explicitly when you want path-based dispatching without the provided network backend from `kompact-net`.
 #![allow(internal_features)]
+#![allow(unexpected_cfgs)]
 #![deny(missing_docs)]
 #![allow(clippy::unused_unit)]
 #![allow(clippy::match_ref_pats)]
diff --git a/core/src/runtime/system.rs b/core/src/runtime/system.rs
index 6d65166..b39b5f8 100644
--- a/core/src/runtime/system.rs
+++ b/core/src/runtime/system.rs
@@ -1113,6 +1113,21 @@ impl KompactSystem {
     }
 }
 
+#[cfg(kompact_mc)]
+impl KompactSystem {
+    /// Model checking only: drops the internal components, which otherwise form a reference cycle
+    /// with the system, so that millions of systems can be created in one process.
+    ///
+    /// The system must not be used afterwards.
+    pub fn mc_dismantle(&self) {
+        let slot: &Option<InternalComponents> = &self.inner.internal_components;
+        let ptr = slot as *const Option<InternalComponents> as *mut Option<InternalComponents>;
+        // SAFETY: the checker is the only thread that still uses this system.
+        let old = unsafe { std::ptr::replace(ptr, None) };
+        drop(old);
+    }
+}
+
 impl ActorRefFactory for KompactSystem {
     type Message = Never;
 
-- 
2.43.0


From 41bd6e2f9fec6d50c799f3a357e17d0c911ea540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 02/57] fix: stop handling control events after a component was
 killed

---
 core/src/component/actual_component.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ca1a77a..b8e1867 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -461,7 +461,11 @@ impl<CD: ComponentTraits> Component<CD> {
                         Ok(Handled::Ok) => match event {
                             lifecycle::ControlEvent::Start => self.notify_started(),
                             lifecycle::ControlEvent::Stop => self.set_passive(),
-                            lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                            lifecycle::ControlEvent::Kill => {
+                                self.set_destroyed();
+                                // a killed component handles nothing more
+                                return SchedulingDecision::NoWork;
+                            }
                             lifecycle::ControlEvent::Poll(_) => (),
                         },
                         Ok(Handled::BlockOn(blocking_future)) => {
@@ -490,7 +494,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             match event {
                                 lifecycle::ControlEvent::Start => self.notify_started(),
                                 lifecycle::ControlEvent::Stop => self.set_passive(),
-                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                                lifecycle::ControlEvent::Kill => {
+                                    self.set_destroyed();
+                                    // a killed component handles nothing more
+                                    return SchedulingDecision::NoWork;
+                                }
                                 lifecycle::ControlEvent::Poll(_) => (),
                             }
                         }
-- 
2.43.0


From c56008a288fecdba8cb37216d1c2d87839ceb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 03/57] fix: poll a blocking future that was returned by a
 blocking future

---
 core/src/component/context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b81bdc..35e04f4 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -238,6 +238,8 @@ where
                     self.blocking_future.replace(blocking_state).is_none(),
                     "Replacing a blocking future without completing it first is invalid!"
                 );
+                // the new future must be polled at least once to register its waker
+                component.schedule();
                 BlockingTaskResult::Pending
             }
             BlockingRunResult::Unblock(Ok(Handled::Shutdown))
-- 
2.43.0


From bd5017da69c2e9c8294502a8d13273ccde146ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 04/57] fix: keep a stopped component stopped when its local
 future blocks

---
 core/src/component/actual_component.rs | 11 ++++++++++-
 core/src/component/context.rs          |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index b8e1867..f6b77c1 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -239,6 +239,10 @@ impl<CD: ComponentTraits> Component<CD> {
         debug!(self.logger, "Component stopped");
     }
 
+    pub(super) fn stay_passive(&self) {
+        lifecycle::set_passive(&self.core.state);
+    }
+
     pub(super) fn set_destroyed(&self) {
         lifecycle::set_destroyed(&self.core.state);
         let supervisor_msg = SupervisorMsg::Killed(self.core.id);
@@ -473,7 +477,12 @@ impl<CD: ComponentTraits> Component<CD> {
                                 lifecycle::ControlEvent::Start => StateTransition::Started,
                                 lifecycle::ControlEvent::Stop => StateTransition::Passive,
                                 lifecycle::ControlEvent::Kill => StateTransition::Destroyed,
-                                _ => StateTransition::Active,
+                                lifecycle::ControlEvent::Poll(_)
+                                    if !lifecycle::is_active(&self.core.state) =>
+                                {
+                                    StateTransition::StayPassive
+                                }
+                                lifecycle::ControlEvent::Poll(_) => StateTransition::Active,
                             };
                             guard
                                 .definition
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 35e04f4..abc7b17 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -12,6 +12,8 @@ pub(super) enum StateTransition {
     Active,
     Started,
     Passive,
+    /// Return to being passive without reporting a stop
+    StayPassive,
     Destroyed,
 }
 
@@ -261,6 +263,7 @@ where
                             component.notify_started();
                         }
                         StateTransition::Passive => component.set_passive(),
+                        StateTransition::StayPassive => component.stay_passive(),
                         StateTransition::Destroyed => component.set_destroyed(),
                     }
                 }
-- 
2.43.0


From 3bf24c85d0b38db0f3a346527ec6402ea5bd87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 05/57] fix: notify kill listeners of components that were
 never started

---
 core/src/supervision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 24975fd..ff90448 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -326,11 +326,12 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                                 id
                             );
                         }
-                        self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
-                        self.drop_listeners(&id);
                     }
+                    // it may have been killed before it was ever started
                     None => warn!(self.ctx.log(), "An untracked Component({}) was killed.", id),
                 }
+                self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
+                self.drop_listeners(&id);
                 self.shutdown_if_no_more_children()
             }
             SupervisorMsg::Faulty(recover_handler) => {
-- 
2.43.0


From c22df45e6a2e2d59f401a32293fe2f8f406e5379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 06/57] fix: account for timeouts that were cancelled while
 queued

A timeout that is cancelled after it was queued at its component was
dequeued without being counted, so the component's work count never
returned to zero: it was rescheduled forever and later timeouts in the
same queue were delayed by one scheduling each.
---
 core/src/component/actual_component.rs | 5 +++++
 core/src/timer/timer_manager.rs        | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index f6b77c1..d67356f 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -538,6 +538,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             count += 1;
                             res
                         }
+                        ExecuteAction::Cancelled => {
+                            // still an event that has been accounted for as work
+                            count += 1;
+                            Handled::OK
+                        }
                         ExecuteAction::None => break,
                     };
                     check_and_handle_blocking!(self, guard, count, res);
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 7957055..86be45f 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -212,6 +212,8 @@ pub(crate) struct Timeout(pub(crate) Uuid);
 
 pub(crate) enum ExecuteAction<C: ComponentDefinition> {
     None,
+    /// A timeout was dequeued, but it has been cancelled in the meantime
+    Cancelled,
     Periodic(Uuid, Rc<dyn Fn(&mut C, Uuid) -> HandlerResult>),
     Once(Uuid, Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult>),
 }
@@ -251,7 +253,7 @@ impl<C: ComponentDefinition> TimerManager<C> {
                     );
                     ExecuteAction::Periodic(timeout.0, action2)
                 }
-                _ => ExecuteAction::None,
+                None => ExecuteAction::Cancelled,
             }
         } else {
             ExecuteAction::None
-- 
2.43.0


From 81a21728169444f944a7cede19f57f1eb78016dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:45 +0000
Subject: [PATCH 07/57] fix: do not keep a component alive through the wakers
 of its own local futures

A component stores its local futures together with their wakers, which
held a strong reference to the component. A component that was killed or
failed with a pending local future was therefore never deallocated and
the promises held by the future never resolved.
---
 core/src/component/future_task.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/src/component/future_task.rs b/core/src/component/future_task.rs
index 055f324..f1e6595 100644
--- a/core/src/component/future_task.rs
+++ b/core/src/component/future_task.rs
@@ -109,7 +109,7 @@ where
     let id = Uuid::new_v4();
     let future = f(ComponentDefinitionAccess::from_ref(component));
     let core = component.ctx().component();
-    let waker = task_waker::create(id, core);
+    let waker = task_waker::create(id, &core);
     let boxed = Box::pin(future);
     NonBlockingFuture {
         future: boxed,
@@ -185,21 +185,23 @@ unsafe impl<CD> Send for ComponentDefinitionAccess<CD> where CD: ComponentDefini
 mod task_waker {
     use super::*;
 
-    pub fn create(id: Uuid, core: Arc<dyn CoreContainer>) -> Waker {
+    pub fn create(id: Uuid, core: &Arc<dyn CoreContainer>) -> Waker {
+        // The component stores its futures together with their wakers,
+        // so a strong reference here would keep it alive forever.
+        let core = Arc::downgrade(core);
         waker(Arc::new(TaskWaker { id, core }))
     }
 
-    #[derive(Debug)]
     struct TaskWaker {
         id: Uuid,
-        core: Arc<dyn CoreContainer>,
+        core: Weak<dyn CoreContainer>,
     }
 
     impl ArcWake for TaskWaker {
         fn wake_by_ref(arc_self: &Arc<Self>) {
-            arc_self
-                .core
-                .enqueue_control(ControlEvent::Poll(arc_self.id));
+            if let Some(core) = arc_self.core.upgrade() {
+                core.enqueue_control(ControlEvent::Poll(arc_self.id));
+            }
         }
     }
 }
-- 
2.43.0


From a847d247d0117db08277e3237f0a0230f50c35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 08/57] fix: let neither messages nor port events be starved

The documented minimum of one message and one event per scheduling was not
enforced: with a low throughput x priority no message, and with a high one
no event got a share. The share of port events was also lost whenever a
message handler ended the scheduling by blocking.
---
 core/src/component/actual_component.rs | 7 +++++--
 core/src/component/mod.rs              | 3 +++
 core/src/runtime/config.rs             | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index d67356f..9f2547c 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -547,9 +547,11 @@ impl<CD: ComponentTraits> Component<CD> {
                     };
                     check_and_handle_blocking!(self, guard, count, res);
                 }
-                // then some messages
-                while count < max_messages {
+                // then some messages (continuing the allotment of an earlier scheduling,
+                // if that ended before port events got their share)
+                while count < max_events && guard.messages < max_messages {
                     if let Some(env) = self.msg_queue.pop() {
+                        guard.messages += 1;
                         let res = guard.definition.receive(env);
                         count += 1;
                         check_and_handle_blocking!(self, guard, count, res);
@@ -560,6 +562,7 @@ impl<CD: ComponentTraits> Component<CD> {
                 // then events
                 let rem_events = max_events.saturating_sub(count);
                 if rem_events > 0 {
+                    guard.messages = 0;
                     let skip = guard.skip;
                     let res = guard.definition.execute(rem_events, skip);
                     guard.skip = res.skip;
diff --git a/core/src/component/mod.rs b/core/src/component/mod.rs
index ed75924..0f0e66f 100644
--- a/core/src/component/mod.rs
+++ b/core/src/component/mod.rs
@@ -427,12 +427,15 @@ impl CoreContainer for FakeCoreContainer {
 pub(crate) struct ComponentMutableCore<C> {
     pub(crate) definition: C,
     skip: usize,
+    /// messages handled since port events last got their share
+    messages: usize,
 }
 impl<C> ComponentMutableCore<C> {
     fn from(definition: C) -> Self {
         ComponentMutableCore {
             definition,
             skip: 0,
+            messages: 0,
         }
     }
 }
diff --git a/core/src/runtime/config.rs b/core/src/runtime/config.rs
index e756896..48208fd 100644
--- a/core/src/runtime/config.rs
+++ b/core/src/runtime/config.rs
@@ -563,7 +563,8 @@ impl KompactConfig {
         let tpf = self.throughput as f32;
         let mmf = tpf * self.msg_priority;
         assert!(mmf >= 0.0, "msg_priority can not be negative!");
-        mmf as usize
+        // leave at least one message and (if possible) one event per scheduling
+        (mmf as usize).clamp(1, self.throughput.saturating_sub(1).max(1))
     }
 
     pub(crate) fn override_from_config(&mut self, conf: &Config) -> Result<(), ConfigError> {
-- 
2.43.0


From 159c9279a810e7d7f4387a9a680b8acec842c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 09/57] fix: continue with the next port after a port handler
 blocked or failed

The following scheduling started again with the same port, so that events
on it whose handlers block (or return benign errors) starved all ports
behind it.
---
 macros/component-definition-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/component-definition-derive/src/lib.rs b/macros/component-definition-derive/src/lib.rs
index cd9713f..389f1e3 100644
--- a/macros/component-definition-derive/src/lib.rs
+++ b/macros/component-definition-derive/src/lib.rs
@@ -90,13 +90,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                     Ok(Handled::Ok) => (),
                                     Ok(Handled::BlockOn(blocking_future)) => {
                                         self.ctx_mut().set_blocking(blocking_future);
-                                        return ExecuteResult::new(true, count, #i);
+                                        return ExecuteResult::new(true, count, #i + 1);
                                     }
                                     Ok(Handled::Shutdown) => {
                                         return ExecuteResult::shutdown(count, #i);
                                     }
                                     Err(error) => {
-                                        return ExecuteResult::error(error, count, #i);
+                                        return ExecuteResult::error(error, count, #i + 1);
                                     }
                                 }
                             }
@@ -126,13 +126,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                 Ok(Handled::Ok) => (),
                                 Ok(Handled::BlockOn(blocking_future)) => {
                                     self.ctx_mut().set_blocking(blocking_future);
-                                    return ExecuteResult::new(true, count, #i);
+                                    return ExecuteResult::new(true, count, #i + 1);
                                 }
                                 Ok(Handled::Shutdown) => {
                                     return ExecuteResult::shutdown(count, #i);
                                 }
                                 Err(error) => {
-                                    return ExecuteResult::error(error, count, #i);
+                                    return ExecuteResult::error(error, count, #i + 1);
                                 }
                             }
                         }
-- 
2.43.0


From 3c7da7b43320911919987c2f45bc0e88de011b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 10/57] fix: handle other events between polls of a yielding
 local future

All wake-ups of local futures were handled within one scheduling, including
those produced by the polls themselves. A local future that yields thus kept
the component, and the thread executing it, from doing anything else.
---
 core/src/component/actual_component.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 9f2547c..d85a7a0 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -429,7 +429,12 @@ impl<CD: ComponentTraits> Component<CD> {
                 }
 
                 let mut count: usize = 0;
-                while let Some(event) = self.ctrl_queue.pop() {
+                // futures that wake themselves while being polled must wait for the next scheduling
+                let mut max_polls = self.ctrl_queue.len();
+                while max_polls > 0 {
+                    let Some(event) = self.ctrl_queue.pop() else {
+                        break;
+                    };
                     // ignore max_events for lifecyle events
                     // println!("Executing event: {:?}", event);
                     let res = match event {
@@ -457,6 +462,7 @@ impl<CD: ComponentTraits> Component<CD> {
                         lifecycle::ControlEvent::Poll(tag) => {
                             let res = guard.definition.ctx_mut().run_nonblocking_task(tag);
                             count += 1;
+                            max_polls -= 1;
                             res
                         }
                     };
@@ -524,6 +530,8 @@ impl<CD: ComponentTraits> Component<CD> {
                     trace!(self.logger, "Not running inactive scheduled.");
                     return self.core.decrement_work(count);
                 }
+                // control events are not part of the allotment
+                let max_events = max_events + count;
                 // timers have highest priority
                 while count < max_events {
                     let c = &mut guard.definition;
-- 
2.43.0


From 7cecfa68dc751713e9d728467b786ab15e1a3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:29 +0000
Subject: [PATCH 11/57] fix: yield the thread to others after a completed
 blocking future

A component that came out of blocking with work left was executed again
recursively, so a backlog of events whose handlers block on ready futures
was handled in one go without ever yielding the thread, and overflowed
its stack in builds without tail call optimisation.
---
 core/src/runtime/scheduler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/runtime/scheduler.rs b/core/src/runtime/scheduler.rs
index ae946f4..48001f6 100644
--- a/core/src/runtime/scheduler.rs
+++ b/core/src/runtime/scheduler.rs
@@ -117,7 +117,8 @@ impl<E: FuturesExecutor + Sync + 'static> Scheduler for ExecutorScheduler<E> {
 
 fn maybe_reschedule(c: Arc<dyn CoreContainer>) {
     match c.execute() {
-        SchedulingDecision::Schedule => {
+        // A component that came out of blocking must also cede the thread between schedulings
+        SchedulingDecision::Schedule | SchedulingDecision::Resume => {
             if cfg!(feature = "use_local_executor") {
                 let res = try_execute_locally(move || maybe_reschedule(c));
                 assert!(
@@ -129,7 +130,6 @@ fn maybe_reschedule(c: Arc<dyn CoreContainer>) {
                 c.system().schedule(c2);
             }
         }
-        SchedulingDecision::Resume => maybe_reschedule(c),
         _ => (),
     }
 }
-- 
2.43.0


From cbbb97088df05b2426c037a0401468d8118140b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 12/57] fix: decode buffers without minimum free space could be
 swapped forever

With encode_buf_min_free_space below 8, copying 120..127 left-over bytes of a
128 byte chunk left a buffer which again had to be swapped before it could be
written to.
---
 core/src/net/buffers/decode_buffer.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index aca9775..030510e 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -11,7 +11,14 @@ use crate::net::frames::{
     Start,
 };
 use bytes::Buf;
-use std::{cmp::Ordering, fmt::Formatter, io};
+use std::{
+    cmp::{self, Ordering},
+    fmt::Formatter,
+    io,
+};
+
+/// A buffer with at most this many writeable bytes must be swapped before further writing.
+const MIN_WRITEABLE_LEN: usize = 8;
 
 /// Incremental frame decoder backed by pooled [`BufferChunk`] storage.
 ///
@@ -93,7 +100,7 @@ impl DecodeBuffer {
 
     /// True if there is sufficient amount of writeable bytes
     pub(crate) fn is_writeable(&self) -> bool {
-        self.writeable_len() > 8
+        self.writeable_len() > MIN_WRITEABLE_LEN
     }
 
     /// Returns true if there is data to be decoded, else false
@@ -125,7 +132,10 @@ impl DecodeBuffer {
             let overflow_len = overflow_chunk.remaining();
             if overflow_len < self.writeable_len()
                 && self.writeable_len() - overflow_len
-                    > self.buffer_config.encode_buf_min_free_space
+                    > cmp::max(
+                        self.buffer_config.encode_buf_min_free_space,
+                        MIN_WRITEABLE_LEN,
+                    )
             {
                 // Just copy the overflow_chunk bytes, no need to chain.
                 // the overflow must not exceed the new buffers capacity
-- 
2.43.0


From b4657b79ac36140ae6aa1504256f211970ef471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 13/57] fix: malformed hello, start and empty frames panicked
 the decoder

---
 core/src/net/buffers/decode_buffer.rs |  4 ++
 core/src/net/frames.rs                | 56 ++++++++++-----------------
 2 files changed, 25 insertions(+), 35 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 030510e..cf86bf8 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -157,6 +157,10 @@ impl DecodeBuffer {
 
     /// Extracts a ChunkLease from the readable portion of the buffer (including the chain)
     fn read_chunk_lease(&mut self, length: usize) -> ChunkLease {
+        if length == 0 {
+            // Frames may announce an empty body.
+            return ChunkLease::empty();
+        }
         if let Some(mut chain_head) = self.chain_head.take() {
             match chain_head.remaining().cmp(&length) {
                 Ordering::Greater => {
diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index eb526b9..c8b06b2 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -277,6 +277,20 @@ impl Data {
     }
 }
 
+/// Reads a socket address as it is written into `Hello` and `Start` frames.
+fn decode_socket_addr<B: Buf>(src: &mut B) -> Result<SocketAddr, FramingError> {
+    if !src.has_remaining() {
+        return Err(FramingError::InvalidFrame);
+    }
+    let ip = match src.get_u8() {
+        4 if src.remaining() >= 4 + 2 => IpAddr::V4(Ipv4Addr::from(src.get_u32())),
+        6 if src.remaining() >= 16 + 2 => IpAddr::V6(Ipv6Addr::from(src.get_u128())),
+        _ => return Err(FramingError::InvalidFrame),
+    };
+    let port = src.get_u16();
+    Ok(SocketAddr::new(ip, port))
+}
+
 impl FrameExt for Data {
     fn decode_from(payload: ChunkLease) -> Result<Frame, FramingError> {
         let data_frame = Data { payload };
@@ -300,23 +314,8 @@ impl FrameExt for Data {
 
 impl FrameExt for Hello {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                Ok(Frame::Hello(Hello::new(addr)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
-        }
+        let addr = decode_socket_addr(&mut src)?;
+        Ok(Frame::Hello(Hello::new(addr)))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
@@ -350,25 +349,12 @@ impl FrameExt for Hello {
 
 impl FrameExt for Start {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
-            4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
-                let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
-                Ok(Frame::Start(Start::new(addr, id)))
-            }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+        let addr = decode_socket_addr(&mut src)?;
+        if src.remaining() < 16 {
+            return Err(FramingError::InvalidFrame);
         }
+        let id = SessionId::from_u128(src.get_u128());
+        Ok(Frame::Start(Start::new(addr, id)))
     }
 
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
-- 
2.43.0


From c1fd9f87c87f3d553af300e0a929b7b80ce3fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 14/57] fix: encoding a data frame into a buffer never ended

---
 core/src/net/frames.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index c8b06b2..c177ad7 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -302,13 +302,15 @@ impl FrameExt for Data {
         // NOTE: This method _COPIES_ the owned bytes into `dst` rather than extending with the owned bytes
         assert!(dst.remaining_mut() >= (self.encoded_len()));
         while self.payload.has_remaining() {
+            let len = self.payload.chunk().len();
             dst.put_slice(self.payload.chunk());
+            self.payload.advance(len);
         }
         Ok(())
     }
 
     fn encoded_len(&self) -> usize {
-        self.payload.chunk().len()
+        self.payload.capacity()
     }
 }
 
-- 
2.43.0


From 6ba24376015d3e3a0fef93c30b854e94724e09aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 15/57] fix: leased chunk memory was released with its buffer

The memory of a chunk was released when its BufferChunk was dropped, although
leases could still refer to it: after the end of the network thread, with the
local dispatcher after a component was killed, and with stand-alone buffers.
---
 core/src/default_components.rs      |  2 +-
 core/src/net/buffers/chunk_lease.rs |  6 +--
 core/src/net/buffers/chunk_ref.rs   |  6 +--
 core/src/net/buffers/mod.rs         | 58 ++++++++++++++++++-----------
 4 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/core/src/default_components.rs b/core/src/default_components.rs
index 62513bb..29c8f42 100644
--- a/core/src/default_components.rs
+++ b/core/src/default_components.rs
@@ -538,7 +538,7 @@ impl Actor for LocalDispatcher {
                 );
             }
             DispatchEnvelope::LockedChunk(_trash) => {
-                // Dropping the chunk is sufficient in the local-only dispatcher.
+                // Dropping the chunk is sufficient, since its leases keep the memory alive.
             }
         }
         Handled::OK
diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index bfc7e9c..4ea5e85 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -1,4 +1,4 @@
-use super::ChunkRef;
+use super::{ChunkLock, ChunkRef};
 use crate::net::frames::FrameHead;
 use bytes::{Buf, BufMut, Bytes, buf::UninitSlice};
 use std::{cmp::Ordering, ptr::NonNull, sync::Arc};
@@ -13,7 +13,7 @@ pub struct ChunkLease {
     write_pointer: usize,
     read_pointer: usize,
     chain_head_len: usize,
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkLease>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ pub struct ChunkLease {
 
 impl ChunkLease {
     /// Creates a new `ChunkLease` from a static byte-slice with already written bytes and a `lock`.
-    pub(crate) fn new(content: &'static mut [u8], lock: Arc<()>) -> ChunkLease {
+    pub(crate) fn new(content: &'static mut [u8], lock: ChunkLock) -> ChunkLease {
         let capacity = content.len();
         let write_pointer = content.len();
         ChunkLease {
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index d8e0d42..ff50c82 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -1,5 +1,5 @@
+use super::ChunkLock;
 use crate::prelude::Buf;
-use std::sync::Arc;
 
 /// A `ChunkRef` is created from a `ChunkLease`, or from a `ChunkRef` and a `ChunkLease`.
 /// It is immutable and may be cloned and shared and chained with many other `ChunkRefs`.
@@ -10,7 +10,7 @@ pub struct ChunkRef {
     chain_head_len: usize,
     /// The presence of the `lock` field prevents the parent chunk lease from unlocking, while the chunk ref is allocated.
     #[allow(dead_code)]
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkRef>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ impl ChunkRef {
         content: &'static [u8],
         read_pointer: usize,
         chain_head_len: usize,
-        lock: Arc<()>,
+        lock: ChunkLock,
         chain: Option<Box<ChunkRef>>,
         chain_len: usize,
     ) -> Self {
diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index 4a07143..c871e94 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -206,29 +206,46 @@ impl Chunk for DefaultChunk {
 /// All modifications to the Chunk goes through the get_slice method
 pub struct BufferChunk {
     chunk: *mut dyn Chunk,
-    allocator: Arc<dyn ChunkAllocator>,
-    ref_count: Arc<()>,
+    memory: Arc<ChunkMemory>,
     locked: bool,
 }
 
+/// Keeps the memory of a [BufferChunk] allocated.
+///
+/// Leases may outlive the chunk they were created from, so the memory is only released
+/// once the chunk and all its leases are gone.
+#[derive(Debug)]
+struct ChunkMemory {
+    chunk: *mut dyn Chunk,
+    allocator: Arc<dyn ChunkAllocator>,
+}
+
+impl Drop for ChunkMemory {
+    fn drop(&mut self) {
+        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()`, and neither the
+        // `BufferChunk` nor any lease can access it any more.
+        unsafe { self.allocator.release(self.chunk) };
+    }
+}
+
+// SAFETY: a `ChunkMemory` never accesses the chunk except for releasing it, for which it has
+// exclusive access.
+unsafe impl Send for ChunkMemory {}
+unsafe impl Sync for ChunkMemory {}
+
+/// The presence of a lock prevents the chunk it belongs to from being reused or released.
+pub type ChunkLock = Arc<dyn Debug + Send + Sync>;
+
 impl Debug for BufferChunk {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("BufferChunk")
             .field("Lock", &self.locked)
             .field("Length", &self.len())
-            .field("RefCount", &Arc::strong_count(&self.ref_count))
+            .field("RefCount", &Arc::strong_count(&self.memory))
             .finish()
     }
 }
 
-impl Drop for BufferChunk {
-    fn drop(&mut self) {
-        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and this `BufferChunk`
-        // owns the allocation uniquely at drop time.
-        unsafe { self.allocator.release(self.chunk) };
-    }
-}
-
 // SAFETY: a `BufferChunk` owns a uniquely referenced allocation plus a lock counter. The raw
 // pointer is only dereferenced behind `&self`/`&mut self`, and the underlying chunk memory is not
 // shared mutably across threads without taking ownership of the whole `BufferChunk`.
@@ -238,20 +255,17 @@ impl BufferChunk {
     /// Allocate a new Default BufferChunk
     pub fn new(size: usize) -> Self {
         let allocator: Arc<dyn ChunkAllocator> = Arc::new(DefaultAllocator { chunk_size: size });
-        BufferChunk {
-            chunk: allocator.get_chunk(),
-            allocator,
-            ref_count: Arc::new(()),
-            locked: false,
-        }
+        BufferChunk::from_chunk(allocator.get_chunk(), allocator)
     }
 
     /// Creates a BufferChunk using the given Chunk
     pub fn from_chunk(raw_chunk: *mut dyn Chunk, allocator: Arc<dyn ChunkAllocator>) -> Self {
         BufferChunk {
             chunk: raw_chunk,
-            allocator,
-            ref_count: Arc::new(()),
+            memory: Arc::new(ChunkMemory {
+                chunk: raw_chunk,
+                allocator,
+            }),
             locked: false,
         }
     }
@@ -300,14 +314,14 @@ impl BufferChunk {
     }
 
     /// Clones the lock, the BufferChunk will be locked until all given locks are deallocated
-    pub fn get_lock(&self) -> Arc<()> {
-        self.ref_count.clone()
+    pub fn get_lock(&self) -> ChunkLock {
+        self.memory.clone()
     }
 
     /// Returns true if this BufferChunk is available again
     pub fn free(&mut self) -> bool {
         if self.locked {
-            if Arc::strong_count(&self.ref_count) < 2 {
+            if Arc::strong_count(&self.memory) < 2 {
                 self.locked = false;
                 true
             } else {
-- 
2.43.0


From 00fd6f01252601d6c0e3124ce880ee636291d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 16/57] fix: a failed reservation lost the buffers it could get

---
 core/src/net/buffers/buffer_pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/net/buffers/buffer_pool.rs b/core/src/net/buffers/buffer_pool.rs
index b076b31..b07fb5b 100644
--- a/core/src/net/buffers/buffer_pool.rs
+++ b/core/src/net/buffers/buffer_pool.rs
@@ -100,6 +100,10 @@ impl BufferPool {
                 reserved.push(reclaimed);
                 required_buffers -= 1;
             } else {
+                // The pool still counts the buffers it could get.
+                for buffer in reserved {
+                    self.pool.push_front(buffer);
+                }
                 return Err(BufferError::NoAvailableBuffers(format!(
                     "try_reserve failed while reserving {} bytes. \
                     chunk_size: {}, max_pool_size: {}, current pool_size {} ",
-- 
2.43.0


From 5bc34c2ec9e9fdd2b0571dc7836afcf8639198c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 17/57] fix: forwarding a partly read message sent its read
 bytes again

---
 core/src/net/buffers/chunk_ref.rs     | 19 +++++++++++++++++++
 core/src/serialisation/ser_helpers.rs |  8 ++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index ff50c82..555e147 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -44,6 +44,8 @@ impl ChunkRef {
     /// Appends `new_tail` to the end of the `ChunkRef` chain
     /// Use Public ChunkLease methods into_chunk_ref_as_tail or into_chunk_ref_with_tail
     pub(super) fn append_to_chain(&mut self, new_tail: ChunkRef) {
+        // Only the chain as a whole has a read pointer.
+        let new_tail = new_tail.without_read_bytes();
         self.chain_len += new_tail.chain_len;
         if let Some(tail) = &mut self.chain {
             // recursion
@@ -54,6 +56,23 @@ impl ChunkRef {
         }
     }
 
+    /// Drops the bytes before the read pointer.
+    fn without_read_bytes(mut self) -> ChunkRef {
+        let mut read = self.read_pointer;
+        while read >= self.chain_head_len {
+            let Some(chain) = self.chain.take() else {
+                break;
+            };
+            read -= self.chain_head_len;
+            self = *chain;
+        }
+        self.content = &self.content[read..];
+        self.chain_head_len -= read;
+        self.chain_len -= read;
+        self.read_pointer = 0;
+        self
+    }
+
     // Recursive method for the bytes() impl
     fn get_chunk_at(&self, pos: usize) -> &[u8] {
         if pos >= self.chain_head_len {
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 7120507..762679b 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -11,7 +11,7 @@ use crate::{
     },
     serialisation::*,
 };
-use bytes::{Bytes, BytesMut, buf::BufMut};
+use bytes::{Buf, Bytes, BytesMut, buf::BufMut};
 
 /// Creates a new [NetMessage](NetMessage) from the provided fields
 ///
@@ -165,7 +165,7 @@ pub fn serialise_msg_with_preserialised(
     src.serialise(buf)?; // src
     dst.serialise(buf)?; // dst
     buf.get_chunk_lease().map(|mut header| {
-        let len = header.capacity() + content.capacity() - FRAME_HEAD_LEN as usize;
+        let len = header.capacity() + content.remaining() - FRAME_HEAD_LEN as usize;
         header.insert_head(FrameHead::new(FrameType::Data, len));
         header.into_chunk_ref_with_tail(content)
     })
@@ -192,7 +192,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkLease(chunk_lease) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_lease.into_chunk_ref());
                 assert_eq!(
@@ -206,7 +206,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkRef(chunk_ref) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_ref);
                 assert_eq!(
-- 
2.43.0


From 96aab92492700acbdb4dd31fb78a345c18f40d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 18/57] fix: leased data was overwritten after running out of
 buffers

When padding crossed the end of a chunk and no further chunk was available,
the write position moved back into the full chunk.
---
 core/src/net/buffers/encode_buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4a4f224..4c17624 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -259,10 +259,11 @@ unsafe impl BufMut for BufferEncoder<'_> {
         if remaining < cnt {
             // We need to advance partially, swap, and then advance the rest!
             self.encode_buffer.write_offset += remaining;
-            let _ = self.chain_and_swap().map_err(|err| {
-                self.ser_error = Some(err);
-            });
-            self.encode_buffer.write_offset = cnt - remaining;
+            match self.chain_and_swap() {
+                Ok(()) => self.encode_buffer.write_offset = cnt - remaining,
+                // The current buffer is full and may be leased already.
+                Err(err) => self.ser_error = Some(err),
+            }
         } else {
             self.encode_buffer.write_offset += cnt;
         }
-- 
2.43.0


From bb6415292339fa801a4bf201803a663c2b0d7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 19/57] fix: put_bytes and writers failed at the end of a chunk

---
 core/src/net/buffers/encode_buffer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4c17624..0837344 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -247,7 +247,8 @@ impl Drop for BufferEncoder<'_> {
 // `advance_mut` or `chunk_mut` updates or derives from that single source of truth.
 unsafe impl BufMut for BufferEncoder<'_> {
     fn remaining_mut(&self) -> usize {
-        self.encode_buffer.writeable_len()
+        // Writing past the end of the current buffer swaps in another one.
+        usize::MAX - self.encode_buffer.write_offset
     }
 
     unsafe fn advance_mut(&mut self, cnt: usize) {
@@ -296,6 +297,13 @@ unsafe impl BufMut for BufferEncoder<'_> {
         }
     }
 
+    /// Override default impl, which can't fill more than the current buffer
+    fn put_bytes(&mut self, val: u8, cnt: usize) {
+        for _ in 0..cnt {
+            self.put_u8(val);
+        }
+    }
+
     /// Override default impl to allow for large slices to be put in at a time
     fn put_slice(&mut self, src: &[u8]) {
         let mut off = 0;
@@ -316,7 +324,7 @@ unsafe impl BufMut for BufferEncoder<'_> {
                 self.advance_mut(cnt);
             }
             // Check if we need to swap
-            if self.remaining_mut() < (src.len() - off) {
+            if self.encode_buffer.writeable_len() < (src.len() - off) {
                 // The error will be returned later when get_chunk_lease is called.
                 let _ = self.chain_and_swap().map_err(|err| {
                     self.ser_error = Some(err);
-- 
2.43.0


From 175398ef48c7608c3e75211870f8d72dcf74ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 20/57] fix: IPv6 actor paths could not be decoded

The address type shared bits with the transport protocol in the header of
serialised system paths, so the header of every path with an IPv6 address
was rejected by the receiver. The address type now has its own bits; the
bytes of paths with IPv4 addresses stay the same.
---
 core/src/messaging/framing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9b8d782..18aa87f 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -32,7 +32,7 @@ pub enum PathType {
 }
 
 impl BitField for AddressType {
-    const POS: usize = 2;
+    const POS: usize = 5;
     const WIDTH: usize = 2;
 }
 
@@ -231,9 +231,9 @@ impl TryFrom<u8> for SystemPathHeader {
 ///
 /// # System Paths
 /// ```text
-/// +-------------------+-------------------+-----------------------+
-/// | Path type (1 bit) | Protocol (5 bits) | Address Type (2 bits) |
-/// +-------------------+-------------------+-----------------------+----------------+
+/// +-------------------+-----------------------+-------------------+
+/// | Path type (1 bit) | Address Type (2 bits) | Protocol (5 bits) |
+/// +-------------------+-----------------------+-------------------+----------------+
 /// |                   Address (4/16/ * bytes)                  ...| Port (2 bytes) |
 /// +---------------------------------------------------------------+----------------+
 /// ```
-- 
2.43.0


From e3bb101f898fd76fd045f29d1dc5f2589ebb082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 21/57] fix: truncated or corrupted actor paths panicked the
 decoder

Reading the header, port, name length or serialisation id beyond the end of
the buffer panicked, names were used as strings without checking that they
are UTF-8 or valid path segments, and a named path without segments came
back with one empty segment. All of these now return an error or the
original path.
---
 core/src/messaging/framing.rs         | 50 ++++++++++++++++++---------
 core/src/serialisation/ser_helpers.rs | 26 +++++++-------
 2 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 18aa87f..f9b3451 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -1,7 +1,16 @@
 //! Message framing (serialization and deserialization into and from byte buffers)
 
 use crate::{
-    actors::{ActorPath, NamedPath, SystemField, SystemPath, Transport, UniquePath},
+    actors::{
+        ActorPath,
+        NamedPath,
+        SystemField,
+        SystemPath,
+        Transport,
+        UniquePath,
+        parse_path,
+        validate_lookup_path,
+    },
     messaging::bitfields::{BitField, BitFieldExt},
     serialisation::{Deserialiser, SerError, SerId, Serialisable, serialisation_ids},
 };
@@ -279,6 +288,11 @@ fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) -> () {
 #[inline(always)]
 fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPath), SerError> {
     // Deserialize system path
+    if !buf.has_remaining() {
+        return Err(SerError::invalid_data(
+            "Could not get 1 byte for system path header",
+        ));
+    }
     let fields: u8 = buf.get_u8();
     let header = SystemPathHeader::try_from(fields)?;
     let address: IpAddr = match header.address_type {
@@ -305,9 +319,12 @@ fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPa
             }
         }
         AddressType::Domain => {
-            unimplemented!();
+            return Err(SerError::invalid_type("Unsupported AddressType"));
         }
     };
+    if buf.remaining() < 2 {
+        return Err(SerError::invalid_data("Could not get 2 bytes for port"));
+    }
     let port = buf.get_u16();
     let system_path = SystemPath::new(header.protocol, address, port);
     Ok((header, system_path))
@@ -399,6 +416,11 @@ impl Deserialiser<ActorPath> for ActorPath {
                 }
             }
             PathType::Named => {
+                if buf.remaining() < 2 {
+                    return Err(SerError::invalid_data(
+                        "Could not get 2 bytes for path name length",
+                    ));
+                }
                 let name_len = buf.get_u16() as usize;
                 if buf.remaining() < name_len {
                     return Err(SerError::invalid_data(format!(
@@ -408,21 +430,17 @@ impl Deserialiser<ActorPath> for ActorPath {
                 } else {
                     let mut name_bytes = vec![0u8; name_len];
                     buf.copy_to_slice(&mut name_bytes);
-                    let name = unsafe {
-                        // Paths are serialised by Kompact itself and transported with the normal
-                        // networking integrity checks in place, so we keep the unchecked decode on
-                        // this hot path.
-                        String::from_utf8_unchecked(name_bytes)
-                    };
-                    let parts: Vec<&str> = name.split('/').collect();
-                    if parts.is_empty() {
-                        return Err(SerError::invalid_data(
-                            "Could not determine name for Named path type",
-                        ));
+                    let name = String::from_utf8(name_bytes).map_err(|_| {
+                        SerError::invalid_data("Path name is not valid UTF-8")
+                    })?;
+                    let path = if name.is_empty() {
+                        Vec::new() // a named path without any segments
                     } else {
-                        let path = parts.into_iter().map(|s| s.to_string()).collect();
-                        ActorPath::Named(NamedPath::with_system(system_path, path))
-                    }
+                        parse_path(&name)
+                    };
+                    validate_lookup_path(&path)
+                        .map_err(|e| SerError::invalid_data(e.to_string()))?;
+                    ActorPath::Named(NamedPath::with_system(system_path, path))
                 }
             }
         };
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 762679b..6aa0fa0 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -230,18 +230,23 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
     })
 }
 
+fn read_ser_id<B: Buf>(buffer: &mut B) -> Result<SerId, SerError> {
+    if buffer.remaining() < std::mem::size_of::<SerId>() {
+        Err(SerError::invalid_data(
+            "Could not get enough bytes for the serialisation id",
+        ))
+    } else {
+        Ok(buffer.get_ser_id())
+    }
+}
+
 /// Extracts a [NetMessage](NetMessage) from the provided buffer
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
 pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, SerError> {
-    // if buffer.remaining() < 1 {
-    //     return Err(SerError::invalid_data("Not enough bytes available"));
-    // }
-    // gonna fail below anyway
-
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer.into_chunk_ref());
 
@@ -252,14 +257,9 @@ pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, Ser
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
 pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerError> {
-    // if buffer.remaining() < 1 {
-    //     return Err(SerError::invalid_data("Not enough bytes available"));
-    // }
-    // gonna fail below anyway
-
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer);
 
@@ -272,7 +272,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 pub fn deserialise_bytes(mut buffer: Bytes) -> Result<NetMessage, SerError> {
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_bytes(ser_id, src, dst, buffer);
 
-- 
2.43.0


From 453ddb78eb52c24c86268b522be85e0d5cadc61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 22/57] fix: formatted paths with IPv6 addresses could not be
 parsed back

---
 core/src/actors/paths.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 7192ede..33d2f09 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -200,7 +200,8 @@ impl SystemPath {
 
 impl fmt::Display for SystemPath {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}://{}:{}", self.protocol, self.address, self.port)
+        // the socket address puts IPv6 addresses into brackets
+        write!(fmt, "{}://{}", self.protocol, self.socket_address())
     }
 }
 
-- 
2.43.0


From 8aae24de70fb4f1b893438bfe062aae34f9d4b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 23/57] fix: lookup paths accepted broadcast and select markers
 inside of names

They are documented as allowed only as the whole last segment.
---
 core/src/actors/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 33d2f09..cc8e7c6 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -720,10 +720,10 @@ pub(crate) fn validate_lookup_path_segment(
     for c in segment.chars() {
         match c {
             PATH_SEP => return Err(PathParseError::IllegalCharacter(PATH_SEP)),
-            BROADCAST_MARKER if !is_last && len == 1 => {
+            BROADCAST_MARKER if !(is_last && len == 1) => {
                 return Err(PathParseError::IllegalCharacter(BROADCAST_MARKER));
             }
-            SELECT_MARKER if !is_last && len == 1 => {
+            SELECT_MARKER if !(is_last && len == 1) => {
                 return Err(PathParseError::IllegalCharacter(SELECT_MARKER));
             }
             UNIQUE_PATH_SEP => return Err(PathParseError::IllegalCharacter(UNIQUE_PATH_SEP)),
-- 
2.43.0


From b40f6cc936d1ccdd8ebe074f5d427c21f008b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 24/57] fix: locally sent system paths panicked the receiver

---
 core/src/messaging/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index f9b3451..a0ab2ea 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -272,7 +272,7 @@ impl Serialisable for SystemPath {
     }
 
     fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
-        unimplemented!()
+        Ok(self)
     }
 }
 
-- 
2.43.0


From 857bc33ecd4a9b5063fbcc7ef827e4c8b7833713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 25/57] fix: actor paths and strings had the same serialisation
 id

A match on the id handed messages of one type to the deserialiser of the
other.
---
 core/src/serialisation/default_serialisers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 2900c58..bf469cc 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -25,7 +25,7 @@ pub mod serialisation_ids {
     pub const SYSTEM_PATH: SerId = 5;
 
     /// Id for an [ActorPath](crate::prelude::ActorPath).
-    pub const ACTOR_PATH: SerId = 6;
+    pub const ACTOR_PATH: SerId = 9;
 
     /// Id for a `String` serialiser.
     pub const STR: SerId = 6;
-- 
2.43.0


From 3edfc5d865c7e6bc1ba3b56ab81cf9e054698f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 26/57] fix: asking a fully read chunk for its next bytes
 panicked

Buf::chunk must return an empty slice when nothing remains, for example for
messages without any content.
---
 core/src/net/buffers/chunk_lease.rs | 3 +++
 core/src/net/buffers/chunk_ref.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index 4ea5e85..caa12d1 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -226,6 +226,9 @@ impl Buf for ChunkLease {
     }
 
     fn chunk(&self) -> &[u8] {
+        if !self.has_remaining() {
+            return &[];
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index 555e147..fe42a8b 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -95,6 +95,9 @@ impl Buf for ChunkRef {
 
     // Returns a slice starting from the read-pointer up to (possibly) the
     fn chunk(&self) -> &[u8] {
+        if !self.has_remaining() {
+            return &[];
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
-- 
2.43.0


From 7284546f52c78b0d2803fc3cc22133d974e4300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:23 +0000
Subject: [PATCH 27/57] fix: deserialising truncated values panicked or
 allocated without bound

Deserialisers of strings, integers and serde values read beyond the end of
the buffer; now they return an error, and no more memory is allocated than
there are bytes left.
---
 core/src/serialisation/core.rs                | 13 +++++++++++
 core/src/serialisation/default_serialisers.rs |  5 +++-
 core/src/serialisation/serde_serialisers.rs   | 23 +++++++++++++++++--
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/core/src/serialisation/core.rs b/core/src/serialisation/core.rs
index 368ac1b..a39f928 100644
--- a/core/src/serialisation/core.rs
+++ b/core/src/serialisation/core.rs
@@ -419,6 +419,19 @@ pub trait Deserialiser<T>: Send {
     fn deserialise(buf: &mut dyn Buf) -> Result<T, SerError>;
 }
 
+/// Returns an error unless `buf` has at least `len` bytes left to read
+pub(crate) fn check_remaining(buf: &dyn Buf, len: usize) -> Result<(), SerError> {
+    if buf.remaining() < len {
+        Err(SerError::invalid_data(format!(
+            "Expected {} more bytes, but only {} remain",
+            len,
+            buf.remaining()
+        )))
+    } else {
+        Ok(())
+    }
+}
+
 /// A trait for values that can get deserialised themselves
 ///
 /// Can be used for serialisers that reuse already allocated memory
diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index bf469cc..8709dad 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -76,9 +76,11 @@ impl Deserialiser<String> for String {
     const SER_ID: SerId = serialisation_ids::STR;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<String, SerError> {
+        check_remaining(buf, 8)?;
         let len_u64 = buf.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
+        check_remaining(buf, len)?;
+        // This approach is memory safe, but not overly efficient.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
         let mut data: Vec<u8> = vec![0; len];
         buf.copy_to_slice(data.as_mut_slice());
@@ -109,6 +111,7 @@ impl Deserialiser<u64> for u64 {
     const SER_ID: SerId = serialisation_ids::U64;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<u64, SerError> {
+        check_remaining(buf, 8)?;
         let num = buf.get_u64();
         Ok(num)
     }
diff --git a/core/src/serialisation/serde_serialisers.rs b/core/src/serialisation/serde_serialisers.rs
index a8ae4f4..c7e9c27 100644
--- a/core/src/serialisation/serde_serialisers.rs
+++ b/core/src/serialisation/serde_serialisers.rs
@@ -490,6 +490,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 1)?;
         let num = self.buffer.get_u8();
         let v = num != 0u8; // treat everything except 0 as true
         visitor.visit_bool(v)
@@ -499,6 +500,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 1)?;
         let num = self.buffer.get_i8();
         visitor.visit_i8(num)
     }
@@ -507,6 +509,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 2)?;
         let num = self.buffer.get_i16();
         visitor.visit_i16(num)
     }
@@ -515,6 +518,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 4)?;
         let num = self.buffer.get_i32();
         visitor.visit_i32(num)
     }
@@ -523,6 +527,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 8)?;
         let num = self.buffer.get_i64();
         visitor.visit_i64(num)
     }
@@ -531,6 +536,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 1)?;
         let num = self.buffer.get_u8();
         visitor.visit_u8(num)
     }
@@ -539,6 +545,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 2)?;
         let num = self.buffer.get_u16();
         visitor.visit_u16(num)
     }
@@ -547,6 +554,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 4)?;
         let num = self.buffer.get_u32();
         visitor.visit_u32(num)
     }
@@ -555,6 +563,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 8)?;
         let num = self.buffer.get_u64();
         visitor.visit_u64(num)
     }
@@ -563,6 +572,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 4)?;
         let num = self.buffer.get_f32();
         visitor.visit_f32(num)
     }
@@ -571,6 +581,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 8)?;
         let num = self.buffer.get_f64();
         visitor.visit_f64(num)
     }
@@ -579,6 +590,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 4)?;
         let num = self.buffer.get_u32();
         let v = std::char::from_u32(num).ok_or_else(|| {
             SerError::unknown(format!("Number {} does not represent a valid char!", num))
@@ -599,9 +611,11 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 8)?;
         let len_u64 = self.buffer.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
+        check_remaining(self.buffer, len)?;
+        // This approach is memory safe, but not overly efficient.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
@@ -621,9 +635,11 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 8)?;
         let len_u64 = self.buffer.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
+        check_remaining(self.buffer, len)?;
+        // This approach is memory safe, but not overly efficient.
         // If you need different guarantees, write a different serde implementation, that fulfills them
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
@@ -634,6 +650,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 1)?;
         let num = self.buffer.get_u8();
         if num == 0 {
             visitor.visit_none()
@@ -683,6 +700,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 8)?;
         let len_u64 = self.buffer.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_seq(self.counting(len))
@@ -717,6 +735,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        check_remaining(self.buffer, 8)?;
         let len_u64 = self.buffer.get_u64();
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_map(self.counting(len))
-- 
2.43.0


From 070b0a2a51eedcb7503461a977e945dc42a9ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 28/57] fix: actors could be registered under broadcast and
 select markers

---
 core/src/dispatch/lookup/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/dispatch/lookup/mod.rs b/core/src/dispatch/lookup/mod.rs
index cd958c3..30e5290 100644
--- a/core/src/dispatch/lookup/mod.rs
+++ b/core/src/dispatch/lookup/mod.rs
@@ -216,6 +216,7 @@ impl ActorLookup for ActorStore {
                 }
                 ActorPath::Named(np) => {
                     let keys = np.into_path();
+                    crate::actors::validate_insert_path(&keys)?;
                     let prev = self.name_map.insert_owned(keys, ActorTreeEntry::Ref(actor));
                     Ok(prev.into())
                 }
-- 
2.43.0


From e028882b2d0f95c84141f6ec3cd18d6a6b67b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 29/57] fix: messages to empty select groups panicked the
 dispatcher

---
 core/src/routing/groups.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/routing/groups.rs b/core/src/routing/groups.rs
index 0775d09..5bef479 100644
--- a/core/src/routing/groups.rs
+++ b/core/src/routing/groups.rs
@@ -141,6 +141,10 @@ impl Default for RoundRobinRouting {
 }
 impl RoutingPolicy<DynActorRef, NetMessage> for RoundRobinRouting {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Dropping msg to an empty routing group: {:?}", msg);
+            return;
+        }
         let index = self.get_and_increment_index(members.len());
         trace!(logger, "Routing msg to member at index={}", index);
         members[index].tell(msg);
@@ -242,6 +246,10 @@ impl<H: BuildHasher + Clone + Send + Sync + 'static> RoutingPolicy<DynActorRef,
     for SenderHashBucketRouting<H>
 {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Dropping msg to an empty routing group: {:?}", msg);
+            return;
+        }
         let index = self.get_bucket(&msg, members.len());
         trace!(
             logger,
-- 
2.43.0


From a205ea1d9629c9dacdcc5ab6a95831e6e2c99e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:36 +0000
Subject: [PATCH 30/57] fix: finite reals outside of the range of f32 silently
 became infinite

---
 core/src/config/converters_for_other_types.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/config/converters_for_other_types.rs b/core/src/config/converters_for_other_types.rs
index 503c431..ad4a94e 100644
--- a/core/src/config/converters_for_other_types.rs
+++ b/core/src/config/converters_for_other_types.rs
@@ -24,9 +24,15 @@ impl ConfigValueType for F32Value {
     type Value = f32;
 
     fn from_conf(conf: &ConfigValue) -> Result<Self::Value, ConfigError> {
-        conf.as_f64()
-            .map(|v| v as f32)
-            .ok_or_else(|| ConfigError::expected::<Self::Value>(conf))
+        let value = conf
+            .as_f64()
+            .ok_or_else(|| ConfigError::expected::<Self::Value>(conf))?;
+        let narrowed = value as f32;
+        // a finite value outside of the range of `f32` would silently become infinite
+        if narrowed.is_infinite() && value.is_finite() {
+            return Err(ConfigError::expected::<Self::Value>(conf));
+        }
+        Ok(narrowed)
     }
 
     fn into_config_value(value: Self::Value) -> ConfigValue {
-- 
2.43.0


From 28bcedf5ac9e3f6de02a4ea11bca9ecc5d359ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 31/57] mc hooks: synchronisation primitives report to an
 explorer

---
 core/src/component/lifecycle.rs |   3 +
 core/src/component/mod.rs       |   6 +-
 core/src/dedicated_scheduler.rs |  14 +-
 core/src/lib.rs                 |   5 +
 core/src/mc.rs                  | 421 ++++++++++++++++++++++++++++++++
 core/src/routing/groups.rs      |   5 +-
 core/src/runtime/lifecycle.rs   |   3 +
 core/src/runtime/mod.rs         |  10 +-
 core/src/utils/mod.rs           |   7 +
 9 files changed, 463 insertions(+), 11 deletions(-)
 create mode 100644 core/src/mc.rs

diff --git a/core/src/component/lifecycle.rs b/core/src/component/lifecycle.rs
index 8b86a52..5324cbe 100644
--- a/core/src/component/lifecycle.rs
+++ b/core/src/component/lifecycle.rs
@@ -1,5 +1,8 @@
 use super::*;
 
+#[cfg(kompact_mc)]
+use crate::mc::atomic::{AtomicU64, Ordering};
+#[cfg(not(kompact_mc))]
 use std::sync::atomic::{AtomicU64, Ordering};
 
 /// A Kompact lifecycle event
diff --git a/core/src/component/mod.rs b/core/src/component/mod.rs
index 0f0e66f..7445430 100644
--- a/core/src/component/mod.rs
+++ b/core/src/component/mod.rs
@@ -3,10 +3,14 @@ use std::{
     fmt,
     ops::DerefMut,
     panic,
-    sync::{Arc, Mutex, OnceLock, Weak, atomic::AtomicU64},
+    sync::{Arc, OnceLock, Weak},
     time::Duration,
 };
+#[cfg(not(kompact_mc))]
+use std::sync::{Mutex, atomic::AtomicU64};
 use uuid::Uuid;
+#[cfg(kompact_mc)]
+use crate::mc::{Mutex, atomic::AtomicU64};
 
 use super::*;
 use crate::{
diff --git a/core/src/dedicated_scheduler.rs b/core/src/dedicated_scheduler.rs
index 016726c..ef2a911 100644
--- a/core/src/dedicated_scheduler.rs
+++ b/core/src/dedicated_scheduler.rs
@@ -3,14 +3,20 @@ use crate::{
     runtime::{Scheduler, SchedulerShutdownError},
     utils,
 };
+#[cfg(kompact_mc)]
+use crate::mc::{
+    Backoff,
+    atomic::{AtomicBool, Ordering},
+    thread,
+};
+use std::sync::Arc;
+#[cfg(not(kompact_mc))]
 use std::{
-    sync::{
-        Arc,
-        atomic::{AtomicBool, Ordering},
-    },
+    sync::atomic::{AtomicBool, Ordering},
     thread,
 };
 
+#[cfg(not(kompact_mc))]
 use crossbeam_utils::Backoff;
 use futures::FutureExt;
 
diff --git a/core/src/lib.rs b/core/src/lib.rs
index f8a94e1..fb3addc 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -91,7 +91,10 @@ use self::{
     serialisation::*,
     utils::*,
 };
+#[cfg(not(kompact_mc))]
 use crossbeam_queue::SegQueue as ConcurrentQueue;
+#[cfg(kompact_mc)]
+use mc::SegQueue as ConcurrentQueue;
 /// The default crate for scheduler implementations
 pub use executors;
 #[allow(unused_imports)]
@@ -112,6 +115,8 @@ mod dedicated_scheduler;
 /// Default implementations for system components
 pub mod default_components;
 mod dispatch;
+#[cfg(kompact_mc)]
+pub mod mc;
 /// Facilities and utilities for dealing with network messages
 pub mod messaging;
 /// Default networking implementation
diff --git a/core/src/mc.rs b/core/src/mc.rs
new file mode 100644
index 0000000..c6eed95
--- /dev/null
+++ b/core/src/mc.rs
@@ -0,0 +1,421 @@
+//! Model checking only (`--cfg kompact_mc`): drop-in replacements for the synchronisation
+//! primitives shared between threads, which report every operation to an [Explorer].
+//!
+//! Without an installed explorer (per OS thread) they behave exactly like what they replace.
+#![allow(missing_docs, deprecated)]
+
+use std::{cell::Cell, ops::Deref};
+
+/// Decides at every operation on shared state which thread continues.
+pub trait Explorer {
+    /// The current thread is about to perform `op` on `object`.
+    fn point(&self, op: &'static str, object: usize);
+    /// The current thread can only continue once `ready` holds.
+    fn wait(&self, op: &'static str, object: usize, ready: &dyn Fn() -> bool);
+    /// Start a new thread.
+    fn spawn(&self, name: &str, f: Box<dyn FnOnce() + 'static>) -> usize;
+    /// Let other threads run.
+    fn yield_now(&self);
+    /// Consume the token of the current thread, or wait for it.
+    fn park(&self);
+    /// Give a thread its token.
+    fn unpark(&self, thread: usize);
+}
+
+thread_local! {
+    static EXPLORER: Cell<Option<&'static dyn Explorer>> = const { Cell::new(None) };
+}
+
+/// Set the explorer of this OS thread.
+pub fn install(e: Option<&'static dyn Explorer>) {
+    EXPLORER.with(|x| x.set(e));
+}
+
+pub(crate) fn explorer() -> Option<&'static dyn Explorer> {
+    EXPLORER.with(|x| x.get())
+}
+
+pub(crate) fn point(op: &'static str, object: usize) {
+    if let Some(e) = explorer()
+        && !std::thread::panicking()
+    {
+        e.point(op, object);
+    }
+}
+
+macro_rules! common_ops {
+    ($name:ident, $t:ty) => {
+        pub struct $name(std::sync::atomic::$name);
+        impl $name {
+            pub const fn new(v: $t) -> Self {
+                Self(std::sync::atomic::$name::new(v))
+            }
+            pub fn get_mut(&mut self) -> &mut $t {
+                self.0.get_mut()
+            }
+            pub fn into_inner(self) -> $t {
+                self.0.into_inner()
+            }
+            fn at(&self, op: &'static str) {
+                point(op, self as *const Self as usize);
+            }
+            pub fn load(&self, o: Ordering) -> $t {
+                self.at("load");
+                self.0.load(o)
+            }
+            pub fn store(&self, v: $t, o: Ordering) {
+                self.at("store");
+                self.0.store(v, o)
+            }
+            pub fn swap(&self, v: $t, o: Ordering) -> $t {
+                self.at("swap");
+                self.0.swap(v, o)
+            }
+            pub fn compare_exchange(
+                &self,
+                a: $t,
+                b: $t,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<$t, $t> {
+                self.at("cas");
+                self.0.compare_exchange(a, b, s, f)
+            }
+            pub fn compare_exchange_weak(
+                &self,
+                a: $t,
+                b: $t,
+                s: Ordering,
+                f: Ordering,
+            ) -> Result<$t, $t> {
+                self.at("cas");
+                self.0.compare_exchange(a, b, s, f)
+            }
+            pub fn fetch_update<F>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t>
+            where
+                F: FnMut($t) -> Option<$t>,
+            {
+                self.at("update");
+                self.0.fetch_update(s, f, g)
+            }
+            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
+                self.at("or");
+                self.0.fetch_or(v, o)
+            }
+            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
+                self.at("and");
+                self.0.fetch_and(v, o)
+            }
+            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
+                self.at("xor");
+                self.0.fetch_xor(v, o)
+            }
+        }
+        impl Default for $name {
+            fn default() -> Self {
+                Self::new(Default::default())
+            }
+        }
+        impl From<$t> for $name {
+            fn from(v: $t) -> Self {
+                Self::new(v)
+            }
+        }
+        impl Deref for $name {
+            type Target = std::sync::atomic::$name;
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+        impl std::fmt::Debug for $name {
+            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                self.0.fmt(f)
+            }
+        }
+    };
+}
+macro_rules! number_ops {
+    ($name:ident, $t:ty) => {
+        common_ops!($name, $t);
+        impl $name {
+            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
+                self.at("add");
+                self.0.fetch_add(v, o)
+            }
+            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
+                self.at("sub");
+                self.0.fetch_sub(v, o)
+            }
+            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
+                self.at("max");
+                self.0.fetch_max(v, o)
+            }
+            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
+                self.at("min");
+                self.0.fetch_min(v, o)
+            }
+        }
+    };
+}
+
+pub mod atomic {
+    use super::*;
+    pub use std::sync::atomic::*;
+    number_ops!(AtomicU64, u64);
+    number_ops!(AtomicUsize, usize);
+    common_ops!(AtomicBool, bool);
+}
+
+/// A mutex whose contention is visible to the explorer.
+#[derive(Debug, Default)]
+pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
+impl<T> From<T> for Mutex<T> {
+    fn from(t: T) -> Self {
+        Mutex::new(t)
+    }
+}
+impl<T> Mutex<T> {
+    pub const fn new(t: T) -> Self {
+        Mutex(std::sync::Mutex::new(t))
+    }
+    pub fn into_inner(self) -> std::sync::LockResult<T> {
+        self.0.into_inner()
+    }
+}
+impl<T: ?Sized> Mutex<T> {
+    fn address(&self) -> usize {
+        self as *const Self as *const () as usize
+    }
+    pub fn lock(&self) -> std::sync::LockResult<std::sync::MutexGuard<'_, T>> {
+        use std::sync::TryLockError::*;
+        let Some(e) = explorer() else {
+            return self.0.lock();
+        };
+        point("lock", self.address());
+        loop {
+            match self.0.try_lock() {
+                Ok(g) => return Ok(g),
+                Err(Poisoned(p)) => return Err(p),
+                Err(WouldBlock) => e.wait("locked", self.address(), &|| {
+                    !matches!(self.0.try_lock(), Err(WouldBlock))
+                }),
+            }
+        }
+    }
+    pub fn try_lock(&self) -> std::sync::TryLockResult<std::sync::MutexGuard<'_, T>> {
+        point("try_lock", self.address());
+        self.0.try_lock()
+    }
+    pub fn get_mut(&mut self) -> std::sync::LockResult<&mut T> {
+        self.0.get_mut()
+    }
+}
+impl<T: ?Sized> Deref for Mutex<T> {
+    type Target = std::sync::Mutex<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+/// The concurrent queue of messages and events.
+#[derive(Debug, Default)]
+pub struct SegQueue<T>(crossbeam_queue::SegQueue<T>);
+impl<T> SegQueue<T> {
+    pub const fn new() -> Self {
+        SegQueue(crossbeam_queue::SegQueue::new())
+    }
+    fn at(&self, op: &'static str) {
+        point(op, self as *const Self as usize);
+    }
+    pub fn push(&self, t: T) {
+        self.at("push");
+        self.0.push(t)
+    }
+    pub fn pop(&self) -> Option<T> {
+        self.at("pop");
+        self.0.pop()
+    }
+    pub fn len(&self) -> usize {
+        self.at("len");
+        self.0.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.at("is_empty");
+        self.0.is_empty()
+    }
+}
+impl<T> Deref for SegQueue<T> {
+    type Target = crossbeam_queue::SegQueue<T>;
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
+
+/// Threads, parking and yielding.
+pub mod thread {
+    use super::explorer;
+    pub use std::thread::*;
+    use std::marker::PhantomData;
+
+    #[derive(Debug)]
+    pub struct Builder {
+        inner: std::thread::Builder,
+        name: String,
+    }
+    impl Builder {
+        pub fn new() -> Self {
+            Builder {
+                inner: std::thread::Builder::new(),
+                name: String::new(),
+            }
+        }
+        pub fn name(self, name: String) -> Self {
+            Builder {
+                inner: self.inner.name(name.clone()),
+                name,
+            }
+        }
+        pub fn stack_size(self, n: usize) -> Self {
+            Builder {
+                inner: self.inner.stack_size(n),
+                name: self.name,
+            }
+        }
+        pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
+        where
+            F: FnOnce() -> T + Send + 'static,
+            T: Send + 'static,
+        {
+            match explorer() {
+                None => self.inner.spawn(f).map(|h| JoinHandle {
+                    thread: Thread::Os(h.thread().clone()),
+                    os: Some(h),
+                    _result: PhantomData,
+                }),
+                Some(e) => {
+                    let id = e.spawn(
+                        &self.name,
+                        Box::new(move || {
+                            let _ = f();
+                        }),
+                    );
+                    Ok(JoinHandle {
+                        thread: Thread::Explored(id),
+                        os: None,
+                        _result: PhantomData,
+                    })
+                }
+            }
+        }
+    }
+    impl Default for Builder {
+        fn default() -> Self {
+            Self::new()
+        }
+    }
+
+    #[derive(Debug)]
+    pub struct JoinHandle<T> {
+        thread: Thread,
+        os: Option<std::thread::JoinHandle<T>>,
+        _result: PhantomData<T>,
+    }
+    impl<T> JoinHandle<T> {
+        pub fn thread(&self) -> &Thread {
+            &self.thread
+        }
+        pub fn join(self) -> Result<T> {
+            self.os.expect("explored threads are not joined").join()
+        }
+    }
+
+    #[derive(Debug, Clone)]
+    pub enum Thread {
+        Os(std::thread::Thread),
+        Explored(usize),
+    }
+    impl Thread {
+        pub fn id(&self) -> ThreadId {
+            match self {
+                Thread::Os(t) => t.id(),
+                Thread::Explored(_) => std::thread::current().id(),
+            }
+        }
+        pub fn unpark(&self) {
+            match (self, explorer()) {
+                (Thread::Os(t), _) => t.unpark(),
+                (Thread::Explored(id), Some(e)) => e.unpark(*id),
+                (Thread::Explored(_), None) => (),
+            }
+        }
+    }
+
+    pub fn park() {
+        match explorer() {
+            None => std::thread::park(),
+            Some(e) => e.park(),
+        }
+    }
+    pub fn yield_now() {
+        match explorer() {
+            None => std::thread::yield_now(),
+            Some(e) => e.yield_now(),
+        }
+    }
+}
+
+/// Spinning is not explored: an explored thread parks at once.
+#[derive(Debug, Default)]
+pub struct Backoff(crossbeam_utils::Backoff);
+impl Backoff {
+    pub fn new() -> Self {
+        Backoff(crossbeam_utils::Backoff::new())
+    }
+    pub fn snooze(&self) {
+        match explorer() {
+            None => self.0.snooze(),
+            Some(e) => e.yield_now(),
+        }
+    }
+    pub fn spin(&self) {
+        match explorer() {
+            None => self.0.spin(),
+            Some(e) => e.yield_now(),
+        }
+    }
+    pub fn is_completed(&self) -> bool {
+        explorer().is_some() || self.0.is_completed()
+    }
+    pub fn reset(&self) {
+        self.0.reset()
+    }
+}
+
+/// Block the current thread on a future.
+pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
+    use std::{
+        sync::{Arc, atomic::*},
+        task::*,
+    };
+    struct Flag(AtomicBool);
+    impl futures::task::ArcWake for Flag {
+        fn wake_by_ref(f: &Arc<Self>) {
+            f.0.store(true, Ordering::SeqCst);
+        }
+    }
+    let Some(e) = explorer() else {
+        return futures::executor::block_on(f);
+    };
+    let flag = Arc::new(Flag(AtomicBool::new(false)));
+    let waker = futures::task::waker(flag.clone());
+    let mut f = std::pin::pin!(f);
+    loop {
+        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
+            return r;
+        }
+        e.wait("block_on", Arc::as_ptr(&flag) as usize, &|| {
+            flag.0.load(Ordering::SeqCst)
+        });
+        flag.0.store(false, Ordering::SeqCst);
+    }
+}
diff --git a/core/src/routing/groups.rs b/core/src/routing/groups.rs
index 5bef479..012ba9b 100644
--- a/core/src/routing/groups.rs
+++ b/core/src/routing/groups.rs
@@ -12,8 +12,11 @@ use std::{
     fmt,
     hash::{BuildHasher, BuildHasherDefault, Hash},
     ops::Deref,
-    sync::atomic::{AtomicUsize, Ordering},
 };
+#[cfg(kompact_mc)]
+use crate::mc::atomic::{AtomicUsize, Ordering};
+#[cfg(not(kompact_mc))]
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 /// The default policy associated with the broadcast marker
 pub static DEFAULT_BROADCAST_POLICY: BroadcastRouting = BroadcastRouting;
diff --git a/core/src/runtime/lifecycle.rs b/core/src/runtime/lifecycle.rs
index a8b3328..6e2a753 100644
--- a/core/src/runtime/lifecycle.rs
+++ b/core/src/runtime/lifecycle.rs
@@ -1,3 +1,6 @@
+#[cfg(kompact_mc)]
+use crate::mc::atomic::{AtomicUsize, Ordering};
+#[cfg(not(kompact_mc))]
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 const ACTIVE: usize = 0;
diff --git a/core/src/runtime/mod.rs b/core/src/runtime/mod.rs
index 247c32f..c32c3ae 100644
--- a/core/src/runtime/mod.rs
+++ b/core/src/runtime/mod.rs
@@ -1,14 +1,14 @@
 use super::*;
 use arc_swap::ArcSwapOption;
 
+#[cfg(kompact_mc)]
+use crate::mc::atomic::{AtomicUsize, Ordering};
+#[cfg(not(kompact_mc))]
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{
     error,
     fmt,
-    sync::{
-        Arc,
-        LazyLock,
-        atomic::{AtomicUsize, Ordering},
-    },
+    sync::{Arc, LazyLock},
 };
 
 use crate::config::{ConfigError, ConfigLoadingError};
diff --git a/core/src/utils/mod.rs b/core/src/utils/mod.rs
index 28bb31e..75beaf7 100644
--- a/core/src/utils/mod.rs
+++ b/core/src/utils/mod.rs
@@ -185,6 +185,8 @@ impl<T: Send + Sized> Future for KFuture<T> {
     type Output = Result<T, PromiseDropped>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        #[cfg(kompact_mc)]
+        crate::mc::point("poll", 0);
         // `oneshot::Receiver<T>` is `Unpin`, so once we have `&mut Receiver<T>` we can safely
         // repin it with `Pin::new` instead of doing unchecked projection from `self`.
         let receiver = &mut self.get_mut().result_channel;
@@ -280,6 +282,9 @@ impl<T: Send + Sized + fmt::Debug, E: Send + Sized + fmt::Debug> KFuture<Result<
     }
 }
 
+#[cfg(kompact_mc)]
+pub use crate::mc::block_on;
+#[cfg(not(kompact_mc))]
 pub use futures::executor::block_on;
 
 /// Blocks the current waiting for `f` to be completed or for the `timeout` to expire
@@ -321,6 +326,8 @@ pub struct KPromise<T: Send + Sized> {
 
 impl<T: Send + Sized> Fulfillable<T> for KPromise<T> {
     fn fulfil(self, t: T) -> Result<(), PromiseErr> {
+        #[cfg(kompact_mc)]
+        crate::mc::point("fulfil", 0);
         self.result_channel
             .send(t)
             .map_err(|_| PromiseErr::ChannelBroken)
-- 
2.43.0


From 5758d595d777d5a2d1f0d4317603977cd52aebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 32/57] fix: dedicated components ran on pool threads for port
 events and timers

Port references and timers always scheduled the receiving component on the
system's scheduler, bypassing a component's own thread.
---
 core/src/ports.rs               | 6 ++----
 core/src/timer/timer_manager.rs | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/ports.rs b/core/src/ports.rs
index bf222a2..a81f8a2 100644
--- a/core/src/ports.rs
+++ b/core/src/ports.rs
@@ -393,8 +393,7 @@ impl<P: Port + 'static> ProvidedRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
@@ -465,8 +464,7 @@ impl<P: Port + 'static> RequiredRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 86be45f..7556675 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -358,8 +358,7 @@ impl TimerActorRef {
                 let res = c.core().increment_work();
                 q.push(timeout);
                 if let SchedulingDecision::Schedule = res {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 Ok(())
             }
-- 
2.43.0


From a50d55e55298d4f6c4f2b7649d1738a234b38672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 33/57] fix: control frames and remainders of frames were sent
 again over the next connection

---
 network/src/transport/network_channel.rs | 77 ++++++++++++++++++------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 47f77ea..8a90404 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -56,9 +56,36 @@ impl ChannelState {
     }
 }
 
+/// A frame waiting to be written to the stream
+struct OutboundFrame {
+    frame: SerialisedFrame,
+    /// `true` for user data, `false` for frames that only concern this channel (e.g. the handshake)
+    is_data: bool,
+    /// `true` once a part of the frame was written
+    partially_sent: bool,
+}
+
+impl OutboundFrame {
+    fn data(frame: SerialisedFrame) -> Self {
+        OutboundFrame {
+            frame,
+            is_data: true,
+            partially_sent: false,
+        }
+    }
+
+    fn control(bytes: BytesMut) -> Self {
+        OutboundFrame {
+            frame: SerialisedFrame::Bytes(bytes.freeze()),
+            is_data: false,
+            partially_sent: false,
+        }
+    }
+}
+
 pub(crate) struct TcpChannel {
     stream: TcpStream,
-    outbound_queue: VecDeque<SerialisedFrame>,
+    outbound_queue: VecDeque<OutboundFrame>,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -116,8 +143,7 @@ impl TcpChannel {
         let mut bytes = BytesMut::with_capacity(len);
         bytes.truncate(len);
         if let Ok(()) = frame.encode_into(&mut bytes) {
-            self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bytes.freeze()));
+            self.outbound_queue.push_back(OutboundFrame::control(bytes));
             // If there is a fatal error during a handshake the connection will be re-attempted
             let _ = self.try_drain();
         } else {
@@ -191,12 +217,21 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Returns the frames that can be sent over another channel.
+    ///
+    /// The remainder of a frame that was sent in part stays in the outbound queue,
+    /// it is of no use on another channel.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
-        let mut ret = Vec::new();
-        while let Some(frame) = self.outbound_queue.pop_front() {
-            ret.push(frame);
-        }
-        ret
+        let (rest, untouched): (VecDeque<_>, VecDeque<_>) = self
+            .outbound_queue
+            .drain(..)
+            .partition(|outbound| outbound.partially_sent);
+        self.outbound_queue = rest;
+        untouched
+            .into_iter()
+            .filter(|outbound| outbound.is_data)
+            .map(|outbound| outbound.frame)
+            .collect()
     }
 
     /// Performs receive and decode, should be called repeatedly
@@ -275,7 +310,7 @@ impl TcpChannel {
         bye_bytes.truncate(len);
         if let Ok(()) = bye.encode_into(&mut bye_bytes) {
             self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bye_bytes.freeze()));
+                .push_back(OutboundFrame::control(bye_bytes));
             let _ = self.try_drain(); // Try to drain outgoing
         } else {
             panic!("Unable to send bye bytes, failed to encode!");
@@ -335,35 +370,39 @@ impl TcpChannel {
     /// Enqueues the frame for sending on the channel.
     /// Enquing to a non-connected channel is disallowed.
     pub fn enqueue_serialised(&mut self, serialized: SerialisedFrame) {
-        self.outbound_queue.push_back(serialized);
+        self.outbound_queue
+            .push_back(OutboundFrame::data(serialized));
     }
 
     /// Tries to drain the outbound buffer into
     pub fn try_drain(&mut self) -> io::Result<usize> {
         let mut sent_bytes: usize = 0;
         let mut interrupts = 0;
-        while let Some(mut serialized_frame) = self.outbound_queue.pop_front() {
-            match self.write_serialized(&serialized_frame) {
+        while let Some(mut outbound) = self.outbound_queue.pop_front() {
+            match self.write_serialized(&outbound.frame) {
                 Ok(n) => {
                     sent_bytes += n;
-                    match &mut serialized_frame {
+                    match &mut outbound.frame {
                         // Split the data and continue sending the rest later if we sent less than the full frame
                         SerialisedFrame::Bytes(bytes) => {
                             if n < bytes.len() {
                                 let _ = bytes.split_to(n); // Discard the already sent split off part.
-                                self.outbound_queue.push_front(serialized_frame);
+                                outbound.partially_sent = true;
+                                self.outbound_queue.push_front(outbound);
                             }
                         }
                         SerialisedFrame::ChunkLease(chunk) => {
                             if n < chunk.remaining() {
                                 chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
+                                outbound.partially_sent = true;
+                                self.outbound_queue.push_front(outbound);
                             }
                         }
                         SerialisedFrame::ChunkRef(chunk) => {
                             if n < chunk.remaining() {
                                 chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
+                                outbound.partially_sent = true;
+                                self.outbound_queue.push_front(outbound);
                             }
                         }
                     }
@@ -372,18 +411,18 @@ impl TcpChannel {
                 // Would block "errors" are the OS's way of saying that the
                 // connection is not actually ready to perform this I/O operation.
                 Err(ref err) if would_block(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Ok(sent_bytes);
                 }
                 Err(err) if interrupted(&err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     interrupts += 1;
                     if interrupts >= MAX_INTERRUPTS {
                         return Err(err);
                     }
                 }
                 Err(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Err(err);
                 }
             }
-- 
2.43.0


From 2384dbe219811294e143c76cfa19d75c445a12ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 34/57] mc hooks: the network transport runs under an explorer

---
 core/src/utils/mod.rs        | 5 +++++
 network/src/lib.rs           | 1 +
 network/src/transport/mod.rs | 6 +++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/src/utils/mod.rs b/core/src/utils/mod.rs
index 75beaf7..420d0c7 100644
--- a/core/src/utils/mod.rs
+++ b/core/src/utils/mod.rs
@@ -294,6 +294,11 @@ pub fn block_until<F>(timeout: Duration, mut f: F) -> Result<<F as Future>::Outp
 where
     F: Future + Unpin,
 {
+    #[cfg(kompact_mc)]
+    if crate::mc::explorer().is_some() {
+        // no real time passes under an explorer
+        return Ok(block_on(&mut f));
+    }
     block_on(async {
         async_std::future::timeout(timeout, &mut f)
             .await
diff --git a/network/src/lib.rs b/network/src/lib.rs
index 461bf23..ddb96c4 100644
--- a/network/src/lib.rs
+++ b/network/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 pub use kompact::{
     KompactLogger,
     component,
diff --git a/network/src/transport/mod.rs b/network/src/transport/mod.rs
index e7f47a8..37c6f67 100644
--- a/network/src/transport/mod.rs
+++ b/network/src/transport/mod.rs
@@ -16,7 +16,11 @@ use kompact::runtime::{BacktraceSuffix, SourceCause};
 use mio::{Interest, Waker};
 use snafu::{IntoError, ResultExt};
 pub use std::net::SocketAddr;
-use std::{io, net::IpAddr, panic, sync::Arc, thread, time::Duration};
+#[cfg(kompact_mc)]
+use kompact::mc::thread;
+#[cfg(not(kompact_mc))]
+use std::thread;
+use std::{io, net::IpAddr, panic, sync::Arc, time::Duration};
 
 pub(crate) mod network_channel;
 pub mod network_thread;
-- 
2.43.0


From 12c73e48e9b7e0709212631ccc753d914f9f9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 35/57] fix: connections closed by the remote host were never
 noticed

---
 network/src/transport/network_channel.rs |  9 +++++++++
 network/src/transport/network_thread.rs  | 12 +++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 8a90404..a158f7f 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -93,6 +93,8 @@ pub(crate) struct TcpChannel {
     pub messages: u32,
     own_addr: SocketAddr,
     nodelay: bool,
+    /// `true` once the remote host will not send anything anymore
+    end_of_stream: bool,
 }
 
 impl TcpChannel {
@@ -116,6 +118,7 @@ impl TcpChannel {
             messages: 0,
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
+            end_of_stream: false,
         }
     }
 
@@ -266,6 +269,10 @@ impl TcpChannel {
                 Ok(Some(Frame::Bye()))
             }
             Ok(frame) => Ok(Some(frame)),
+            Err(FramingError::NoData) if self.end_of_stream => Err(Error::new(
+                ErrorKind::ConnectionReset,
+                "Connection closed by the remote host",
+            )),
             Err(FramingError::NoData) => Ok(None),
             Err(_) => Err(Error::new(ErrorKind::InvalidData, "Framing Error")),
         }
@@ -281,6 +288,8 @@ impl TcpChannel {
                 .ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "No Buffer Space"))?;
             match self.stream.read(buf) {
                 Ok(0) => {
+                    // Whatever was received before can still be decoded
+                    self.end_of_stream = true;
                     return Ok(());
                 }
                 Ok(n) => {
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b743632..cb96b05 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -444,7 +444,7 @@ impl NetworkThread {
         if let Some(channel_rc) = self.get_channel_by_token(token) {
             let mut channel = channel_rc.borrow_mut();
             match channel.try_drain() {
-                Err(ref err) if broken_pipe(err) => {
+                Err(ref err) if broken_pipe(err) || connection_reset(err) => {
                     self.lost_connection(channel);
                 }
                 Ok(_) => {
@@ -887,6 +887,16 @@ impl NetworkThread {
     /// Handles all logic necessary to shutdown a channel for which the connection has been lost.
     fn lost_connection(&mut self, mut channel: RefMut<TcpChannel>) {
         trace!(self.log, "Lost connection to address {}", channel.address());
+        if matches!(
+            channel.state,
+            ChannelState::Requested(_, _)
+                | ChannelState::Initialising
+                | ChannelState::Initialised(_, _)
+        ) {
+            // It was never established. If it was requested the dispatcher will retry.
+            self.drop_channel(channel.deref_mut());
+            return;
+        }
         if let Some(id) = channel.session_id() {
             self.notify_network_status(NetworkStatus::ConnectionLost(
                 SystemPath::with_socket(Transport::Tcp, channel.address()),
-- 
2.43.0


From 7805b89057a4c4a2a292cc25b7fc5ee92f52a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:15 +0000
Subject: [PATCH 36/57] fix: running out of network buffers once delayed
 everything sent later

---
 network/src/transport/network_thread.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index cb96b05..2dce1ef 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -197,6 +197,8 @@ impl NetworkThread {
             self.poll
                 .poll(&mut events, self.get_poll_timeout())
                 .expect("Error when calling Poll");
+            // It is set again if there still aren't any
+            self.out_of_buffers = false;
 
             for event in events
                 .iter()
-- 
2.43.0


From 11f7d1ad73d6aa03a6b5fad6cf53838d2ff9fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 37/57] fix: attempts to connect that failed kept hosts from
 connecting later

---
 network/src/transport/network_thread.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 2dce1ef..57e71fb 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -408,6 +408,11 @@ impl NetworkThread {
                         self.lost_connection(channel);
                         return;
                     }
+                    Err(e) if interrupted(&e) => {
+                        drop(channel);
+                        self.retry_event(event);
+                        return;
+                    }
                     Err(e) => {
                         warn!(
                             self.log,
@@ -415,6 +420,7 @@ impl NetworkThread {
                             channel.address(),
                             &e
                         );
+                        self.lost_connection(channel);
                         return;
                     }
                 }
-- 
2.43.0


From df91d8257fda04eb16efcfd4106640904a0a9cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 38/57] fix: closing a connection twice, or connecting
 meanwhile, dropped it without a report

---
 network/src/transport/network_thread.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 57e71fb..a1ad659 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -718,6 +718,14 @@ impl NetworkThread {
                     );
                     return;
                 }
+                ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _) => {
+                    debug!(
+                        self.log,
+                        "Requested connection to host while the old one is being closed {}",
+                        &address
+                    );
+                    return;
+                }
                 ChannelState::Closed(_, _) => {
                     debug!(
                         self.log,
@@ -883,11 +891,16 @@ impl NetworkThread {
     fn close_connection(&mut self, addr: SocketAddr) {
         if let Some(channel) = self.get_channel_by_address(&addr) {
             let mut channel_mut = channel.borrow_mut();
-            if channel_mut.connected() {
-                channel_mut.initiate_graceful_shutdown();
-                self.update_lru(&channel_mut.token);
-            } else {
-                self.drop_channel(channel_mut.deref_mut());
+            match channel_mut.state {
+                ChannelState::Connected(_, _) => {
+                    channel_mut.initiate_graceful_shutdown();
+                    self.update_lru(&channel_mut.token);
+                }
+                // It is being closed already
+                ChannelState::CloseRequested(_, _)
+                | ChannelState::CloseReceived(_, _)
+                | ChannelState::Closed(_, _) => {}
+                _ => self.drop_channel(channel_mut.deref_mut()),
             }
         }
     }
-- 
2.43.0


From ae05f82c150ddb817b7ca37b9aecec22ea724edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 39/57] fix: answering a close request partially cut off the
 rest of it, losing the connection

---
 network/src/transport/network_channel.rs | 5 +++++
 network/src/transport/network_thread.rs  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index a158f7f..86a4966 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -383,6 +383,11 @@ impl TcpChannel {
             .push_back(OutboundFrame::data(serialized));
     }
 
+    /// Whether there is anything left to send.
+    pub(crate) fn has_outbound(&self) -> bool {
+        !self.outbound_queue.is_empty()
+    }
+
     /// Tries to drain the outbound buffer into
     pub fn try_drain(&mut self) -> io::Result<usize> {
         let mut sent_bytes: usize = 0;
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index a1ad659..63ab3ee 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -455,6 +455,8 @@ impl NetworkThread {
                 Err(ref err) if broken_pipe(err) || connection_reset(err) => {
                     self.lost_connection(channel);
                 }
+                // There is more to send, before the connection can be shut down.
+                Ok(_) if channel.has_outbound() => {}
                 Ok(_) => {
                     if let ChannelState::CloseReceived(addr, id) = channel.state {
                         channel.state = ChannelState::Closed(addr, id);
-- 
2.43.0


From 03545258faa2ee9a5a6bc1797070369f82b7cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:51 +0000
Subject: [PATCH 40/57] fix: blocking allowed systems did not block them, nor
 did allowing blocked systems make them exceptions

---
 network/src/transport/network_thread.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 63ab3ee..df9d9f2 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1246,14 +1246,14 @@ impl BlockList {
 
     /// Returns true if the rule-set has been modified
     fn block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
-        self.allowed_socket_addr.remove(&socket_addr)
-            || self.blocked_socket_addr.insert(socket_addr)
+        let was_allowed = self.allowed_socket_addr.remove(&socket_addr);
+        self.blocked_socket_addr.insert(socket_addr) || was_allowed
     }
 
     /// Returns true if the rule-set has been modified
     fn allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
-        self.blocked_socket_addr.remove(socket_addr)
-            || self.allowed_socket_addr.insert(*socket_addr)
+        let was_blocked = self.blocked_socket_addr.remove(socket_addr);
+        self.allowed_socket_addr.insert(*socket_addr) || was_blocked
     }
 
     /// Returns true if the IpAddr is fully blocked, i.e. it's Blocked and there's no Allowed SocketAddr with the given IP
-- 
2.43.0


From b9e10b65c3d74d14fbdfb0f8a0249c90a6d4deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:08 +0000
Subject: [PATCH 41/57] fix: allowing systems that are allowed already was
 never confirmed

---
 network/src/transport/network_thread.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index df9d9f2..9ef0ccb 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1056,11 +1056,11 @@ impl NetworkThread {
     fn allow_socket_addr(&mut self, socket_addr: SocketAddr) {
         if self.block_list.allow_socket_addr(&socket_addr) {
             debug!(self.log, "Allowing socket: {:?}", socket_addr);
-            self.notify_network_status(NetworkStatus::AllowedSystem(SystemPath::with_socket(
-                Transport::Tcp,
-                socket_addr,
-            )));
         }
+        self.notify_network_status(NetworkStatus::AllowedSystem(SystemPath::with_socket(
+            Transport::Tcp,
+            socket_addr,
+        )));
     }
 
     fn block_ip_net(&mut self, ip_net: IpNet) {
-- 
2.43.0


From 80e764c91bd2add3041b40db29766d6fa5869cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:27 +0000
Subject: [PATCH 42/57] fix: allowing a connected system cut off everything
 sent to it later

---
 network/src/dispatcher.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index d3ab418..676b580 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -542,7 +542,10 @@ impl NetworkDispatcher {
                         .trigger(NetworkStatus::BlockedIpNet(ip_net));
                 }
                 NetworkStatus::AllowedSystem(system_path) => {
-                    self.connections.remove(&system_path.socket_address());
+                    let addr = system_path.socket_address();
+                    if let Some(ConnectionState::Blocked) = self.connections.get(&addr) {
+                        self.connections.remove(&addr);
+                    }
                     self.network_status_port
                         .trigger(NetworkStatus::AllowedSystem(system_path));
                 }
-- 
2.43.0


From 333ab31cd2a9b00988c12af0a8b779379cc0ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:11 +0000
Subject: [PATCH 43/57] fix: malformed UDP datagrams corrupted later ones or
 disabled UDP for good

---
 core/src/net/buffers/decode_buffer.rs | 9 +++++++++
 network/src/transport/udp_state.rs    | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index cf86bf8..f7bc848 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -224,6 +224,15 @@ impl DecodeBuffer {
         Err(FramingError::NoData)
     }
 
+    /// Discards everything that is buffered, but not decoded yet.
+    ///
+    /// Whatever is written next is the start of a new frame.
+    pub fn discard(&mut self) {
+        self.read_offset = self.write_offset;
+        self.next_frame_head = None;
+        self.chain_head = None;
+    }
+
     fn decode_frame_head(&mut self) -> Result<(), FramingError> {
         if self.next_frame_head.is_none() && self.readable_len() >= FRAME_HEAD_LEN as usize {
             let mut chunk_lease = self.read_chunk_lease(FRAME_HEAD_LEN as usize);
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 8ea914a..5e4489d 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -110,6 +110,8 @@ impl UdpState {
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
                         self.decode_message(addr);
+                        // Datagrams are independent of each other.
+                        self.input_buffer.discard();
                     }
                     Err(err) if would_block(&err) => {
                         return Ok(());
-- 
2.43.0


From d0275cd2bd93cb7e631597febf713d8b747f6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 44/57] fix: messages behind empty UDP datagrams were not
 received until more arrived

---
 network/src/transport/udp_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 5e4489d..acca1f7 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -104,8 +104,8 @@ impl UdpState {
             if let Some(buf) = self.input_buffer.get_writeable() {
                 match self.socket.recv_from(buf) {
                     Ok((0, addr)) => {
+                        // There may be more behind it.
                         debug!(self.logger, "Got empty UDP datagram from {}", addr);
-                        return Ok(());
                     }
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
-- 
2.43.0


From 7cd08d453b8fd5b0cf5d7744d7d7eb3417e92677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 45/57] fix: UDP messages that cannot be sent blocked all
 others

---
 network/src/transport/udp_state.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index acca1f7..df9d737 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -69,10 +69,15 @@ impl UdpState {
                         return Err(err);
                     }
                 }
-                // Other errors we'll consider fatal.
+                // This datagram can not be sent (e.g., because it is too large), but others can.
                 Err(err) => {
-                    self.outbound_queue.push_front((addr, frame));
-                    return Err(err);
+                    warn!(
+                        self.logger,
+                        "Dropping UDP message of {} bytes to {}: {}",
+                        frame.len(),
+                        addr,
+                        err
+                    );
                 }
             }
         }
-- 
2.43.0


From 264f349169e08d563a5a683d9f56c98ed6d6f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:07 +0000
Subject: [PATCH 46/57] fix: UDP messages waiting for buffers were stuck until
 more arrived

---
 network/src/transport/network_thread.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 9ef0ccb..6ba3c2a 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -437,7 +437,11 @@ impl NetworkThread {
                     "Could not get UDP buffer, retries: {}", event.retries
                 );
                 self.out_of_buffers = true;
-                self.retry_event(&event);
+                // There is no connection to give up on: try until there are buffers.
+                let is_retry = |e: &EventWithRetries| e.token == UDP_SOCKET && e.readable;
+                if !self.retry_queue.iter().any(is_retry) {
+                    self.retry_queue.push_back(event);
+                }
             }
             Err(e) => {
                 warn!(self.log, "Error during UDP reading: {}", e);
-- 
2.43.0


From d12f9f453f92795116f318206b4be7560efe77b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 47/57] fix: data before the handshake crashed the network
 thread

---
 network/src/transport/network_thread.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 6ba3c2a..e58ec66 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -366,14 +366,18 @@ impl NetworkThread {
                     Ok(None) => {
                         return;
                     }
-                    Ok(Some(Frame::Data(data))) => {
-                        self.handle_data_frame(
-                            data,
-                            channel
-                                .session_id()
-                                .expect("Connected Channel must have a SessionId"),
-                        );
-                    }
+                    Ok(Some(Frame::Data(data))) => match channel.session_id() {
+                        Some(session) => self.handle_data_frame(data, session),
+                        None => {
+                            warn!(
+                                self.log,
+                                "Received data before the handshake from {}, closing the connection",
+                                channel.address()
+                            );
+                            self.lost_connection(channel);
+                            return;
+                        }
+                    },
                     Ok(Some(Frame::Start(start))) => {
                         self.handle_start(event, &mut channel, &start);
                         return;
-- 
2.43.0


From bf017e13cb71a7b653757acabc1768521d09bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 48/57] fix: undecodable TCP messages crashed the network
 thread

---
 network/src/transport/network_thread.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index e58ec66..6d4d285 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -367,7 +367,18 @@ impl NetworkThread {
                         return;
                     }
                     Ok(Some(Frame::Data(data))) => match channel.session_id() {
-                        Some(session) => self.handle_data_frame(data, session),
+                        Some(session) => {
+                            if let Err(e) = self.handle_data_frame(data, session) {
+                                warn!(
+                                    self.log,
+                                    "Received an invalid message from {}, closing the connection: {}",
+                                    channel.address(),
+                                    e
+                                );
+                                self.lost_connection(channel);
+                                return;
+                            }
+                        }
                         None => {
                             warn!(
                                 self.log,
@@ -573,11 +584,12 @@ impl NetworkThread {
         }
     }
 
-    fn handle_data_frame(&self, data: Data, session: SessionId) {
+    fn handle_data_frame(&self, data: Data, session: SessionId) -> Result<(), SerError> {
         let buf = data.payload();
-        let mut envelope = deserialise_chunk_lease(buf).expect("s11n errors");
+        let mut envelope = deserialise_chunk_lease(buf)?;
         envelope.set_session(session);
         self.deliver_net_message(envelope);
+        Ok(())
     }
 
     fn deliver_net_message(&self, envelope: NetMessage) {
-- 
2.43.0


From cb13f0b70715339444deb90b5ae877247c588855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 49/57] fix: unexpected Acks crashed the network thread or
 established a connection again

---
 network/src/transport/network_channel.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 86a4966..38d786c 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -206,13 +206,17 @@ impl TcpChannel {
         self.address
     }
 
-    pub fn handle_ack(&mut self) {
+    /// Returns `false` if the channel is not waiting for an Ack
+    pub fn handle_ack(&mut self) -> bool {
         if let ChannelState::Initialised(addr, id) = self.state {
             // An Ack was received. Transition the channel.
             self.stream
                 .set_nodelay(self.nodelay)
                 .expect("set nodelay failed");
             self.state = ChannelState::Connected(addr, id);
+            true
+        } else {
+            false
         }
     }
 
@@ -261,8 +265,11 @@ impl TcpChannel {
         match self.decode() {
             Ok(Frame::Hello(hello)) => Ok(Some(Frame::Hello(hello))),
             Ok(Frame::Ack()) => {
-                self.handle_ack();
-                Ok(Some(Frame::Ack()))
+                if self.handle_ack() {
+                    Ok(Some(Frame::Ack()))
+                } else {
+                    Err(Error::new(ErrorKind::InvalidData, "Unexpected Ack"))
+                }
             }
             Ok(Frame::Bye()) => {
                 self.handle_bye();
-- 
2.43.0


From a6686e2c48c1602e9fe768a9be8153310918b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:22 +0000
Subject: [PATCH 50/57] fix: repeated handshakes crashed the network thread

---
 network/src/transport/network_channel.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 38d786c..3dd3a04 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -263,6 +263,12 @@ impl TcpChannel {
             };
         }
         match self.decode() {
+            Ok(Frame::Hello(_)) if !matches!(self.state, ChannelState::Requested(_, _)) => {
+                Err(Error::new(ErrorKind::InvalidData, "Unexpected Hello"))
+            }
+            Ok(Frame::Start(_)) if !matches!(self.state, ChannelState::Initialising) => {
+                Err(Error::new(ErrorKind::InvalidData, "Unexpected Start"))
+            }
             Ok(Frame::Hello(hello)) => Ok(Some(Frame::Hello(hello))),
             Ok(Frame::Ack()) => {
                 if self.handle_ack() {
-- 
2.43.0


From 4976760faa070706f90acb6676c42c79e786915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:41 +0000
Subject: [PATCH 51/57] fix: a remote host that listens at the address it
 connects from crashed the network thread

---
 network/src/transport/network_thread.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 6d4d285..30f3f85 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -641,8 +641,12 @@ impl NetworkThread {
             self.drop_channel(channel);
             return;
         }
-        if let Some(other_channel_rc) = self.get_channel_by_address(&start.addr) {
-            let mut other_channel = other_channel_rc.borrow_mut();
+        let other_channel_rc = self.get_channel_by_address(&start.addr);
+        // If it is borrowed it's this very channel, there is nothing to merge it with.
+        if let Some(mut other_channel) = other_channel_rc
+            .as_ref()
+            .and_then(|rc| rc.try_borrow_mut().ok())
+        {
             debug!(
                 self.log,
                 "Merging channels {:?} and {:?}", channel, other_channel
-- 
2.43.0


From 2f92b725ab1c4e47b3d2e1be40b31572434b6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:13 +0000
Subject: [PATCH 52/57] fix: a connection that was replaced by a new one kept
 its buffer

---
 network/src/transport/network_thread.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 30f3f85..bb53b1f 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -658,6 +658,10 @@ impl NetworkThread {
                         return;
                     } else {
                         self.lost_connection(other_channel);
+                        // This channel takes its place
+                        if let Some(rc) = &other_channel_rc {
+                            self.drop_channel(rc.borrow_mut().deref_mut());
+                        }
                     }
                 }
                 ChannelState::Requested(_, other_id) if other_id.as_u128() > start.id.as_u128() => {
-- 
2.43.0


From 14444be385ae3ea96a3e906e71bf867c62cc8952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:47 +0000
Subject: [PATCH 53/57] fix: the dedicated thread of a faulty component never
 ended

---
 core/src/dedicated_scheduler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/dedicated_scheduler.rs b/core/src/dedicated_scheduler.rs
index ef2a911..38fef1f 100644
--- a/core/src/dedicated_scheduler.rs
+++ b/core/src/dedicated_scheduler.rs
@@ -107,7 +107,7 @@ impl DedicatedThreadScheduler {
         let backoff = Backoff::new();
         'main: loop {
             let res = c.execute();
-            if c.is_destroyed() || stop.load(Ordering::Relaxed) {
+            if c.is_destroyed() || c.is_faulty() || stop.load(Ordering::Relaxed) {
                 break 'main;
             }
             let park = match res {
-- 
2.43.0


From c4e036e57cfad8f03fb4ade46f1b7a5e5a352c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:09 +0000
Subject: [PATCH 54/57] fix: a shutdown requested while another one was in
 progress made both fail, and an abandoned one poisoned the system

---
 core/src/default_components.rs | 16 ++++++++-------
 core/src/runtime/lifecycle.rs  |  5 +++++
 core/src/runtime/system.rs     | 22 +++++++++++++--------
 core/src/supervision.rs        | 36 ++++++++++++++++++++--------------
 4 files changed, 49 insertions(+), 30 deletions(-)

diff --git a/core/src/default_components.rs b/core/src/default_components.rs
index 29c8f42..f12ebc0 100644
--- a/core/src/default_components.rs
+++ b/core/src/default_components.rs
@@ -80,11 +80,12 @@ impl SystemComponents for DefaultComponents {
 
     fn stop_notify<'a>(
         &'a self,
-        system: &'a KompactSystem,
+        _system: &'a KompactSystem,
     ) -> futures::future::BoxFuture<'a, Result<(), SystemComponentsShutdownError>> {
         async move {
-            system.kill(self.dispatcher.clone());
-            system.kill(self.deadletter_box.clone());
+            // An overlapping shutdown may have completed already, so don't assert an active system.
+            self.dispatcher.enqueue_control(ControlEvent::Kill);
+            self.deadletter_box.enqueue_control(ControlEvent::Kill);
             await_component_ended(&self.dispatcher).await;
             await_component_ended(&self.deadletter_box).await;
             Ok(())
@@ -235,13 +236,14 @@ where
 
     fn stop_notify<'a>(
         &'a self,
-        system: &'a KompactSystem,
+        _system: &'a KompactSystem,
     ) -> futures::future::BoxFuture<'a, Result<(), SystemComponentsShutdownError>> {
         async move {
+            // An overlapping shutdown may have completed already, so don't assert an active system.
             // Gracefully stop the dispatcher/Network layer.
-            system.stop(&self.dispatcher.clone());
-            system.kill(self.dispatcher.clone());
-            system.kill(self.deadletter_box.clone());
+            self.dispatcher.enqueue_control(ControlEvent::Stop);
+            self.dispatcher.enqueue_control(ControlEvent::Kill);
+            self.deadletter_box.enqueue_control(ControlEvent::Kill);
             await_component_ended(&self.dispatcher).await;
             await_component_ended(&self.deadletter_box).await;
             Ok(())
diff --git a/core/src/runtime/lifecycle.rs b/core/src/runtime/lifecycle.rs
index 6e2a753..5152936 100644
--- a/core/src/runtime/lifecycle.rs
+++ b/core/src/runtime/lifecycle.rs
@@ -19,6 +19,11 @@ pub(crate) fn set_destroyed(state: &AtomicUsize) {
     state.store(DESTROYED, Ordering::SeqCst);
 }
 
+/// Returns false if it was destroyed before.
+pub(crate) fn try_set_destroyed(state: &AtomicUsize) -> bool {
+    state.swap(DESTROYED, Ordering::SeqCst) != DESTROYED
+}
+
 pub(crate) fn set_faulty(state: &AtomicUsize) {
     state.store(FAULTY, Ordering::SeqCst);
 }
diff --git a/core/src/runtime/system.rs b/core/src/runtime/system.rs
index b39b5f8..835de53 100644
--- a/core/src/runtime/system.rs
+++ b/core/src/runtime/system.rs
@@ -974,11 +974,14 @@ impl KompactSystem {
     ) -> impl Future<Output = Result<(), ShutdownError>> + Send + Unpin + 'static {
         async move {
             self.inner.assert_active();
-            self.inner.shutdown_notify(&self).await?;
-            self.scheduler
-                .shutdown_notify()
-                .await
-                .context(shutdown_error::SchedulerSnafu)?;
+            let first = self.inner.shutdown_notify(&self).await?;
+            // otherwise an overlapping request shuts the scheduler down
+            if first {
+                self.scheduler
+                    .shutdown_notify()
+                    .await
+                    .context(shutdown_error::SchedulerSnafu)?;
+            }
             Ok(())
         }
         .boxed()
@@ -1937,10 +1940,11 @@ impl KompactRuntime {
         self.timer.timer_ref()
     }
 
+    /// Returns whether this was the first request to get the components shut down.
     fn shutdown_notify<'a>(
         &'a self,
         system: &'a KompactSystem,
-    ) -> futures::future::BoxFuture<'a, Result<(), ShutdownError>> {
+    ) -> futures::future::BoxFuture<'a, Result<bool, ShutdownError>> {
         async move {
             let ic = (*self.internal_components)
                 .as_ref()
@@ -1950,14 +1954,16 @@ impl KompactRuntime {
                 .await
                 .context(shutdown_error::SystemComponentsSnafu)
                 .map_err(ShutdownError::from);
+            if !lifecycle::try_set_destroyed(self.state()) {
+                return components_result.map(|_| false);
+            }
             let timer_result = self
                 .timer
                 .shutdown_notify()
                 .await
                 .context(shutdown_error::TimerSnafu)
                 .map_err(ShutdownError::from);
-            lifecycle::set_destroyed(self.state());
-            components_result.and(timer_result)
+            components_result.and(timer_result).map(|_| true)
         }
         .boxed()
     }
diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index ff90448..75524f3 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -213,7 +213,8 @@ pub(crate) struct ComponentSupervisor {
     pub(crate) supervision: ProvidedPort<SupervisionPort>,
     children: HashMap<Uuid, Arc<dyn CoreContainer>>,
     listeners: HashMap<Uuid, Vec<(ListenEvent, KPromise<()>)>>,
-    shutdown: Option<KPromise<()>>,
+    /// everyone who is waiting for the ongoing shutdown
+    shutdown: Vec<KPromise<()>>,
 }
 
 impl ComponentSupervisor {
@@ -223,7 +224,7 @@ impl ComponentSupervisor {
             supervision: ProvidedPort::uninitialised(),
             children: HashMap::new(),
             listeners: HashMap::new(),
-            shutdown: None,
+            shutdown: Vec::new(),
         }
     }
 
@@ -247,17 +248,15 @@ impl ComponentSupervisor {
     }
 
     fn shutdown_if_no_more_children(&mut self) {
-        if self.shutdown.is_some() {
+        if !self.shutdown.is_empty() {
             if self.children.is_empty() {
                 debug!(
                     self.ctx.log(),
                     "Last child of the Supervisor is dead or faulty!"
                 );
-                let promise = self.shutdown.take().unwrap();
-                promise
-                    .complete()
-                    .expect("Could not fulfill shutdown promise!");
-                self.listeners.clear(); // we won't be fulfilling these anyway
+                for promise in std::mem::take(&mut self.shutdown) {
+                    self.complete_shutdown(promise);
+                }
             } else {
                 trace!(
                     self.ctx.log(),
@@ -267,6 +266,16 @@ impl ComponentSupervisor {
             }
         }
     }
+
+    fn complete_shutdown(&mut self, promise: KPromise<()>) {
+        if promise.complete().is_err() {
+            warn!(
+                self.ctx.log(),
+                "Nobody is waiting for the requested shutdown anymore."
+            );
+        }
+        self.listeners.clear(); // we won't be fulfilling these anyway
+    }
 }
 
 impl ComponentLifecycle for ComponentSupervisor {
@@ -297,7 +306,7 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                 self.children.insert(id, c.clone());
                 debug!(self.ctx.log(), "Component({}) was started.", id);
                 self.notify_listeners(&id, |l| matches!(l, ListenEvent::Started(_)));
-                if self.shutdown.is_some() {
+                if !self.shutdown.is_empty() {
                     warn!(
                         self.ctx.log(),
                         "Child {} just started during shutdown. Killing it immediately!", id
@@ -345,7 +354,7 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                     Some(carc) => drop(carc),
                     None => warn!(self.ctx.log(), "Component({}) faulted during start!.", id),
                 }
-                if self.shutdown.is_none() {
+                if self.shutdown.is_empty() {
                     recover_handler.recover(self.ctx.context_system(), self.ctx.log());
                 } else {
                     warn!(
@@ -378,13 +387,10 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                     debug!(self.ctx.log(), "Supervisor got shutdown request.");
                     if self.children.is_empty() {
                         trace!(self.ctx.log(), "Supervisor has no children!");
-                        promise
-                            .complete()
-                            .expect("Could not fulfill shutdown promise!");
-                        self.listeners.clear(); // we won't be fulfilling these anyway
+                        self.complete_shutdown(promise);
                     } else {
                         trace!(self.ctx.log(), "Killing {} children.", self.children.len());
-                        self.shutdown = Some(promise);
+                        self.shutdown.push(promise);
                         for child in self.children.values() {
                             child.enqueue_control(ControlEvent::Kill);
                         }
-- 
2.43.0


From 8b15fbc2201dc02f370f1cb2fadd97d05a73943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:49 +0000
Subject: [PATCH 55/57] fix: a retry abandoned a connection that the remote
 host had established already

A retry that became due while a handshake was being completed replaced the
connection. If its Start message had been sent, the remote host had already
established it and lost what it had sent over it.
Such a connection is now only replaced once it was not completed for a whole
interval.
---
 network/src/transport/network_channel.rs |  3 +++
 network/src/transport/network_thread.rs  | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 3dd3a04..7934303 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -95,6 +95,8 @@ pub(crate) struct TcpChannel {
     nodelay: bool,
     /// `true` once the remote host will not send anything anymore
     end_of_stream: bool,
+    /// `true` if the connection was requested again while its handshake was being completed
+    pub retried: bool,
 }
 
 impl TcpChannel {
@@ -119,6 +121,7 @@ impl TcpChannel {
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
             end_of_stream: false,
+            retried: false,
         }
     }
 
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index bb53b1f..f0621a5 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -763,6 +763,16 @@ impl NetworkThread {
                     );
                     return;
                 }
+                ChannelState::Initialised(_, _) if !channel.retried => {
+                    // The remote host may have established this connection already.
+                    debug!(
+                        self.log,
+                        "Requested connection to host while the handshake is being completed {}",
+                        &address
+                    );
+                    channel.retried = true;
+                    return;
+                }
                 _ => {
                     self.drop_channel(&mut channel);
                 }
-- 
2.43.0


From 24201ce62afc4b10583b03decef0e5be997bc9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:04 +0000
Subject: [PATCH 56/57] fix: keep sending what is left when both sides close a
 connection at once

A Bye that arrived while data was still queued behind our own close request ended the channel; a
frame that had been sent in part was lost, and the other side saw the connection break.
---
 network/src/transport/network_channel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 7934303..2c93713 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -357,6 +357,10 @@ impl TcpChannel {
                     self.state = ChannelState::Closed(addr, id);
                 }
             }
+            // Both sides are closing, but not everything was sent yet.
+            ChannelState::CloseRequested(addr, id) if self.has_outbound() => {
+                self.state = ChannelState::CloseReceived(addr, id)
+            }
             ChannelState::CloseRequested(addr, id) => self.state = ChannelState::Closed(addr, id),
             _ => {}
         }
-- 
2.43.0


From eb5b2bd2a77a2b8a63b65b4b530bd50860c48df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:40 +0000
Subject: [PATCH 57/57] fix: messages sent while a connection is being closed
 no longer overtake earlier ones

They were returned to the dispatcher at once, ahead of data that was still queued on the channel
and returned when the connection broke after all.
---
 network/src/transport/network_channel.rs | 21 +++++++++++++++++++++
 network/src/transport/network_thread.rs  | 11 +++++++++++
 2 files changed, 32 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 2c93713..b7f7699 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -97,6 +97,8 @@ pub(crate) struct TcpChannel {
     end_of_stream: bool,
     /// `true` if the connection was requested again while its handshake was being completed
     pub retried: bool,
+    /// Data that was rejected while the channel is being closed, to be returned after what is left
+    held_back: Vec<DispatchData>,
 }
 
 impl TcpChannel {
@@ -122,6 +124,7 @@ impl TcpChannel {
             nodelay: network_config.get_tcp_nodelay(),
             end_of_stream: false,
             retried: false,
+            held_back: Vec::new(),
         }
     }
 
@@ -244,6 +247,24 @@ impl TcpChannel {
             .collect()
     }
 
+    /// Whether there is data left to send before the connection can be closed.
+    pub fn is_closing(&self) -> bool {
+        matches!(
+            self.state,
+            ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _)
+        ) && self.has_outbound()
+    }
+
+    /// Keeps data that cannot be sent anymore, as it must not overtake what may be returned later.
+    pub fn hold_back(&mut self, data: DispatchData) {
+        self.held_back.push(data);
+    }
+
+    /// Returns the data that was held back.
+    pub fn take_held_back(&mut self) -> Vec<DispatchData> {
+        std::mem::take(&mut self.held_back)
+    }
+
     /// Performs receive and decode, should be called repeatedly
     /// May return `Ok(Frame::Data)`, `Ok(Frame::Start)`, `Ok(Frame::Bye)`, or an Error.
     pub fn read_frame(&mut self, buffer_pool: &RefCell<BufferPool>) -> io::Result<Option<Frame>> {
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index f0621a5..32f10c5 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -531,6 +531,9 @@ impl NetworkThread {
                         error!(self.log, "Error serialising message {}", e);
                     }
                 }
+            } else if channel.is_closing() {
+                // What was sent before may still be rejected
+                channel.hold_back(data);
             } else {
                 trace!(
                     self.log,
@@ -726,6 +729,7 @@ impl NetworkThread {
     fn drop_channel(&mut self, channel: &mut TcpChannel) {
         self.deregister_channel(channel);
         self.address_map.remove(&channel.address());
+        self.reject_held_back_for_channel(channel);
         channel.shutdown();
         let mut buffer = BufferChunk::new(0);
         channel.swap_buffer(&mut buffer);
@@ -975,6 +979,13 @@ impl NetworkThread {
         for rejected_frame in channel.take_outbound() {
             self.reject_dispatch_data(channel.address(), DispatchData::Serialised(rejected_frame));
         }
+        self.reject_held_back_for_channel(channel);
+    }
+
+    fn reject_held_back_for_channel(&mut self, channel: &mut TcpChannel) {
+        for data in channel.take_held_back() {
+            self.reject_dispatch_data(channel.address(), data);
+        }
     }
 
     fn stop(&mut self) {
-- 
2.43.0

