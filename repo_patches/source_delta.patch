From 4a8fc2facda64d0f844eebd3873adba15bfd81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:53 +0000
Subject: [PATCH 01/16] fix: wake the coordinated receiver when the channel is
 closed or drained

Closing or dropping the sender of a coordinated channel did not wake a task
already waiting on the receiver, and an acknowledgement only woke the task
that had received the acknowledged item; the receiver could wait forever.
---
 .../src/channel/coordinated_channel/coordinated_stream.rs | 8 ++++++++
 paladin-core/src/channel/coordinated_channel/mod.rs       | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..943beab 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -95,6 +95,8 @@ impl CoordinatedAcker {
 
         if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
             self.waker.wake_by_ref();
+            // The receiver may have moved to another task since the item was yielded.
+            self.state.receiver.wake();
         }
     }
 
@@ -133,6 +135,10 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 CoordinatedAcker::new(this.state.clone(), cx.waker().clone()),
             ))),
             Poll::Pending => {
+                // Register interest in closure and acknowledgements _before_ checking for
+                // termination, such that neither can go unnoticed.
+                this.state.receiver.register(cx.waker());
+
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
@@ -149,6 +155,8 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
             // inner stream is closed and there are no pending sends. Otherwise, return
             // pending as there are pending sends.
             Poll::Ready(None) => {
+                this.state.receiver.register(cx.waker());
+
                 if this.state.num_pending_sends.load(Ordering::SeqCst) == 0 {
                     Poll::Ready(None)
                 } else {
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..c762ad3 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -17,7 +17,7 @@ use std::sync::{
     Arc,
 };
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -32,6 +32,11 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task currently waiting on the receiver, if any.
+    ///
+    /// It must be woken whenever the condition for terminating the receiver may
+    /// have become true.
+    receiver: AtomicWaker,
 }
 
 impl ChannelState {
@@ -47,6 +52,7 @@ impl ChannelState {
         }
 
         self.closed.store(true, Ordering::SeqCst);
+        self.receiver.wake();
     }
 }
 
-- 
2.43.0


From 1e1828bdda0c23f8cda96ce52968dd659049246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:01 +0000
Subject: [PATCH 02/16] fix: a failed publish no longer keeps the coordinated
 receiver open

A publish that failed stayed counted as a pending send for ever, so the
receiver never terminated after the sender was closed.
---
 .../channel/coordinated_channel/coordinated_publisher.rs  | 8 ++++----
 paladin-core/src/channel/coordinated_channel/mod.rs       | 7 +++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..144ca9c 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -60,10 +60,10 @@ where
 
         self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
 
-        self.inner
-            .publish(payload)
-            .await
-            .map_err(CoordinatedPublisherError::Inner)?;
+        if let Err(err) = self.inner.publish(payload).await {
+            self.state.cancel_pending_send();
+            return Err(CoordinatedPublisherError::Inner(err).into());
+        }
 
         Ok(())
     }
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index c762ad3..d5f8c29 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -54,6 +54,13 @@ impl ChannelState {
         self.closed.store(true, Ordering::SeqCst);
         self.receiver.wake();
     }
+
+    /// Undo the registration of a pending send that did not take place.
+    fn cancel_pending_send(&self) {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.receiver.wake();
+        }
+    }
 }
 
 /// State coordination between two distinct channel pipes (a
-- 
2.43.0


From aa4be310c10e67e8bcc9c20fdcab48c47dc67208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:22 +0000
Subject: [PATCH 03/16] fix: a coordinated receiver can no longer end before a
 racing publish is delivered

A publish that passed its closed check just before the channel was closed was
not yet counted as pending, and the receiver read the pending count before the
closed flag; either allowed it to terminate with a successfully published
message undelivered.
---
 .../channel/coordinated_channel/coordinated_publisher.rs   | 7 +++++--
 .../src/channel/coordinated_channel/coordinated_stream.rs  | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index 144ca9c..f79630d 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -54,12 +54,15 @@ where
     Inner: Publisher<T> + Sync,
 {
     async fn publish(&self, payload: &T) -> Result<()> {
+        // Register the send _before_ checking for closure. Otherwise, the channel could
+        // be closed and the receiver terminated in between the two.
+        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+
         if self.state.closed.load(Ordering::SeqCst) {
+            self.state.cancel_pending_send();
             return err_closed();
         }
 
-        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
-
         if let Err(err) = self.inner.publish(payload).await {
             self.state.cancel_pending_send();
             return Err(CoordinatedPublisherError::Inner(err).into());
diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index 943beab..e584e78 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -142,8 +142,10 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
+                // `closed` must be read first, as no send can become pending after closure.
+                let closed = this.state.closed.load(Ordering::SeqCst);
                 let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                if closed && num_pending_sends == 0 {
                     return Poll::Ready(None);
                 }
 
-- 
2.43.0


From e76b5b8ce1dbe3c7d5eac8a8ef76a675c7d9350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:50 +0000
Subject: [PATCH 04/16] fix: a fold whose last result arrives before the end of
 its input completes

If the result covering the whole input arrived before the input stream had
reported its end, it was queued as just another partial result and the fold
waited forever.
---
 .../src/directive/indexed_stream/foldable.rs       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..1326ebc 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -223,7 +223,19 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .expect("Expected dispatcher to have a single element at index 0")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            _ => {
+                                // The final result may have arrived before the size of the input
+                                // was known, in which case it was queued and there is nothing
+                                // left to wait for.
+                                if let Some(result) = dispatcher.dequeue(&0).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From a8f365a415fe69b684bd4d78df5dcebb6f9c780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:57 +0000
Subject: [PATCH 05/16] fix: an ignored failure no longer terminates the rest
 of its job

A worker that met a failure with FatalStrategy::Ignore recorded the whole job
as terminated and silently dropped all of its later tasks.
---
 paladin-core/src/runtime/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..d8d0ae7 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -782,13 +782,17 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            let strategy = err.fatal_strategy();
+                            // An ignored failure must not affect the other tasks of the job.
+                            if let FatalStrategy::Terminate = strategy {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
                                 self.dispatch_fatal(ExecutionErr {
                                     routing_key,
-                                    strategy: err.fatal_strategy(),
+                                    strategy,
                                     err,
                                 })
                             )?;
-- 
2.43.0


From 053a11953be32c1d8350bcbdacda7a446e78fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:26 +0000
Subject: [PATCH 06/16] fix: an abort of all jobs is no longer lost to a later
 abort of one job

Commands reach the worker loop through a channel that holds a single value. If
an abort of one job followed an abort of all jobs before the loop had looked,
the latter was overwritten and, being recorded as seen, never honoured.
---
 paladin-core/src/runtime/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index d8d0ae7..0a127b9 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -699,7 +699,16 @@ impl WorkerRuntime {
                             // Mark the job as terminated if it hasn't been already.
                             if mark_terminated(&terminated_jobs, routing_key.clone()) {
                                 // Notify any currently executing task about the termination.
-                                ipc_sig_term_tx.send_replace(routing_key.clone());
+                                // The channel only holds the latest value, so take care not to
+                                // overwrite an abort of all jobs, as it may not have been
+                                // observed yet.
+                                ipc_sig_term_tx.send_if_modified(|current| {
+                                    if current == COMMAND_IPC_ABORT_ALL_KEY {
+                                        return false;
+                                    }
+                                    *current = routing_key;
+                                    true
+                                });
                             }
                         }
                     }
-- 
2.43.0


From de77434742229e371c0a22789c2fdcd479f1f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:49 +0000
Subject: [PATCH 07/16] fix: a worker loop that is dropped no longer leaks its
 auxiliary tasks

Dropping a runtime aborts its emulated workers, but the command listener and
the periodic cleanup task each of them had spawned were only aborted when the
loop returned normally, and otherwise ran for ever.
---
 paladin-core/src/runtime/mod.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 0a127b9..9b7c0a5 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -390,6 +390,19 @@ impl Drop for Runtime {
     }
 }
 
+/// Aborts the wrapped task when dropped.
+///
+/// This binds the lifetime of the auxiliary tasks of
+/// [`WorkerRuntime::main_loop`] to the loop itself, whether it returns or is
+/// dropped.
+struct AbortOnDrop(JoinHandle<()>);
+
+impl Drop for AbortOnDrop {
+    fn drop(&mut self) {
+        self.0.abort();
+    }
+}
+
 /// A runtime for worker nodes.
 ///
 /// This runtime provides functionality for the three responsibilities of a
@@ -670,7 +683,7 @@ impl WorkerRuntime {
         let terminated_jobs: Arc<DashMap<String, Instant>> = Default::default();
 
         // Spawn a task that will periodically clear the terminated jobs map.
-        let reaper = tokio::spawn({
+        let _reaper = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
             async move {
                 loop {
@@ -678,7 +691,7 @@ impl WorkerRuntime {
                     tokio::time::sleep(TERMINATION_CLEAR_INTERVAL).await;
                 }
             }
-        });
+        }));
 
         let identifier: String = get_random_routing_key();
 
@@ -689,7 +702,7 @@ impl WorkerRuntime {
         // Spawn a task that will listen for IPC termination signals and mark jobs as
         // terminated.
         let mut command_receiver = self.get_command_ipc_receiver().await?;
-        let remote_command_sig_term_handler = tokio::spawn({
+        let _remote_command_sig_term_handler = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
 
             async move {
@@ -714,7 +727,7 @@ impl WorkerRuntime {
                     }
                 }
             }
-        });
+        }));
 
         /// Helper to mark a job as terminated.
         ///
@@ -818,9 +831,6 @@ impl WorkerRuntime {
             }
         }
 
-        remote_command_sig_term_handler.abort();
-        reaper.abort();
-
         Ok(())
     }
 }
-- 
2.43.0


From 9f6ebfd83d6851c7d6716b5d338ad19dfeb32e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 08/16] fix: a fatal error during the retries of an operation
 is not retried

A fatal error returned by a retry of a transient failure was retried like a
transient one, and its fatal strategy was replaced by that of the original
error.
---
 paladin-core/src/operation/error.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/operation/error.rs b/paladin-core/src/operation/error.rs
index 7263858..e750ed4 100644
--- a/paladin-core/src/operation/error.rs
+++ b/paladin-core/src/operation/error.rs
@@ -12,7 +12,7 @@
 //! request or a database connection error.
 use std::{num::NonZeroU32, time::Duration};
 
-use futures::Future;
+use futures::{Future, FutureExt};
 use thiserror::Error;
 use tracing::error;
 
@@ -422,10 +422,19 @@ impl OperationError {
                 fatal_strategy,
                 ..
             } => {
+                // A fatal error must end the retries, so treat it as a final outcome.
+                let f = || {
+                    f().map(|result| match result {
+                        Err(err @ Self::Fatal { .. }) => Ok(Err(err)),
+                        result => result.map(Ok),
+                    })
+                };
                 let result = retry_with_strategy(f, retry_strategy, tracer).await;
-                result.map_err(|err| Self::Fatal {
-                    err: err.into_err(),
-                    strategy: fatal_strategy,
+                result.unwrap_or_else(|err| {
+                    Err(Self::Fatal {
+                        err: err.into_err(),
+                        strategy: fatal_strategy,
+                    })
                 })
             }
             _ => Err(self),
-- 
2.43.0


From a1d95f5caae8f9c875cb2806ccf667d2cb320edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:59 +0000
Subject: [PATCH 09/16] fix: the first retry of a failed operation observes the
 strategy's delay

RetryStrategy::After and RetryStrategy::Exponential only delayed the second
and later retries; the first one was attempted immediately after the failure.
---
 paladin-core/src/operation/error.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/paladin-core/src/operation/error.rs b/paladin-core/src/operation/error.rs
index e750ed4..b5bee1f 100644
--- a/paladin-core/src/operation/error.rs
+++ b/paladin-core/src/operation/error.rs
@@ -78,6 +78,15 @@ impl RetryStrategy {
         retry_with_strategy(f, self, Some(tracer)).await
     }
 
+    /// The delay to observe between a failure and its first retry, if any.
+    fn initial_delay(&self) -> Option<Duration> {
+        match *self {
+            Self::Immediate { .. } => None,
+            Self::After { duration, .. } => Some(duration),
+            Self::Exponential { min_duration, .. } => Some(min_duration),
+        }
+    }
+
     pub fn into_backoff(self) -> anyhow::Result<backoff::ExponentialBackoff> {
         match self {
             Self::Exponential {
@@ -422,6 +431,12 @@ impl OperationError {
                 fatal_strategy,
                 ..
             } => {
+                // The operation has just failed, so the first retry is subject to the
+                // strategy's delay too.
+                if let Some(delay) = retry_strategy.initial_delay() {
+                    tokio::time::sleep(delay).await;
+                }
+
                 // A fatal error must end the retries, so treat it as a final outcome.
                 let f = || {
                     f().map(|result| match result {
-- 
2.43.0


From 9be91ad283072ae16e03c8772db783e77e8dcf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:23 +0000
Subject: [PATCH 10/16] fix: execute the operation a task names, not the one at
 its index in link order

Executors were looked up by using the operation identifier as an index into a
linker-assembled slice, whose order does not follow the identifiers as soon as
operations are defined in more than one module (codegen unit): tasks were
executed by another operation. Register and look up executors by identifier.
---
 paladin-core/src/lib.rs          | 12 +++++++++---
 paladin-core/src/task/mod.rs     | 14 ++++++++++++--
 paladin-opkind-derive/src/lib.rs | 10 +++++++---
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index 449e4c6..4fb7cb0 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -237,12 +237,18 @@ pub mod __private {
     pub use tracing;
 
     #[doc(hidden)]
-    #[linkme::distributed_slice]
-    pub static OPERATIONS: [fn(
+    pub type ExecuteFn = fn(
         crate::task::AnyTask,
         abort: crate::AbortSignal,
     ) -> futures::future::BoxFuture<
         'static,
         crate::operation::Result<crate::task::AnyTaskOutput>,
-    >];
+    >;
+
+    /// The registered operations, with their identifiers.
+    ///
+    /// The order of the elements is up to the linker.
+    #[doc(hidden)]
+    #[linkme::distributed_slice]
+    pub static OPERATIONS: [(u8, ExecuteFn)];
 }
diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..f4fa81d 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     __private::OPERATIONS,
-    operation::Operation,
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -166,6 +166,16 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        let execute = OPERATIONS
+            .iter()
+            .find_map(|(id, execute)| (*id == self.operation_id).then_some(execute))
+            .ok_or_else(|| {
+                FatalError::from_str(
+                    &format!("unknown operation id {}", self.operation_id),
+                    FatalStrategy::Terminate,
+                )
+            })?;
+
+        execute(self, abort).await
     }
 }
diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index d0de2ca..df67d0a 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -10,9 +10,10 @@
 //! A globally unique identifier is assigned to each operation. Then, a unique
 //! function that handles deserialization, execution, and re-serialization of
 //! the result is generated for each operation. A pointer to this function is
-//! registered with the distributed slice at the index of the operation's
-//! identifier. This allows execution function to be dereferenced by only the
-//! operation identifier, which is serialized with the task.
+//! registered with the distributed slice, paired with the operation's
+//! identifier. This allows the execution function to be looked up by only the
+//! operation identifier, which is serialized with the task. The order of the
+//! elements of the slice is decided by the linker, and must not be relied upon.
 //!
 //! This scheme allows the tasks sent to workers to be opaque, while still
 //! enabling efficient lookup and execution of the appropriate operation.
@@ -101,6 +102,7 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     let operation_id = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
     let function_name = Ident::new(&format!("__execute_{}", operation_id), name.span());
+    let static_name = Ident::new(&format!("__OPERATION_{}", operation_id), name.span());
 
     let expanded = quote! {
         impl #impl_generics #paladin_path::operation::RemoteExecute for #name #ty_generics #where_clause {
@@ -109,6 +111,8 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
 
         #[#paladin_path::__private::linkme::distributed_slice(#paladin_path::__private::OPERATIONS)]
         #linkme_path_override
+        static #static_name: (u8, #paladin_path::__private::ExecuteFn) = (#operation_id, #function_name);
+
         fn #function_name(task: #paladin_path::task::AnyTask, abort: #paladin_path::AbortSignal,) -> #paladin_path::__private::futures::future::BoxFuture<
             'static,
             #paladin_path::operation::Result<#paladin_path::task::AnyTaskOutput>
-- 
2.43.0


From e288b63492754f01f30d69d38c544e18bab77e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 11/16] verif: hooks for the verification harness (only with
 --cfg paladin_verif)

Accessor giving the harness a worker on an in-memory runtime's channels, and
marked points at which it can interleave other operations.
---
 .../coordinated_publisher.rs                  |  3 ++
 .../coordinated_channel/coordinated_stream.rs |  3 ++
 paladin-core/src/contiguous/queue.rs          |  3 ++
 paladin-core/src/lib.rs                       | 14 ++++++++
 paladin-core/src/queue/in_memory.rs           |  3 ++
 paladin-core/src/runtime/mod.rs               | 19 +++++++++++
 paladin-core/src/verif.rs                     | 33 +++++++++++++++++++
 7 files changed, 78 insertions(+)
 create mode 100644 paladin-core/src/verif.rs

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index f79630d..21671fd 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -57,16 +57,19 @@ where
         // Register the send _before_ checking for closure. Otherwise, the channel could
         // be closed and the receiver terminated in between the two.
         self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+        verif_point!("coord.publish.counted");
 
         if self.state.closed.load(Ordering::SeqCst) {
             self.state.cancel_pending_send();
             return err_closed();
         }
+        verif_point!("coord.publish.checked");
 
         if let Err(err) = self.inner.publish(payload).await {
             self.state.cancel_pending_send();
             return Err(CoordinatedPublisherError::Inner(err).into());
         }
+        verif_point!("coord.publish.sent");
 
         Ok(())
     }
diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index e584e78..67289d3 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -135,6 +135,7 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 CoordinatedAcker::new(this.state.clone(), cx.waker().clone()),
             ))),
             Poll::Pending => {
+                verif_point!("coord.poll.pending");
                 // Register interest in closure and acknowledgements _before_ checking for
                 // termination, such that neither can go unnoticed.
                 this.state.receiver.register(cx.waker());
@@ -144,7 +145,9 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // stream has terminated.
                 // `closed` must be read first, as no send can become pending after closure.
                 let closed = this.state.closed.load(Ordering::SeqCst);
+                verif_point!("coord.poll.closed_read");
                 let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
+                verif_point!("coord.poll.pending_read");
                 if closed && num_pending_sends == 0 {
                     return Poll::Ready(None);
                 }
diff --git a/paladin-core/src/contiguous/queue.rs b/paladin-core/src/contiguous/queue.rs
index 43144a5..6c6588e 100644
--- a/paladin-core/src/contiguous/queue.rs
+++ b/paladin-core/src/contiguous/queue.rs
@@ -56,6 +56,7 @@ where
                 //    only one thread will succeed.
                 match unsafe { &*value.as_ptr() } {
                     Some(adjacent_value) if next_value.is_contiguous(adjacent_value) => {
+                        verif_point!("contig.found.rhs");
                         let value = value.take()?;
                         self.values.remove(entry.key());
                         Some(Position::Rhs(value))
@@ -71,6 +72,7 @@ where
 
                     match unsafe { &*value.as_ptr() } {
                         Some(adjacent_value) if next_value.is_contiguous(adjacent_value) => {
+                            verif_point!("contig.found.lhs");
                             let value = value.take()?;
                             self.values.remove(entry.key());
                             Some(Position::Lhs(value))
@@ -110,6 +112,7 @@ where
                 Position::Rhs(contiguous) => Some((next_value, contiguous)),
             },
             None => {
+                verif_point!("contig.none");
                 self.queue(next_value);
                 None
             }
diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index 4fb7cb0..3ec99f2 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -1,4 +1,5 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
 
 //! Distributed computation library for Rust.
 //!
@@ -206,6 +207,19 @@
 //! worker runtime provides a
 //! [`WorkerRuntime::main_loop`](crate::runtime::WorkerRuntime::main_loop). In
 //! general, most of your logic should exist in `ops` and `leader`.
+/// Marks a point at which the verification harness may interleave other
+/// operations. Expands to nothing unless built with `--cfg paladin_verif`.
+macro_rules! verif_point {
+    ($name:literal) => {
+        #[cfg(paladin_verif)]
+        crate::verif::point($name);
+    };
+}
+
+#[cfg(paladin_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 pub mod acker;
 pub mod channel;
 pub mod common;
diff --git a/paladin-core/src/queue/in_memory.rs b/paladin-core/src/queue/in_memory.rs
index 5023b79..78590b6 100644
--- a/paladin-core/src/queue/in_memory.rs
+++ b/paladin-core/src/queue/in_memory.rs
@@ -146,6 +146,7 @@ impl ExactlyOnceQueue {
     fn publish<PayloadTarget: Serializable>(&self, payload: &PayloadTarget) -> Result<()> {
         let bytes = self.serializer.to_bytes(payload)?;
         self.messages.push(bytes.clone());
+        verif_point!("once.publish.pushed");
         self.num_messages.add_permits(1);
         Ok(())
     }
@@ -243,6 +244,7 @@ impl BroadcastQueue {
         // Assign a unique message ID to the message such that consumers can
         // track which messages they've seen.
         let message_id = self.message_counter.fetch_add(1, Ordering::Relaxed);
+        verif_point!("bcast.publish.numbered");
 
         // If the delivery mode is persistent and there are no consumers, push
         // the message to the history queue such that new consumers can replay
@@ -250,6 +252,7 @@ impl BroadcastQueue {
         if DeliveryMode::Persistent == self.options.delivery_mode && self.consumers.is_empty() {
             self.history.push((message_id, bytes.clone()));
         }
+        verif_point!("bcast.publish.retained");
 
         for consumer in self.consumers.iter() {
             // Newly added consumers may _concurrently_ see messages from history while
diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 9b7c0a5..dd5a443 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -379,6 +379,25 @@ impl Runtime {
     }
 }
 
+#[cfg(paladin_verif)]
+impl Runtime {
+    pub(crate) fn verif_parts(&self) -> (DynamicChannelFactory, DynamicChannel) {
+        (self.channel_factory.clone(), self.task_channel.clone())
+    }
+}
+
+#[cfg(paladin_verif)]
+impl WorkerRuntime {
+    pub(crate) fn verif_new(parts: (DynamicChannelFactory, DynamicChannel), _marker: Marker) -> Self {
+        let (channel_factory, task_channel) = parts;
+        Self {
+            channel_factory,
+            task_channel,
+            _marker,
+        }
+    }
+}
+
 /// Drop the worker emulator when the runtime is dropped.
 impl Drop for Runtime {
     fn drop(&mut self) {
diff --git a/paladin-core/src/verif.rs b/paladin-core/src/verif.rs
new file mode 100644
index 0000000..520a6cc
--- /dev/null
+++ b/paladin-core/src/verif.rs
@@ -0,0 +1,33 @@
+//! Hooks for the verification harness, only built with `--cfg paladin_verif`.
+use std::{cell::RefCell, rc::Rc};
+
+use crate::{
+    operation::marker::Marker,
+    runtime::{Runtime, WorkerRuntime},
+};
+
+type Hook = Rc<dyn Fn(&'static str)>;
+
+thread_local! {
+    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
+}
+
+/// Set the function called at the marked points reached by the current thread.
+pub fn set_hook(hook: Option<Hook>) {
+    HOOK.with(|h| *h.borrow_mut() = hook);
+}
+
+/// Called at a marked point.
+pub(crate) fn point(name: &'static str) {
+    let hook = HOOK.with(|h| h.borrow().clone());
+    if let Some(hook) = hook {
+        hook(name);
+    }
+}
+
+impl Runtime {
+    /// A worker connected to the same channels as this runtime.
+    pub fn verif_worker(&self) -> WorkerRuntime {
+        WorkerRuntime::verif_new(self.verif_parts(), Marker)
+    }
+}
-- 
2.43.0


From c961eac79eafb36a2168d1fe99b76c10076e1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:03 +0000
Subject: [PATCH 12/16] verif: marked points inside the in-memory queues (only
 with --cfg paladin_verif)

---
 paladin-core/src/queue/in_memory.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paladin-core/src/queue/in_memory.rs b/paladin-core/src/queue/in_memory.rs
index 78590b6..51b4d20 100644
--- a/paladin-core/src/queue/in_memory.rs
+++ b/paladin-core/src/queue/in_memory.rs
@@ -250,6 +250,7 @@ impl BroadcastQueue {
         // the message to the history queue such that new consumers can replay
         // the message.
         if DeliveryMode::Persistent == self.options.delivery_mode && self.consumers.is_empty() {
+            verif_point!("bcast.publish.unheard");
             self.history.push((message_id, bytes.clone()));
         }
         verif_point!("bcast.publish.retained");
@@ -268,6 +269,7 @@ impl BroadcastQueue {
                 }
             }
 
+            verif_point!("bcast.publish.delivering");
             consumer.messages.push(bytes.clone());
             consumer.num_messages.add_permits(1);
         }
@@ -312,6 +314,7 @@ impl BroadcastQueue {
                         }
 
                         messages.push(message);
+                        verif_point!("bcast.subscribe.replayed");
                     }
                     (messages, seen)
                 } else {
@@ -324,6 +327,7 @@ impl BroadcastQueue {
                     seen: Arc::new(seen.into_iter().collect()),
                 };
 
+                verif_point!("bcast.subscribe.prepared");
                 entry.insert(consumer.clone());
                 Ok(InMemoryConsumer {
                     messages: consumer.messages.clone(),
@@ -543,6 +547,7 @@ impl<T: Serializable> Stream for InMemoryConsumer<T> {
         // If we have a lock future, poll it
         match this.permit.take() {
             Some(permit) => {
+                verif_point!("once.poll.permitted");
                 // We have a lock, pop the message
                 let item = this.messages.pop();
                 // Release the permit, signaling that we've consumed a message
-- 
2.43.0


From 535627a7dafe265ec4857cb8ec493810ad7b6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 13/16] verif: receiver of results by identifier (only with
 --cfg paladin_verif)

---
 paladin-core/src/runtime/mod.rs |  5 ++++-
 paladin-core/src/verif.rs       | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index dd5a443..245edae 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -388,7 +388,10 @@ impl Runtime {
 
 #[cfg(paladin_verif)]
 impl WorkerRuntime {
-    pub(crate) fn verif_new(parts: (DynamicChannelFactory, DynamicChannel), _marker: Marker) -> Self {
+    pub(crate) fn verif_new(
+        parts: (DynamicChannelFactory, DynamicChannel),
+        _marker: Marker,
+    ) -> Self {
         let (channel_factory, task_channel) = parts;
         Self {
             channel_factory,
diff --git a/paladin-core/src/verif.rs b/paladin-core/src/verif.rs
index 520a6cc..791da66 100644
--- a/paladin-core/src/verif.rs
+++ b/paladin-core/src/verif.rs
@@ -1,9 +1,15 @@
 //! Hooks for the verification harness, only built with `--cfg paladin_verif`.
 use std::{cell::RefCell, rc::Rc};
 
+use anyhow::Result;
+use futures::Stream;
+
 use crate::{
+    acker::Acker,
+    channel::{Channel, ChannelFactory, ChannelType},
     operation::marker::Marker,
     runtime::{Runtime, WorkerRuntime},
+    task::AnyTaskResult,
 };
 
 type Hook = Rc<dyn Fn(&'static str)>;
@@ -30,4 +36,17 @@ impl Runtime {
     pub fn verif_worker(&self) -> WorkerRuntime {
         WorkerRuntime::verif_new(self.verif_parts(), Marker)
     }
+
+    /// Another receiver of the results sent to the given identifier.
+    pub async fn verif_results(
+        &self,
+        identifier: String,
+    ) -> Result<Box<dyn Stream<Item = (AnyTaskResult, Box<dyn Acker>)> + Send + Unpin>> {
+        let (factory, _) = self.verif_parts();
+        factory
+            .get(identifier, ChannelType::ExactlyOnce)
+            .await?
+            .receiver()
+            .await
+    }
 }
-- 
2.43.0


From cb226d9baf66b6a98307add754fc72cd2600da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 14/16] fix: AMQP broadcasts reach every consumer

The consumers of a broadcast channel shared one queue bound to the fanout
exchange, so that each message reached just one of them. Give each consumer a
queue of its own.
---
 paladin-core/src/queue/amqp.rs | 63 +++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..330a5d2 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -52,7 +52,11 @@ use anyhow::Result;
 use async_trait::async_trait;
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::Stream;
-use lapin::{options::QueueDeleteOptions, types::FieldTable, ExchangeKind};
+use lapin::{
+    options::{QueueDeclareOptions, QueueDeleteOptions},
+    types::FieldTable,
+    ExchangeKind,
+};
 use pin_project::pin_project;
 use tracing::{error, instrument};
 
@@ -203,24 +207,6 @@ impl AMQPConnection {
             )
             .await?;
 
-        self.channel
-            .queue_declare(
-                name,
-                options.into_queue_declare_options(),
-                options.into_declare_arguments(),
-            )
-            .await?;
-
-        self.channel
-            .queue_bind(
-                name,
-                name,
-                "", // Routing key is ignored in fanout exchanges
-                Default::default(),
-                Default::default(),
-            )
-            .await?;
-
         Ok(AMQPQueueHandle {
             channel: self.channel.clone(),
             name: name.to_string(),
@@ -343,6 +329,38 @@ impl AMQPQueueHandle {
         Ok(())
     }
 
+    /// Declare a queue that receives the messages broadcast from now on.
+    ///
+    /// Consumers of one queue share its messages, hence each consumer of a
+    /// broadcast needs a queue of its own. It is deleted along with its
+    /// consumer.
+    async fn declare_subscription(&self) -> Result<String> {
+        let queue = self
+            .channel
+            .queue_declare(
+                "", // Let the broker choose a name
+                QueueDeclareOptions {
+                    exclusive: true,
+                    auto_delete: true,
+                    ..Default::default()
+                },
+                Default::default(),
+            )
+            .await?;
+
+        self.channel
+            .queue_bind(
+                queue.name().as_str(),
+                &self.name,
+                "", // Routing key is ignored in fanout exchanges
+                Default::default(),
+                Default::default(),
+            )
+            .await?;
+
+        Ok(queue.name().to_string())
+    }
+
     async fn publish_single<PayloadTarget: Serializable>(
         &self,
         payload: &PayloadTarget,
@@ -483,10 +501,15 @@ impl QueueHandle for AMQPQueueHandle {
         &self,
         consumer_name: &str,
     ) -> Result<Self::Consumer<PayloadTarget>> {
+        let queue = match self.options.syndication_mode {
+            SyndicationMode::ExactlyOnce => self.name.clone(),
+            SyndicationMode::Broadcast => self.declare_subscription().await?,
+        };
+
         let consumer = self
             .channel
             .basic_consume(
-                &self.name,
+                &queue,
                 consumer_name,
                 Default::default(),
                 Default::default(),
-- 
2.43.0


From dc4454ad5f3ad8de1321beabe20593da19e0fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 15/16] fix: AMQP consumers keep consuming after an error

A message that cannot be decoded was left unsettled, with the consumer pending
and no one to wake it, so a consumer with a prefetch of one never received
another message. An error of the consumer likewise left it pending instead of
letting the stream end when the connection was lost.
---
 paladin-core/src/queue/amqp.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 330a5d2..e6f3c78 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -45,7 +45,7 @@
 use std::{
     pin::Pin,
     sync::Arc,
-    task::{Context, Poll},
+    task::{ready, Context, Poll},
 };
 
 use anyhow::Result;
@@ -536,25 +536,25 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
     type Item = (PayloadTarget, AMQPAcker);
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        let this = self.project();
-        match this.inner.poll_next(cx) {
-            Poll::Ready(Some(Ok(delivery))) => {
-                let payload = this.serializer.from_bytes(&delivery.data);
-                match payload {
-                    Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
+        let mut this = self.project();
+        loop {
+            match ready!(this.inner.as_mut().poll_next(cx)) {
+                Some(Ok(delivery)) => match this.serializer.from_bytes(&delivery.data) {
+                    Ok(payload) => return Poll::Ready(Some((payload, AMQPAcker { delivery }))),
                     Err(err) => {
                         error!("Error deserializing message, error: {err}");
-                        Poll::Pending
+                        // Nobody else will settle this delivery, and the broker withholds further
+                        // messages while it is outstanding.
+                        tokio::spawn(async move {
+                            if let Err(err) = delivery.nack(Default::default()).await {
+                                error!("Error rejecting message, error: {err}");
+                            }
+                        });
                     }
-                }
-            }
-            Poll::Ready(Some(Err(err))) => {
-                let err = anyhow::Error::from(err);
-                error!("Error receiving message, error: {err}",);
-                Poll::Pending
+                },
+                Some(Err(err)) => error!("Error receiving message, error: {err}"),
+                None => return Poll::Ready(None),
             }
-            Poll::Ready(None) => Poll::Ready(None),
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From 63b46138433067a222285b33cc247d415f2b1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:39 +0000
Subject: [PATCH 16/16] fix: a missing broker URI is reported instead of
 panicking

---
 paladin-core/src/runtime/dynamic_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/dynamic_channel.rs b/paladin-core/src/runtime/dynamic_channel.rs
index ad649ff..52632b3 100644
--- a/paladin-core/src/runtime/dynamic_channel.rs
+++ b/paladin-core/src/runtime/dynamic_channel.rs
@@ -128,7 +128,7 @@ impl DynamicChannelFactory {
         match config.runtime {
             config::Runtime::Amqp => {
                 let connection = AMQPConnection::new(AMQPConnectionOptions {
-                    uri: config.amqp_uri.as_ref().expect("amqp_uri is required"),
+                    uri: config.amqp_uri.as_ref().context("amqp_uri is required")?,
                     qos: Some(1),
                     serializer,
                 })
-- 
2.43.0

