From 8d52b14ac8f0487ae5ecafc52df296edf7c8d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:00 +0000
Subject: [PATCH 01/18] fix: wake the coordinated receiver when its sender
 closes or the last message is acked

The receiver stayed pending forever when the sender was closed or dropped
while it was already waiting, and an acknowledgement woke the task that had
received the message rather than the one that is waiting now.
---
 .../coordinated_channel/coordinated_stream.rs       | 13 +++++++------
 paladin-core/src/channel/coordinated_channel/mod.rs |  7 ++++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..642e88e 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -22,7 +22,7 @@ use std::{
         atomic::{AtomicBool, Ordering},
         Arc,
     },
-    task::{Context, Poll, Waker},
+    task::{Context, Poll},
 };
 
 use futures::Stream;
@@ -70,16 +70,14 @@ impl<S: Stream> CoordinatedStream<S> {
 /// handled.
 pub struct CoordinatedAcker {
     state: Arc<ChannelState>,
-    waker: Waker,
     did_ack: AtomicBool,
 }
 
 impl CoordinatedAcker {
     /// Create a new [`CoordinatedAcker`].
-    pub fn new(state: Arc<ChannelState>, waker: Waker) -> Self {
+    pub fn new(state: Arc<ChannelState>) -> Self {
         Self {
             state,
-            waker,
             did_ack: AtomicBool::new(false),
         }
     }
@@ -94,7 +92,7 @@ impl CoordinatedAcker {
         }
 
         if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
-            self.waker.wake_by_ref();
+            self.state.receiver_waker.wake();
         }
     }
 
@@ -124,13 +122,16 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
+        // Register before looking at the state, such that a close or an
+        // acknowledgement from here on wakes this task.
+        this.state.receiver_waker.register(cx.waker());
         let item = this.inner.poll_next(cx);
 
         match item {
             // If the inner stream has an item available, return it with an acker.
             Poll::Ready(Some(item)) => Poll::Ready(Some((
                 item,
-                CoordinatedAcker::new(this.state.clone(), cx.waker().clone()),
+                CoordinatedAcker::new(this.state.clone()),
             ))),
             Poll::Pending => {
                 // If the inner stream is pending, check that the channel is closed and there
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..e8eace6 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -17,7 +17,7 @@ use std::sync::{
     Arc,
 };
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -32,6 +32,9 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task that last polled the receiver. It must be woken whenever the
+    /// receiver may have become terminated.
+    receiver_waker: AtomicWaker,
 }
 
 impl ChannelState {
@@ -47,6 +50,8 @@ impl ChannelState {
         }
 
         self.closed.store(true, Ordering::SeqCst);
+        // The receiver may be waiting with nothing left to receive.
+        self.receiver_waker.wake();
     }
 }
 
-- 
2.43.0


From e7af13b6236e81c0f638d127543be86f93d44f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:34 +0000
Subject: [PATCH 02/18] fix: a coordinated receiver must not end while a send
 is in flight

The receiver read the number of pending sends before the closed flag, and a
publish read the closed flag before announcing itself. In both cases a send
racing with close was missed and the receiver ended with it outstanding.
---
 .../coordinated_channel/coordinated_publisher.rs      |  7 +++++--
 .../channel/coordinated_channel/coordinated_stream.rs | 11 ++++++-----
 paladin-core/src/channel/coordinated_channel/mod.rs   |  7 +++++++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..81aad02 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -54,12 +54,15 @@ where
     Inner: Publisher<T> + Sync,
 {
     async fn publish(&self, payload: &T) -> Result<()> {
+        // Announce the send before checking for closure. Otherwise, the receiver
+        // could miss it and terminate if the channel is closed in between.
+        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+
         if self.state.closed.load(Ordering::SeqCst) {
+            self.state.settle_pending_send();
             return err_closed();
         }
 
-        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
-
         self.inner
             .publish(payload)
             .await
diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index 642e88e..4aacd9c 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -91,9 +91,7 @@ impl CoordinatedAcker {
             return;
         }
 
-        if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
-            self.state.receiver_waker.wake();
-        }
+        self.state.settle_pending_send();
     }
 
     /// Negative acknowledge the message.
@@ -137,8 +135,11 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
-                let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                //
+                // The order matters: once the channel is closed, no new send can become
+                // pending, but before that the number of pending sends may still grow.
+                let closed = this.state.closed.load(Ordering::SeqCst);
+                if closed && this.state.num_pending_sends.load(Ordering::SeqCst) == 0 {
                     return Poll::Ready(None);
                 }
 
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index e8eace6..c52a7f8 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -53,6 +53,13 @@ impl ChannelState {
         // The receiver may be waiting with nothing left to receive.
         self.receiver_waker.wake();
     }
+
+    /// Remove a pending send, waking the receiver if it was the last one.
+    fn settle_pending_send(&self) {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.receiver_waker.wake();
+        }
+    }
 }
 
 /// State coordination between two distinct channel pipes (a
-- 
2.43.0


From d1614de6d50cf7dc29e561aba8106a2115a99733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:42 +0000
Subject: [PATCH 03/18] fix: a failed publish does not leave a coordinated
 receiver waiting

A send that failed stayed counted as pending, so the receiver never ended.
---
 .../channel/coordinated_channel/coordinated_publisher.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index 81aad02..6b8a559 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -63,10 +63,11 @@ where
             return err_closed();
         }
 
-        self.inner
-            .publish(payload)
-            .await
-            .map_err(CoordinatedPublisherError::Inner)?;
+        if let Err(err) = self.inner.publish(payload).await {
+            // Nothing was sent, so there is nothing for the receiver to wait for.
+            self.state.settle_pending_send();
+            return Err(CoordinatedPublisherError::Inner(err).into());
+        }
 
         Ok(())
     }
-- 
2.43.0


From 4cb1c6aab31db7a91b67ea38847cd90a71131e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:21 +0000
Subject: [PATCH 04/18] fix: do not retry a fatal error that occurs during
 retries

A fatal error returned by a retried attempt was retried like a transient one
and lost its own fatal strategy.
---
 paladin-core/src/operation/error.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/operation/error.rs b/paladin-core/src/operation/error.rs
index 7263858..1633b4b 100644
--- a/paladin-core/src/operation/error.rs
+++ b/paladin-core/src/operation/error.rs
@@ -422,10 +422,23 @@ impl OperationError {
                 fatal_strategy,
                 ..
             } => {
-                let result = retry_with_strategy(f, retry_strategy, tracer).await;
-                result.map_err(|err| Self::Fatal {
-                    err: err.into_err(),
-                    strategy: fatal_strategy,
+                // Only transient errors are to be retried. A fatal error concludes the
+                // retries, and is returned unchanged.
+                let attempt = || {
+                    let execution = f();
+                    async move {
+                        match execution.await {
+                            Err(err @ Self::Transient { .. }) => Err(err),
+                            conclusion => Ok(conclusion),
+                        }
+                    }
+                };
+                let result = retry_with_strategy(attempt, retry_strategy, tracer).await;
+                result.unwrap_or_else(|err| {
+                    Err(Self::Fatal {
+                        err: err.into_err(),
+                        strategy: fatal_strategy,
+                    })
                 })
             }
             _ => Err(self),
-- 
2.43.0


From 60ee5d918cdebbf094986d91a3982bd27e632e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:11 +0000
Subject: [PATCH 05/18] fix: make the contiguous queue's operations atomic

Two contiguous values offered at the same time could both be queued and never
be paired, and a queued value could be read while another thread took it.
---
 paladin-core/src/contiguous/queue.rs | 31 ++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/contiguous/queue.rs b/paladin-core/src/contiguous/queue.rs
index 43144a5..82051f1 100644
--- a/paladin-core/src/contiguous/queue.rs
+++ b/paladin-core/src/contiguous/queue.rs
@@ -1,3 +1,5 @@
+use std::sync::{Mutex, MutexGuard, PoisonError};
+
 use crossbeam::atomic::AtomicCell;
 use crossbeam_skiplist::SkipMap;
 
@@ -9,6 +11,10 @@ use super::Contiguous;
 /// attempting to acquire adjacent values.
 pub struct ContiguousQueue<T: Contiguous> {
     values: SkipMap<T::Key, AtomicCell<Option<T>>>,
+    /// Makes each operation atomic. Without it, two contiguous values offered
+    /// concurrently may both miss each other and be queued, and a value may be
+    /// inspected while another thread takes it.
+    lock: Mutex<()>,
 }
 
 /// Represents the position of a value relative to another value.
@@ -21,8 +27,13 @@ impl<T: Contiguous> ContiguousQueue<T> {
     pub fn new() -> Self {
         Self {
             values: SkipMap::new(),
+            lock: Mutex::new(()),
         }
     }
+
+    fn lock(&self) -> MutexGuard<'_, ()> {
+        self.lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
 }
 
 impl<T> ContiguousQueue<T>
@@ -40,6 +51,11 @@ where
     /// Returns the position of the contiguous value relative to `next_value` if
     /// found, otherwise `None`.
     pub fn find_contiguous(&self, next_value: &T) -> Option<Position<T>> {
+        let _guard = self.lock();
+        self.find_contiguous_locked(next_value)
+    }
+
+    fn find_contiguous_locked(&self, next_value: &T) -> Option<Position<T>> {
         let key = next_value.key();
         self.values
             // Check the next_value immediately greater than the given range
@@ -52,8 +68,7 @@ where
                 // 1. We are only reading the value.
                 // 2. crossbeam's Entry ensures that the value is not removed while the lifetime
                 //    is in scope.
-                // 3. AtomicCell::take() is atomic. If another thread attempts to take the value
-                //    only one thread will succeed.
+                // 3. The lock is held, so no other thread takes the value while we read it.
                 match unsafe { &*value.as_ptr() } {
                     Some(adjacent_value) if next_value.is_contiguous(adjacent_value) => {
                         let value = value.take()?;
@@ -88,6 +103,11 @@ where
     /// and can be paired later when its contiguous counterpart arrives.
     #[inline]
     pub fn queue(&self, value: T) {
+        let _guard = self.lock();
+        self.queue_locked(value)
+    }
+
+    fn queue_locked(&self, value: T) {
         self.values
             .insert(*value.key(), AtomicCell::new(Some(value)));
     }
@@ -95,6 +115,7 @@ where
     /// Removes the value with the given key from the queue.
     #[inline]
     pub fn dequeue(&self, key: &T::Key) -> Option<T> {
+        let _guard = self.lock();
         self.values.remove(key)?.value().take()
     }
 
@@ -104,13 +125,14 @@ where
     /// If a contiguous value is found, it returns the pair. If not, the
     /// `next_value` is queued for future pairing.
     pub fn acquire_contiguous_pair_or_queue(&self, next_value: T) -> Option<(T, T)> {
-        match self.find_contiguous(&next_value) {
+        let _guard = self.lock();
+        match self.find_contiguous_locked(&next_value) {
             Some(position) => match position {
                 Position::Lhs(contiguous) => Some((contiguous, next_value)),
                 Position::Rhs(contiguous) => Some((next_value, contiguous)),
             },
             None => {
-                self.queue(next_value);
+                self.queue_locked(next_value);
                 None
             }
         }
@@ -130,6 +152,7 @@ impl<T: Contiguous, Iter: IntoIterator<Item = T>> From<Iter> for ContiguousQueue
                 .into_iter()
                 .map(|x| (*x.key(), AtomicCell::new(Some(x))))
                 .collect(),
+            lock: Mutex::new(()),
         }
     }
 }
-- 
2.43.0


From 29e32da88af3ab95af849d4b322958709ef9fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 06/18] fix: serialize publishing to and joining a broadcast
 queue

A message published while the first consumer joins a persistent broadcast
queue could be delivered to it twice, or be split between two consumers, as
the choice between history and consumers was not atomic.
---
 paladin-core/src/queue/in_memory.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/queue/in_memory.rs b/paladin-core/src/queue/in_memory.rs
index 5023b79..2bbd23c 100644
--- a/paladin-core/src/queue/in_memory.rs
+++ b/paladin-core/src/queue/in_memory.rs
@@ -14,7 +14,7 @@ use std::{
     pin::Pin,
     sync::{
         atomic::{AtomicU64, Ordering},
-        Arc,
+        Arc, Mutex, PoisonError,
     },
     task::{Context, Poll},
 };
@@ -223,6 +223,10 @@ struct BroadcastQueue {
     history: Arc<SegQueue<(u64, Bytes)>>,
     /// A global message counter.
     message_counter: Arc<AtomicU64>,
+    /// Held while a message is published or a consumer declared. Whether a
+    /// message goes to the history or to the consumers, and who receives the
+    /// history, must not change halfway.
+    lock: Arc<Mutex<()>>,
     /// The queue options.
     options: QueueOptions,
     /// The serializer to use for serializing and deserializing messages.
@@ -240,6 +244,7 @@ impl BroadcastQueue {
 
     fn publish<PayloadTarget: Serializable>(&self, payload: &PayloadTarget) -> Result<()> {
         let bytes = self.serializer.to_bytes(payload)?;
+        let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
         // Assign a unique message ID to the message such that consumers can
         // track which messages they've seen.
         let message_id = self.message_counter.fetch_add(1, Ordering::Relaxed);
@@ -276,6 +281,7 @@ impl BroadcastQueue {
         &self,
         consumer_name: &str,
     ) -> Result<InMemoryConsumer<PayloadTarget>> {
+        let _guard = self.lock.lock().unwrap_or_else(PoisonError::into_inner);
         match self.consumers.entry(consumer_name.to_string()) {
             Entry::Occupied(entry) => {
                 let consumer = entry.get().clone();
-- 
2.43.0


From e32574b42985534b7bac5773c62531d73c85ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:10 +0000
Subject: [PATCH 07/18] fix: finish a fold whose last result arrives before the
 input ends

While the input size is unknown, a result that covers the whole input is
queued for further combination. If the input then turned out to be complete,
nobody looked at the queued result again and the fold never finished.
---
 .../src/directive/indexed_stream/foldable.rs         | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..191cb15 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -222,8 +222,18 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .await
                                 .expect("Expected dispatcher to have a single element at index 0")
                                 .output),
+                            // If everything was already combined by the time the size became known,
+                            // the final result was not recognized as such, and has been queued.
                             // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            _ => {
+                                if let Some(result) = dispatcher.dequeue(&0).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From cd7ff65bef91575f97b37e5979137135f3c07f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:18 +0000
Subject: [PATCH 08/18] fix: an ignored failure does not terminate its job on
 the worker

A worker that met a failure with FatalStrategy::Ignore marked the whole job as
terminated and silently dropped all of the job's further tasks.
---
 paladin-core/src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..6c67e64 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -782,7 +782,10 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            // An ignored failure concerns this task only.
+                            if let FatalStrategy::Terminate = err.fatal_strategy() {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
-- 
2.43.0


From a177d942cab7feff4fd136b2986fda24e943bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:26 +0000
Subject: [PATCH 09/18] fix: do not lose an abort of all work followed by
 another abort

Termination signals reach the running task through a watch channel, which only
keeps the latest key. An abort-all closely followed by an abort of a job was
overwritten, and the worker kept going.
---
 paladin-core/src/runtime/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 6c67e64..3b534a0 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -691,6 +691,7 @@ impl WorkerRuntime {
         let mut command_receiver = self.get_command_ipc_receiver().await?;
         let remote_command_sig_term_handler = tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
+            let abort_worker_execution = abort_worker_execution.clone();
 
             async move {
                 while let Some(ipc) = command_receiver.next().await {
@@ -698,6 +699,11 @@ impl WorkerRuntime {
                         CommandIpc::Abort { routing_key } => {
                             // Mark the job as terminated if it hasn't been already.
                             if mark_terminated(&terminated_jobs, routing_key.clone()) {
+                                // The watch channel only keeps the latest key, so remember an
+                                // abort of everything beyond the keys that may follow it.
+                                if routing_key == COMMAND_IPC_ABORT_ALL_KEY {
+                                    abort_worker_execution.store(true, Ordering::SeqCst);
+                                }
                                 // Notify any currently executing task about the termination.
                                 ipc_sig_term_tx.send_replace(routing_key.clone());
                             }
@@ -758,7 +764,9 @@ impl WorkerRuntime {
                         debug!(routing_key = %routing_key, received_key = %received_key,
                             "received IPC termination signal");
 
-                        if received_key == COMMAND_IPC_ABORT_ALL_KEY {
+                        if received_key == COMMAND_IPC_ABORT_ALL_KEY
+                            || abort_worker_execution.load(Ordering::SeqCst)
+                        {
                             warn!(routing_key = %routing_key, "worker abort signal received");
                             abort_worker_execution.store(true, Ordering::SeqCst);
                             return true;
-- 
2.43.0


From dcd532d0d18cdc019a257c9bd180241e2a7d4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:25 +0000
Subject: [PATCH 10/18] fix: identify operations independently of slice
 position and crate

---
 paladin-core/src/lib.rs           | 33 ++++++++++++++++++++++++-------
 paladin-core/src/operation/mod.rs |  2 +-
 paladin-core/src/task/mod.rs      | 14 ++++++++++---
 paladin-opkind-derive/src/lib.rs  | 27 ++++++++++++++++++-------
 4 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index 449e4c6..f916be2 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -236,13 +236,32 @@ pub mod __private {
     #[doc(hidden)]
     pub use tracing;
 
+    #[doc(hidden)]
+    pub type OperationEntry = (
+        u64,
+        fn(
+            crate::task::AnyTask,
+            abort: crate::AbortSignal,
+        ) -> futures::future::BoxFuture<
+            'static,
+            crate::operation::Result<crate::task::AnyTaskOutput>,
+        >,
+    );
+
     #[doc(hidden)]
     #[linkme::distributed_slice]
-    pub static OPERATIONS: [fn(
-        crate::task::AnyTask,
-        abort: crate::AbortSignal,
-    ) -> futures::future::BoxFuture<
-        'static,
-        crate::operation::Result<crate::task::AnyTaskOutput>,
-    >];
+    pub static OPERATIONS: [OperationEntry];
+
+    /// The identifier of the operation with the given path (64-bit FNV-1a).
+    #[doc(hidden)]
+    pub const fn operation_id(path: &str) -> u64 {
+        let bytes = path.as_bytes();
+        let mut hash = 0xcbf2_9ce4_8422_2325;
+        let mut i = 0;
+        while i < bytes.len() {
+            hash = (hash ^ bytes[i] as u64).wrapping_mul(0x0100_0000_01b3);
+            i += 1;
+        }
+        hash
+    }
 }
diff --git a/paladin-core/src/operation/mod.rs b/paladin-core/src/operation/mod.rs
index 3b42609..9b98757 100644
--- a/paladin-core/src/operation/mod.rs
+++ b/paladin-core/src/operation/mod.rs
@@ -103,7 +103,7 @@ use crate::serializer::{Serializable, Serializer};
 /// These will be automatically implemented by the
 /// [`RemoteExecute`](crate::RemoteExecute) derive macro.
 pub trait RemoteExecute {
-    const ID: u8;
+    const ID: u64;
 }
 
 /// An operation that can be performed by a worker.
diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..a79e73b 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     __private::OPERATIONS,
-    operation::Operation,
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -71,7 +71,7 @@ pub struct AnyTask {
     /// The serialized [`Operation`] to be executed.
     pub op: Bytes,
     /// The unique identifier of the [`Operation`] to be executed.
-    pub operation_id: u8,
+    pub operation_id: u64,
     /// Serialized arguments to the [`Operation`].
     pub input: Bytes,
     /// The [`Serializer`] used to serialize and deserialize the [`Operation`]
@@ -166,6 +166,14 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        let operation = OPERATIONS.iter().find(|(id, _)| *id == self.operation_id);
+        match operation {
+            Some((_, execute)) => execute(self, abort).await,
+            None => FatalError::from_str(
+                &format!("no operation with id {} is registered", self.operation_id),
+                FatalStrategy::default(),
+            )
+            .into(),
+        }
     }
 }
diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index d0de2ca..2ebb89f 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -10,21 +10,25 @@
 //! A globally unique identifier is assigned to each operation. Then, a unique
 //! function that handles deserialization, execution, and re-serialization of
 //! the result is generated for each operation. A pointer to this function is
-//! registered with the distributed slice at the index of the operation's
-//! identifier. This allows execution function to be dereferenced by only the
+//! registered with the distributed slice, paired with the operation's
+//! identifier. This allows execution function to be looked up by only the
 //! operation identifier, which is serialized with the task.
 //!
+//! Neither the position in the slice, which is up to the compiler and linker,
+//! nor the order of macro expansion, which starts over in each crate, identify
+//! an operation. Hence the identifier is derived from the operation's path.
+//!
 //! This scheme allows the tasks sent to workers to be opaque, while still
 //! enabling efficient lookup and execution of the appropriate operation.
 extern crate proc_macro;
 
-use std::sync::atomic::{AtomicU8, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::{parse_macro_input, Attribute, DeriveInput, Error, Ident, Result};
 
-static OPERATION_ID_COUNTER: AtomicU8 = AtomicU8::new(0);
+static OPERATION_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
 
 /// Check if the `internal` attribute is present on the derive macro.
 ///
@@ -99,16 +103,25 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let name = &input.ident;
     let generics = &input.generics;
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-    let operation_id = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
-    let function_name = Ident::new(&format!("__execute_{}", operation_id), name.span());
+    let operation_index = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
+    let function_name = Ident::new(&format!("__execute_{}", operation_index), name.span());
+    let static_name = Ident::new(&format!("__OPERATION_{}", operation_index), name.span());
+    // The index tells apart equally named operations of different function bodies.
+    let operation_id = quote! {
+        #paladin_path::__private::operation_id(
+            concat!(module_path!(), "::", stringify!(#name), "#", #operation_index)
+        )
+    };
 
     let expanded = quote! {
         impl #impl_generics #paladin_path::operation::RemoteExecute for #name #ty_generics #where_clause {
-            const ID: u8 = #operation_id;
+            const ID: u64 = #operation_id;
         }
 
         #[#paladin_path::__private::linkme::distributed_slice(#paladin_path::__private::OPERATIONS)]
         #linkme_path_override
+        static #static_name: #paladin_path::__private::OperationEntry = (#operation_id, #function_name);
+
         fn #function_name(task: #paladin_path::task::AnyTask, abort: #paladin_path::AbortSignal,) -> #paladin_path::__private::futures::future::BoxFuture<
             'static,
             #paladin_path::operation::Result<#paladin_path::task::AnyTaskOutput>
-- 
2.43.0


From 9d749e1d498583987cf0c4297bc615f8151a8441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 11/18] fix: every consumer of an AMQP broadcast queue receives
 every message

---
 Cargo.lock                     |  2 +-
 paladin-core/src/queue/amqp.rs | 63 +++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index cc8b417..32b4b32 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1408,7 +1408,7 @@ dependencies = [
 
 [[package]]
 name = "paladin-core"
-version = "0.4.3"
+version = "0.4.4"
 dependencies = [
  "anyhow",
  "async-trait",
diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..682ffe8 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -52,7 +52,11 @@ use anyhow::Result;
 use async_trait::async_trait;
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::Stream;
-use lapin::{options::QueueDeleteOptions, types::FieldTable, ExchangeKind};
+use lapin::{
+    options::{QueueDeclareOptions, QueueDeleteOptions},
+    types::FieldTable,
+    ExchangeKind,
+};
 use pin_project::pin_project;
 use tracing::{error, instrument};
 
@@ -203,24 +207,6 @@ impl AMQPConnection {
             )
             .await?;
 
-        self.channel
-            .queue_declare(
-                name,
-                options.into_queue_declare_options(),
-                options.into_declare_arguments(),
-            )
-            .await?;
-
-        self.channel
-            .queue_bind(
-                name,
-                name,
-                "", // Routing key is ignored in fanout exchanges
-                Default::default(),
-                Default::default(),
-            )
-            .await?;
-
         Ok(AMQPQueueHandle {
             channel: self.channel.clone(),
             name: name.to_string(),
@@ -325,6 +311,38 @@ impl Connection for AMQPConnection {
 }
 
 impl AMQPQueueHandle {
+    /// Declare a queue for a single consumer of a broadcast queue.
+    ///
+    /// Consumers of one queue compete for its messages, so each consumer of a
+    /// broadcast needs its own. It lives as long as its consumer.
+    async fn declare_subscription(&self) -> Result<String> {
+        let queue = self
+            .channel
+            .queue_declare(
+                "", // Let the broker name the queue
+                QueueDeclareOptions {
+                    exclusive: true,
+                    auto_delete: true,
+                    ..Default::default()
+                },
+                self.options.into_declare_arguments(),
+            )
+            .await?;
+        let name = queue.name().to_string();
+
+        self.channel
+            .queue_bind(
+                &name,
+                &self.name,
+                "", // Routing key is ignored in fanout exchanges
+                Default::default(),
+                Default::default(),
+            )
+            .await?;
+
+        Ok(name)
+    }
+
     async fn publish_broadcast<PayloadTarget: Serializable>(
         &self,
         payload: &PayloadTarget,
@@ -483,10 +501,15 @@ impl QueueHandle for AMQPQueueHandle {
         &self,
         consumer_name: &str,
     ) -> Result<Self::Consumer<PayloadTarget>> {
+        let queue = match self.options.syndication_mode {
+            SyndicationMode::ExactlyOnce => self.name.clone(),
+            SyndicationMode::Broadcast => self.declare_subscription().await?,
+        };
+
         let consumer = self
             .channel
             .basic_consume(
-                &self.name,
+                &queue,
                 consumer_name,
                 Default::default(),
                 Default::default(),
-- 
2.43.0


From d1b826b3d4fb542ea83df0cdf91e259194cc1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:24 +0000
Subject: [PATCH 12/18] fix: a message that cannot be deserialized does not
 stall an AMQP consumer

---
 paladin-core/src/queue/amqp.rs | 40 ++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 682ffe8..792c39a 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -536,25 +536,33 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
     type Item = (PayloadTarget, AMQPAcker);
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        let this = self.project();
-        match this.inner.poll_next(cx) {
-            Poll::Ready(Some(Ok(delivery))) => {
-                let payload = this.serializer.from_bytes(&delivery.data);
-                match payload {
-                    Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
-                    Err(err) => {
-                        error!("Error deserializing message, error: {err}");
-                        Poll::Pending
+        let mut this = self.project();
+        loop {
+            match this.inner.as_mut().poll_next(cx) {
+                Poll::Ready(Some(Ok(delivery))) => {
+                    match this.serializer.from_bytes(&delivery.data) {
+                        Ok(payload) => {
+                            return Poll::Ready(Some((payload, AMQPAcker { delivery })))
+                        }
+                        Err(err) => {
+                            error!("Error deserializing message, error: {err}");
+                            // Nobody else will settle this message, and while it is not settled
+                            // it counts against the prefetch limit.
+                            tokio::spawn(async move {
+                                if let Err(err) = delivery.nack(Default::default()).await {
+                                    error!("Error rejecting message, error: {err}");
+                                }
+                            });
+                        }
                     }
                 }
+                Poll::Ready(Some(Err(err))) => {
+                    let err = anyhow::Error::from(err);
+                    error!("Error receiving message, error: {err}",);
+                }
+                Poll::Ready(None) => return Poll::Ready(None),
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Ready(Some(Err(err))) => {
-                let err = anyhow::Error::from(err);
-                error!("Error receiving message, error: {err}",);
-                Poll::Pending
-            }
-            Poll::Ready(None) => Poll::Ready(None),
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From e5c18f6bff9793270572fd60e59efd2bcfdc1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:32 +0000
Subject: [PATCH 13/18] Restore the lock file

---
 Cargo.lock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cargo.lock b/Cargo.lock
index 32b4b32..cc8b417 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1408,7 +1408,7 @@ dependencies = [
 
 [[package]]
 name = "paladin-core"
-version = "0.4.4"
+version = "0.4.3"
 dependencies = [
  "anyhow",
  "async-trait",
-- 
2.43.0


From 9bdcdf8a2db0e4156422e992ef36cd0110d6bd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:23 +0000
Subject: [PATCH 14/18] fix: a repeated abort of a job was forgotten with the
 first one

A job that is terminated again while it is still remembered was not
remembered any longer for it, so that the second abort could be forgotten
right away.
---
 paladin-core/src/runtime/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 3b534a0..38264fd 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -722,11 +722,17 @@ impl WorkerRuntime {
             terminated_jobs: &DashMap<String, Instant>,
             routing_key: String,
         ) -> bool {
-            if let Entry::Vacant(entry) = terminated_jobs.entry(routing_key.clone()) {
-                entry.insert(Instant::now());
-                return true;
+            match terminated_jobs.entry(routing_key) {
+                Entry::Vacant(entry) => {
+                    entry.insert(Instant::now());
+                    true
+                }
+                // The job is to be remembered from the latest termination on.
+                Entry::Occupied(mut entry) => {
+                    entry.insert(Instant::now());
+                    false
+                }
             }
-            false
         }
 
         while let Some((payload, acker)) = task_stream.next().await {
-- 
2.43.0


From c66facc4b170cde84aa9f748c6dd5f402c6a5aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 15/18] fix: operations of a package's library and binary, or
 of equally named crates, had the same id

---
 paladin-core/src/lib.rs          |  7 +++---
 paladin-opkind-derive/src/lib.rs | 37 +++++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index f916be2..ea3e68a 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -252,12 +252,13 @@ pub mod __private {
     #[linkme::distributed_slice]
     pub static OPERATIONS: [OperationEntry];
 
-    /// The identifier of the operation with the given path (64-bit FNV-1a).
+    /// The identifier of the operation with the given path, without its first
+    /// `skip` bytes (64-bit FNV-1a).
     #[doc(hidden)]
-    pub const fn operation_id(path: &str) -> u64 {
+    pub const fn operation_id(path: &str, skip: usize) -> u64 {
         let bytes = path.as_bytes();
         let mut hash = 0xcbf2_9ce4_8422_2325;
-        let mut i = 0;
+        let mut i = skip;
         while i < bytes.len() {
             hash = (hash ^ bytes[i] as u64).wrapping_mul(0x0100_0000_01b3);
             i += 1;
diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index 2ebb89f..6a52f84 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -16,13 +16,21 @@
 //!
 //! Neither the position in the slice, which is up to the compiler and linker,
 //! nor the order of macro expansion, which starts over in each crate, identify
-//! an operation. Hence the identifier is derived from the operation's path.
+//! an operation. Hence the identifier is derived from the operation's package
+//! and path. The binaries of a package never meet in one program, but may share
+//! operations as source, so their crate names are left out of the path.
 //!
 //! This scheme allows the tasks sent to workers to be opaque, while still
 //! enabling efficient lookup and execution of the appropriate operation.
 extern crate proc_macro;
 
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::{
+    collections::HashMap,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Mutex,
+    },
+};
 
 use proc_macro::TokenStream;
 use quote::quote;
@@ -30,6 +38,20 @@ use syn::{parse_macro_input, Attribute, DeriveInput, Error, Ident, Result};
 
 static OPERATION_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
 
+/// The number of operations of each name.
+static OPERATION_NAMES: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);
+
+/// The number of equally named operations expanded so far in this crate.
+fn namesakes(name: &Ident) -> usize {
+    let mut names = OPERATION_NAMES.lock().unwrap();
+    let count = names
+        .get_or_insert_with(HashMap::new)
+        .entry(name.to_string())
+        .or_default();
+    *count += 1;
+    *count - 1
+}
+
 /// Check if the `internal` attribute is present on the derive macro.
 ///
 /// Quoted variables need to be slightly modified if the macro is being
@@ -106,10 +128,19 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let operation_index = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
     let function_name = Ident::new(&format!("__execute_{}", operation_index), name.span());
     let static_name = Ident::new(&format!("__OPERATION_{}", operation_index), name.span());
+    let env = |key| std::env::var(key).unwrap_or_default();
+    let package = format!("{} {}", env("CARGO_PKG_NAME"), env("CARGO_PKG_VERSION"));
+    // The length of the crate name at the start of the path, if it is left out.
+    let skip = match std::env::var_os("CARGO_BIN_NAME") {
+        Some(_) => env("CARGO_CRATE_NAME").len(),
+        None => 0,
+    };
     // The index tells apart equally named operations of different function bodies.
+    let index = namesakes(name);
     let operation_id = quote! {
         #paladin_path::__private::operation_id(
-            concat!(module_path!(), "::", stringify!(#name), "#", #operation_index)
+            concat!(module_path!(), "::", stringify!(#name), "#", #index, " ", #package),
+            #skip,
         )
     };
 
-- 
2.43.0


From 345b67378f154b969e030fb332ef8fbcd38ba242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:30 +0000
Subject: [PATCH 16/18] fix: a worker that loses its connection during an
 execution does not panic

---
 paladin-core/src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 38264fd..fb3edca 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -765,7 +765,10 @@ impl WorkerRuntime {
                 let routing_key = routing_key.clone();
                 async move {
                     loop {
-                        ipc_sig_term_rx.changed().await.expect("IPC channel closed");
+                        if ipc_sig_term_rx.changed().await.is_err() {
+                            // No signal will arrive any more (e.g., the connection is lost).
+                            futures::future::pending::<()>().await;
+                        }
                         let received_key = ipc_sig_term_rx.borrow().clone();
                         debug!(routing_key = %routing_key, received_key = %received_key,
                             "received IPC termination signal");
-- 
2.43.0


From b7144abcc8ff10dc9039aef8afd26d38a2c42289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 17/18] fix: a directive whose connection to the broker is lost
 fails instead of hanging

---
 paladin-core/src/runtime/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index fb3edca..a4ea64d 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -54,16 +54,20 @@ use std::{
     time::{Duration, Instant},
 };
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use dashmap::{mapref::entry::Entry, DashMap};
-use futures::{stream::BoxStream, Stream, StreamExt};
+use futures::{
+    future,
+    stream::{self, BoxStream},
+    Stream, StreamExt,
+};
 use serde::{Deserialize, Serialize};
 use tokio::{select, task::JoinHandle, try_join};
 use tracing::{debug, debug_span, error, instrument, trace, warn, Instrument};
 
 use self::dynamic_channel::{DynamicChannel, DynamicChannelFactory};
 use crate::{
-    acker::{Acker, ComposedAcker},
+    acker::{Acker, ComposedAcker, NoopAcker},
     channel::{
         coordinated_channel::coordinated_channel, Channel, ChannelFactory, ChannelType, LeaseGuard,
     },
@@ -335,7 +339,13 @@ impl Runtime {
         let receiver = result_channel
             .receiver::<AnyTaskResult>()
             .await?
-            .map(move |(result, acker)| (result.into_task_result::<Op, Metadata>(), acker));
+            .map(move |(result, acker)| (result.into_task_result::<Op, Metadata>(), acker))
+            // Results only stop arriving on their own if the channel is lost (e.g., with the
+            // connection to the broker), in which case the remaining ones will never arrive.
+            .chain(stream::once(future::ready((
+                Err(anyhow!("the result channel ended unexpectedly")),
+                Box::new(NoopAcker::new()) as Box<dyn Acker>,
+            ))));
 
         // Enable coordination between the task and result channels.
         let (sender, receiver) = coordinated_channel(task_sender, receiver);
@@ -767,7 +777,7 @@ impl WorkerRuntime {
                     loop {
                         if ipc_sig_term_rx.changed().await.is_err() {
                             // No signal will arrive any more (e.g., the connection is lost).
-                            futures::future::pending::<()>().await;
+                            future::pending::<()>().await;
                         }
                         let received_key = ipc_sig_term_rx.borrow().clone();
                         debug!(routing_key = %routing_key, received_key = %received_key,
-- 
2.43.0


From 9915a6db4397712a36e955c848ff465d82c16bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 18/18] fix: building an AMQP runtime without a URI is an error
 instead of a panic

---
 paladin-core/src/runtime/dynamic_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/dynamic_channel.rs b/paladin-core/src/runtime/dynamic_channel.rs
index ad649ff..52632b3 100644
--- a/paladin-core/src/runtime/dynamic_channel.rs
+++ b/paladin-core/src/runtime/dynamic_channel.rs
@@ -128,7 +128,7 @@ impl DynamicChannelFactory {
         match config.runtime {
             config::Runtime::Amqp => {
                 let connection = AMQPConnection::new(AMQPConnectionOptions {
-                    uri: config.amqp_uri.as_ref().expect("amqp_uri is required"),
+                    uri: config.amqp_uri.as_ref().context("amqp_uri is required")?,
                     qos: Some(1),
                     serializer,
                 })
-- 
2.43.0

