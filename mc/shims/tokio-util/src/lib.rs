//! `tokio-util` with scheduling points before semaphore operations.
pub use real::*;

pub mod sync {
    use futures_core::Stream;
    use mcrt::{point, Kind::Sem as K};
    pub use real::sync::*;
    use std::{
        fmt,
        pin::Pin,
        sync::Arc,
        task::{Context, Poll},
    };
    use tokio::sync::{OwnedSemaphorePermit, Semaphore};

    pub struct PollSemaphore(real::sync::PollSemaphore);
    impl PollSemaphore {
        pub fn new(s: Arc<Semaphore>) -> Self {
            PollSemaphore(real::sync::PollSemaphore::new(s.__real()))
        }
        pub fn close(&self) {
            point(K);
            self.0.close()
        }
        pub fn clone_inner(&self) -> Arc<Semaphore> {
            Semaphore::__wrap(self.0.clone_inner())
        }
        pub fn into_inner(self) -> Arc<Semaphore> {
            Semaphore::__wrap(self.0.into_inner())
        }
        pub fn poll_acquire(&mut self, cx: &mut Context<'_>) -> Poll<Option<OwnedSemaphorePermit>> {
            point(K);
            self.0.poll_acquire(cx)
        }
        pub fn poll_acquire_many(
            &mut self,
            cx: &mut Context<'_>,
            n: u32,
        ) -> Poll<Option<OwnedSemaphorePermit>> {
            point(K);
            self.0.poll_acquire_many(cx, n)
        }
        pub fn available_permits(&self) -> usize {
            point(K);
            self.0.available_permits()
        }
        pub fn add_permits(&self, n: usize) {
            point(K);
            self.0.add_permits(n)
        }
    }
    impl Stream for PollSemaphore {
        type Item = OwnedSemaphorePermit;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Pin::into_inner(self).poll_acquire(cx)
        }
    }
    impl Clone for PollSemaphore {
        fn clone(&self) -> Self {
            PollSemaphore(self.0.clone())
        }
    }
    impl fmt::Debug for PollSemaphore {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl AsRef<Semaphore> for PollSemaphore {
        fn as_ref(&self) -> &Semaphore {
            Semaphore::__wrap_ref(self.0.as_ref())
        }
    }
}
