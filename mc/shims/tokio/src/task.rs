use std::{
    any::Any,
    fmt,
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};

pub use real::task::*;

pub enum JoinError {
    Real(real::task::JoinError),
    Virt(mcrt::JoinError),
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        match self {
            JoinError::Real(e) => e.is_cancelled(),
            JoinError::Virt(e) => e.is_cancelled(),
        }
    }
    pub fn is_panic(&self) -> bool {
        match self {
            JoinError::Real(e) => e.is_panic(),
            JoinError::Virt(e) => e.is_panic(),
        }
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        match self {
            JoinError::Real(e) => e.into_panic(),
            JoinError::Virt(e) => e.into_panic(),
        }
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self {
            JoinError::Real(e) => e.try_into_panic().map_err(JoinError::Real),
            JoinError::Virt(e) => e.try_into_panic().map_err(JoinError::Virt),
        }
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JoinError::Real(e) => fmt::Display::fmt(e, f),
            JoinError::Virt(e) => fmt::Display::fmt(e, f),
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JoinError::Real(e) => fmt::Debug::fmt(e, f),
            JoinError::Virt(e) => fmt::Debug::fmt(e, f),
        }
    }
}
impl std::error::Error for JoinError {}

#[derive(Debug)]
pub enum JoinHandle<T> {
    Real(real::task::JoinHandle<T>),
    Virt(mcrt::JoinHandle<T>),
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        match self {
            JoinHandle::Real(h) => h.abort(),
            JoinHandle::Virt(h) => h.abort(),
        }
    }
    pub fn abort_handle(&self) -> AbortHandle {
        match self {
            JoinHandle::Real(h) => AbortHandle::Real(h.abort_handle()),
            JoinHandle::Virt(h) => AbortHandle::Virt(h.abort_handle()),
        }
    }
    pub fn is_finished(&self) -> bool {
        match self {
            JoinHandle::Real(h) => h.is_finished(),
            JoinHandle::Virt(h) => h.is_finished(),
        }
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.get_mut() {
            JoinHandle::Real(h) => Pin::new(h).poll(cx).map_err(JoinError::Real),
            JoinHandle::Virt(h) => Pin::new(h).poll(cx).map_err(JoinError::Virt),
        }
    }
}

#[derive(Debug, Clone)]
pub enum AbortHandle {
    Real(real::task::AbortHandle),
    Virt(mcrt::AbortHandle),
}
impl AbortHandle {
    pub fn abort(&self) {
        match self {
            AbortHandle::Real(h) => h.abort(),
            AbortHandle::Virt(h) => h.abort(),
        }
    }
    pub fn is_finished(&self) -> bool {
        match self {
            AbortHandle::Real(h) => h.is_finished(),
            AbortHandle::Virt(h) => h.is_finished(),
        }
    }
}

pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    if mcrt::active() {
        JoinHandle::Virt(mcrt::task("task", future))
    } else {
        JoinHandle::Real(real::task::spawn(future))
    }
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    if mcrt::active() {
        JoinHandle::Virt(mcrt::thread("blocking", f))
    } else {
        JoinHandle::Real(real::task::spawn_blocking(f))
    }
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    if mcrt::active() {
        f()
    } else {
        real::task::block_in_place(f)
    }
}

pub async fn yield_now() {
    if mcrt::active() {
        let mut yielded = false;
        std::future::poll_fn(|cx| {
            if yielded {
                return Poll::Ready(());
            }
            yielded = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        })
        .await
    } else {
        real::task::yield_now().await
    }
}

/// A set of spawned tasks; results come back in completion order.
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet {
            handles: Vec::new(),
        }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn spawn<F>(&mut self, task: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(task);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send,
    {
        let h = spawn_blocking(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.handles.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.handles.len() {
                if let Poll::Ready(v) = Pin::new(&mut self.handles[i]).poll(cx) {
                    self.handles.remove(i);
                    return Poll::Ready(Some(v));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
    pub fn detach_all(&mut self) {
        self.handles.clear();
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        JoinSet::new()
    }
}
