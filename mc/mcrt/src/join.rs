//! Handles of spawned tasks.
use std::{
    any::Any,
    fmt,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use crate::{cancel, new_res, notify_res, spawn_async, spawn_sync, wait_res, ResId, TaskId};

pub enum Repr {
    Cancelled,
    Panic(Mutex<Box<dyn Any + Send + 'static>>),
}

pub struct JoinError {
    repr: Repr,
}

impl JoinError {
    pub fn cancelled() -> Self {
        JoinError {
            repr: Repr::Cancelled,
        }
    }
    pub fn panic(p: Box<dyn Any + Send>) -> Self {
        JoinError {
            repr: Repr::Panic(Mutex::new(p)),
        }
    }
    pub fn is_cancelled(&self) -> bool {
        matches!(self.repr, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.repr, Repr::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        match self.repr {
            Repr::Panic(p) => p.into_inner().unwrap(),
            _ => panic!("task did not panic"),
        }
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
        match self.repr {
            Repr::Panic(p) => Ok(p.into_inner().unwrap()),
            r => Err(JoinError { repr: r }),
        }
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "task was cancelled"),
            Repr::Panic(p) => write!(
                f,
                "task panicked with message {:?}",
                crate::panic_message(&**p.lock().unwrap())
            ),
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "JoinError::Cancelled"),
            Repr::Panic(_) => write!(f, "JoinError::Panic(..)"),
        }
    }
}
impl std::error::Error for JoinError {}

struct Slot<T> {
    value: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    slot: Arc<Mutex<Slot<T>>>,
    task: TaskId,
    res: ResId,
}

#[derive(Clone, Debug)]
pub struct AbortHandle {
    task: TaskId,
}
impl AbortHandle {
    pub fn abort(&self) {
        cancel(self.task)
    }
    pub fn is_finished(&self) -> bool {
        crate::is_done(self.task)
    }
}

impl<T> Unpin for JoinHandle<T> {}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}

impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.task)
    }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        cancel(self.task)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { task: self.task }
    }
    pub fn is_finished(&self) -> bool {
        self.slot.lock().unwrap().done
    }
    pub fn task_id(&self) -> TaskId {
        self.task
    }
    /// Blocks the calling coroutine until the task is finished.
    pub fn join_blocking(self) -> Result<T, JoinError> {
        loop {
            if let Some(v) = self.slot.lock().unwrap().value.take() {
                return v;
            }
            wait_res(self.res);
        }
    }
    pub fn try_take(&self) -> Option<Result<T, JoinError>> {
        self.slot.lock().unwrap().value.take()
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.lock().unwrap();
        if let Some(v) = s.value.take() {
            return Poll::Ready(v);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

fn slot<T>() -> Arc<Mutex<Slot<T>>> {
    Arc::new(Mutex::new(Slot {
        value: None,
        done: false,
        waker: None,
    }))
}

fn complete<T>(slot: &Mutex<Slot<T>>, res: ResId, v: Result<T, JoinError>) {
    let w = {
        let mut s = slot.lock().unwrap();
        s.value = Some(v);
        s.done = true;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
    notify_res(res);
}

/// Spawns an async task.
pub fn task<F>(name: &str, fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot = slot();
    let res = new_res();
    let s2 = slot.clone();
    let task = spawn_async(name, fut, move |r| {
        let v = match r {
            None => Err(JoinError::cancelled()),
            Some(Ok(v)) => Ok(v),
            Some(Err(p)) => Err(JoinError::panic(p)),
        };
        complete(&s2, res, v);
    });
    JoinHandle { slot, task, res }
}

/// Spawns a thread-like coroutine.
pub fn thread<T: 'static>(name: &str, f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
    let slot = slot();
    let res = new_res();
    let s2 = slot.clone();
    let task = spawn_sync(name, move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let v = match r {
            Ok(v) => Ok(v),
            Err(p) => {
                if p.downcast_ref::<crate::KillToken>().is_some() {
                    std::panic::resume_unwind(p);
                }
                crate::record_panic(crate::panic_message(&*p));
                Err(JoinError::panic(p))
            }
        };
        complete(&s2, res, v);
    });
    JoinHandle { slot, task, res }
}
