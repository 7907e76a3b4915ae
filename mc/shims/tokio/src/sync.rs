use mcrt::{point, Kind::Chan as K};
pub use real::sync::*;

/// `Notify` with scheduling points.
#[derive(Debug, Default)]
pub struct Notify(real::sync::Notify);
impl Notify {
    pub const fn const_new() -> Self {
        Notify(real::sync::Notify::const_new())
    }
    pub fn new() -> Self {
        Notify(real::sync::Notify::new())
    }
    pub fn notified(&self) -> real::sync::futures::Notified<'_> {
        point(K);
        self.0.notified()
    }
    pub fn notify_one(&self) {
        point(K);
        self.0.notify_one()
    }
    pub fn notify_last(&self) {
        point(K);
        self.0.notify_last()
    }
    pub fn notify_waiters(&self) {
        point(K);
        self.0.notify_waiters()
    }
}

pub mod watch {
    use super::{point, K};
    pub use real::sync::watch::{error, Ref};
    use real::sync::watch as w;

    #[derive(Debug)]
    pub struct Sender<T>(w::Sender<T>);
    #[derive(Debug)]
    pub struct Receiver<T>(w::Receiver<T>);

    pub fn channel<T>(init: T) -> (Sender<T>, Receiver<T>) {
        let (a, b) = w::channel(init);
        (Sender(a), Receiver(b))
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            point(K);
            Receiver(self.0.clone())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            Sender(self.0.clone())
        }
    }
    impl<T: Default> Default for Sender<T> {
        fn default() -> Self {
            Sender(w::Sender::default())
        }
    }
    impl<T> Sender<T> {
        pub fn new(init: T) -> Self {
            Sender(w::Sender::new(init))
        }
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            point(K);
            self.0.send(v)
        }
        pub fn send_modify<F: FnOnce(&mut T)>(&self, f: F) {
            point(K);
            self.0.send_modify(f)
        }
        pub fn send_if_modified<F: FnOnce(&mut T) -> bool>(&self, f: F) -> bool {
            point(K);
            self.0.send_if_modified(f)
        }
        pub fn send_replace(&self, v: T) -> T {
            point(K);
            self.0.send_replace(v)
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            point(K);
            self.0.borrow()
        }
        pub fn is_closed(&self) -> bool {
            point(K);
            self.0.is_closed()
        }
        pub async fn closed(&self) {
            self.0.closed().await
        }
        pub fn subscribe(&self) -> Receiver<T> {
            point(K);
            Receiver(self.0.subscribe())
        }
        pub fn receiver_count(&self) -> usize {
            point(K);
            self.0.receiver_count()
        }
    }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            point(K);
            self.0.borrow()
        }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
            point(K);
            self.0.borrow_and_update()
        }
        pub fn has_changed(&self) -> Result<bool, error::RecvError> {
            point(K);
            self.0.has_changed()
        }
        pub fn mark_changed(&mut self) {
            self.0.mark_changed()
        }
        pub fn mark_unchanged(&mut self) {
            self.0.mark_unchanged()
        }
        pub async fn changed(&mut self) -> Result<(), error::RecvError> {
            point(K);
            self.0.changed().await
        }
        pub async fn wait_for(
            &mut self,
            f: impl FnMut(&T) -> bool,
        ) -> Result<Ref<'_, T>, error::RecvError> {
            point(K);
            self.0.wait_for(f).await
        }
        pub fn same_channel(&self, o: &Self) -> bool {
            self.0.same_channel(&o.0)
        }
    }
}

/// The same allocation as an `Arc` of the wrapped type, which has the same layout.
macro_rules! unwrap_arc {
    ($s:expr, $t:ty) => {
        unsafe { std::sync::Arc::from_raw(std::sync::Arc::into_raw($s) as *const $t) }
    };
}

/// `Semaphore` with scheduling points.
#[derive(Debug)]
#[repr(transparent)]
pub struct Semaphore(real::sync::Semaphore);
impl std::ops::Deref for Semaphore {
    type Target = real::sync::Semaphore;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl Semaphore {
    pub const MAX_PERMITS: usize = real::sync::Semaphore::MAX_PERMITS;
    pub fn new(n: usize) -> Self {
        Semaphore(real::sync::Semaphore::new(n))
    }
    pub const fn const_new(n: usize) -> Self {
        Semaphore(real::sync::Semaphore::const_new(n))
    }
    #[doc(hidden)]
    pub fn __real(self: std::sync::Arc<Self>) -> std::sync::Arc<real::sync::Semaphore> {
        unwrap_arc!(self, real::sync::Semaphore)
    }
    #[doc(hidden)]
    pub fn __wrap(s: std::sync::Arc<real::sync::Semaphore>) -> std::sync::Arc<Self> {
        unwrap_arc!(s, Semaphore)
    }
    #[doc(hidden)]
    pub fn __wrap_ref(s: &real::sync::Semaphore) -> &Self {
        unsafe { &*(s as *const _ as *const Self) }
    }
    pub fn available_permits(&self) -> usize {
        point(K);
        self.0.available_permits()
    }
    pub fn add_permits(&self, n: usize) {
        point(K);
        self.0.add_permits(n)
    }
    pub fn forget_permits(&self, n: usize) -> usize {
        point(K);
        self.0.forget_permits(n)
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        point(K);
        self.0.acquire().await
    }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> {
        point(K);
        self.0.acquire_many(n).await
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        point(K);
        self.0.try_acquire()
    }
    pub fn try_acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        point(K);
        self.0.try_acquire_many(n)
    }
    pub async fn acquire_owned(self: std::sync::Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        point(K);
        self.__real().acquire_owned().await
    }
    pub async fn acquire_many_owned(self: std::sync::Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, AcquireError> {
        point(K);
        self.__real().acquire_many_owned(n).await
    }
    pub fn try_acquire_owned(self: std::sync::Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        point(K);
        self.__real().try_acquire_owned()
    }
    pub fn try_acquire_many_owned(self: std::sync::Arc<Self>, n: u32) -> Result<OwnedSemaphorePermit, TryAcquireError> {
        point(K);
        self.__real().try_acquire_many_owned(n)
    }
    pub fn close(&self) {
        point(K);
        self.0.close()
    }
    pub fn is_closed(&self) -> bool {
        point(K);
        self.0.is_closed()
    }
}

/// `Mutex` with scheduling points.
#[derive(Debug, Default)]
#[repr(transparent)]
pub struct Mutex<T: ?Sized>(real::sync::Mutex<T>);
impl<T> Mutex<T> {
    pub fn new(v: T) -> Self {
        Mutex(real::sync::Mutex::new(v))
    }
    pub const fn const_new(v: T) -> Self {
        Mutex(real::sync::Mutex::const_new(v))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
    pub async fn lock_owned(self: std::sync::Arc<Self>) -> OwnedMutexGuard<T> {
        point(K);
        unwrap_arc!(self, real::sync::Mutex<T>).lock_owned().await
    }
    pub fn try_lock_owned(self: std::sync::Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
        point(K);
        unwrap_arc!(self, real::sync::Mutex<T>).try_lock_owned()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        point(K);
        self.0.lock().await
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        point(K);
        self.0.try_lock()
    }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
        if !mcrt::active() {
            return self.0.blocking_lock();
        }
        mcrt::block_on(self.lock())
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}

/// `RwLock` with scheduling points.
#[derive(Debug, Default)]
#[repr(transparent)]
pub struct RwLock<T: ?Sized>(real::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub fn new(v: T) -> Self {
        RwLock(real::sync::RwLock::new(v))
    }
    pub const fn const_new(v: T) -> Self {
        RwLock(real::sync::RwLock::const_new(v))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
    pub async fn read_owned(self: std::sync::Arc<Self>) -> OwnedRwLockReadGuard<T> {
        point(K);
        unwrap_arc!(self, real::sync::RwLock<T>).read_owned().await
    }
    pub async fn write_owned(self: std::sync::Arc<Self>) -> OwnedRwLockWriteGuard<T> {
        point(K);
        unwrap_arc!(self, real::sync::RwLock<T>).write_owned().await
    }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        point(K);
        self.0.read().await
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        point(K);
        self.0.write().await
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        point(K);
        self.0.try_read()
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        point(K);
        self.0.try_write()
    }
    pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
        if !mcrt::active() {
            return self.0.blocking_read();
        }
        mcrt::block_on(self.read())
    }
    pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
        if !mcrt::active() {
            return self.0.blocking_write();
        }
        mcrt::block_on(self.write())
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}

pub mod mpsc {
    use super::{point, K};
    pub use real::sync::mpsc::{error, OwnedPermit, Permit, PermitIterator, WeakSender, WeakUnboundedSender};
    use real::sync::mpsc as m;
    use std::{
        ops::{Deref, DerefMut},
        task::{Context, Poll},
    };
    macro_rules! wraps {
        ($($n:ident)*) => {$(
            #[derive(Debug)]
            pub struct $n<T>(m::$n<T>);
            impl<T> Deref for $n<T> {
                type Target = m::$n<T>;
                fn deref(&self) -> &Self::Target {
                    &self.0
                }
            }
            impl<T> DerefMut for $n<T> {
                fn deref_mut(&mut self) -> &mut Self::Target {
                    &mut self.0
                }
            }
        )*};
    }
    wraps!(Sender UnboundedSender Receiver UnboundedReceiver);
    macro_rules! clones {
        ($($n:ident)*) => {$(
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    $n(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    point(K);
                }
            }
        )*};
    }
    clones!(Sender UnboundedSender);
    macro_rules! receives {
        ($($n:ident)*) => {$(
            impl<T> $n<T> {
                pub async fn recv(&mut self) -> Option<T> {
                    point(K);
                    self.0.recv().await
                }
                pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                    point(K);
                    self.0.try_recv()
                }
                pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                    point(K);
                    self.0.poll_recv(cx)
                }
                pub fn close(&mut self) {
                    point(K);
                    self.0.close()
                }
            }
        )*};
    }
    receives!(Receiver UnboundedReceiver);
    impl<T> Sender<T> {
        pub async fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            point(K);
            self.0.send(v).await
        }
        pub fn try_send(&self, v: T) -> Result<(), error::TrySendError<T>> {
            point(K);
            self.0.try_send(v)
        }
        pub fn same_channel(&self, o: &Self) -> bool {
            self.0.same_channel(&o.0)
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            point(K);
            self.0.send(v)
        }
        pub fn same_channel(&self, o: &Self) -> bool {
            self.0.same_channel(&o.0)
        }
    }
    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
        let (s, r) = m::channel(n);
        (Sender(s), Receiver(r))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let (s, r) = m::unbounded_channel();
        (UnboundedSender(s), UnboundedReceiver(r))
    }
}
