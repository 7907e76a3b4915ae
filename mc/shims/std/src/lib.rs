//! `std` with scheduling points in its synchronization primitives and virtual
//! time. Everything not overridden here is the real `std`.
#![no_std]
#![allow(clippy::all)]
extern crate std as real_std;

pub use real_std::*;

pub mod time {
    pub use mcrt::Instant;
    pub use real_std::time::*;
}

pub mod thread {
    pub use real_std::thread::*;
    use real_std::prelude::v1::*;
    pub type Result<T> = real_std::thread::Result<T>;
    use real_std::time::Duration;

    pub struct JoinHandle<T>(Inner<T>);
    enum Inner<T> {
        Real(real_std::thread::JoinHandle<T>),
        Virt(mcrt::JoinHandle<T>),
    }
    impl<T> JoinHandle<T> {
        pub fn join(self) -> real_std::thread::Result<T> {
            match self.0 {
                Inner::Real(h) => h.join(),
                Inner::Virt(h) => h.join_blocking().map_err(|e| e.into_panic()),
            }
        }
        pub fn is_finished(&self) -> bool {
            match &self.0 {
                Inner::Real(h) => h.is_finished(),
                Inner::Virt(h) => h.is_finished(),
            }
        }
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if mcrt::active() {
            JoinHandle(Inner::Virt(mcrt::thread("thread", f)))
        } else {
            JoinHandle(Inner::Real(real_std::thread::spawn(f)))
        }
    }
    pub fn sleep(d: Duration) {
        if mcrt::active() {
            mcrt::sleep_ns(d.as_nanos() as u64)
        } else {
            real_std::thread::sleep(d)
        }
    }
    pub fn yield_now() {
        if mcrt::active() {
            mcrt::yield_point()
        } else {
            real_std::thread::yield_now()
        }
    }
}

pub mod hint {
    pub use real_std::hint::*;
    pub fn spin_loop() {
        if mcrt::active() {
            mcrt::yield_point()
        } else {
            real_std::hint::spin_loop()
        }
    }
}

pub mod sync {
    pub use real_std::sync::*;

    pub mod atomic {
        use mcrt::{point, Kind::Atomic as A};
        pub use real_std::sync::atomic::*;
        use real_std::{fmt, prelude::v1::*};

        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[repr(transparent)]
                #[derive(Default)]
                pub struct $name(real_std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name(real_std::sync::atomic::$name::new(v))
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point(A);
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        point(A);
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point(A);
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(
                        &self,
                        a: $t,
                        b: $t,
                        o: Ordering,
                        p: Ordering,
                    ) -> Result<$t, $t> {
                        point(A);
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(
                        &self,
                        a: $t,
                        b: $t,
                        o: Ordering,
                        p: Ordering,
                    ) -> Result<$t, $t> {
                        point(A);
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                        &self,
                        set: Ordering,
                        fetch: Ordering,
                        mut f: F,
                    ) -> Result<$t, $t> {
                        let mut prev = self.load(fetch);
                        while let Some(next) = f(prev) {
                            match self.compare_exchange_weak(prev, next, set, fetch) {
                                Ok(x) => return Ok(x),
                                Err(p) => prev = p,
                            }
                        }
                        Err(prev)
                    }
                    pub fn as_ptr(&self) -> *mut $t {
                        self.0.as_ptr()
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty),*) => {$(
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_sub(v, o) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_and(v, o) }
                    pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_nand(v, o) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_or(v, o) }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_xor(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(A); self.0.fetch_min(v, o) }
                }
            )*};
        }
        int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
             AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
        common!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                point(A);
                self.0.fetch_and(v, o)
            }
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
                point(A);
                self.0.fetch_nand(v, o)
            }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                point(A);
                self.0.fetch_or(v, o)
            }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
                point(A);
                self.0.fetch_xor(v, o)
            }
            pub fn fetch_not(&self, o: Ordering) -> bool {
                self.fetch_xor(true, o)
            }
        }
    }

    use mcrt::{notify_res, point, wait_res, Kind, ResId};
    use real_std::{
        cell::Cell,
        fmt,
        ops::{Deref, DerefMut},
        prelude::v1::*,
        time::Duration,
    };

    /// Resource id, allocated per execution on first contention.
    #[derive(Default)]
    pub(crate) struct Res(real_std::sync::atomic::AtomicU64);
    impl Res {
        pub(crate) const fn new() -> Self {
            Res(real_std::sync::atomic::AtomicU64::new(0))
        }
        fn get(&self) -> ResId {
            let o = real_std::sync::atomic::Ordering::Relaxed;
            let v = self.0.load(o);
            if v != 0 {
                return v;
            }
            let n = mcrt::new_res();
            self.0.store(n, o);
            n
        }
    }

    pub struct Mutex<T: ?Sized> {
        res: Res,
        m: real_std::sync::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        g: Option<real_std::sync::MutexGuard<'a, T>>,
        lock: &'a Mutex<T>,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Mutex {
                res: Res::new(),
                m: real_std::sync::Mutex::new(t),
            }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.m.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            point(Kind::Lock);
            loop {
                if !mcrt::active() {
                    return match self.m.lock() {
                        Ok(g) => Ok(MutexGuard { g: Some(g), lock: self }),
                        Err(p) => Err(PoisonError::new(MutexGuard {
                            g: Some(p.into_inner()),
                            lock: self,
                        })),
                    };
                }
                match self.m.try_lock() {
                    Ok(g) => return Ok(MutexGuard { g: Some(g), lock: self }),
                    Err(TryLockError::Poisoned(p)) => {
                        return Err(PoisonError::new(MutexGuard {
                            g: Some(p.into_inner()),
                            lock: self,
                        }))
                    }
                    Err(TryLockError::WouldBlock) => wait_res(self.res.get()),
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point(Kind::Lock);
            match self.m.try_lock() {
                Ok(g) => Ok(MutexGuard { g: Some(g), lock: self }),
                Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new(
                    MutexGuard {
                        g: Some(p.into_inner()),
                        lock: self,
                    },
                ))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.m.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.m.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.m.get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.m.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            notify_res(self.lock.res.get_if());
        }
    }
    impl Res {
        pub(crate) fn get_if(&self) -> ResId {
            self.0.load(real_std::sync::atomic::Ordering::Relaxed)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }

    pub struct RwLock<T: ?Sized> {
        res: Res,
        m: real_std::sync::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        g: Option<real_std::sync::RwLockReadGuard<'a, T>>,
        lock: &'a RwLock<T>,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: Option<real_std::sync::RwLockWriteGuard<'a, T>>,
        lock: &'a RwLock<T>,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            RwLock {
                res: Res::new(),
                m: real_std::sync::RwLock::new(t),
            }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.m.into_inner()
        }
    }
    macro_rules! rw {
        ($lock:ident, $try:ident, $guard:ident) => {
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                point(Kind::Lock);
                loop {
                    if !mcrt::active() {
                        return match self.m.$lock() {
                            Ok(g) => Ok($guard { g: Some(g), lock: self }),
                            Err(p) => Err(PoisonError::new($guard {
                                g: Some(p.into_inner()),
                                lock: self,
                            })),
                        };
                    }
                    match self.m.$try() {
                        Ok(g) => return Ok($guard { g: Some(g), lock: self }),
                        Err(TryLockError::Poisoned(p)) => {
                            return Err(PoisonError::new($guard {
                                g: Some(p.into_inner()),
                                lock: self,
                            }))
                        }
                        Err(TryLockError::WouldBlock) => wait_res(self.res.get()),
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                point(Kind::Lock);
                match self.m.$try() {
                    Ok(g) => Ok($guard { g: Some(g), lock: self }),
                    Err(TryLockError::Poisoned(p)) => {
                        Err(TryLockError::Poisoned(PoisonError::new($guard {
                            g: Some(p.into_inner()),
                            lock: self,
                        })))
                    }
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                }
            }
        };
    }
    impl<T: ?Sized> RwLock<T> {
        rw!(read, try_read, RwLockReadGuard);
        rw!(write, try_write, RwLockWriteGuard);
        pub fn is_poisoned(&self) -> bool {
            self.m.is_poisoned()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.m.get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.m.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            notify_res(self.lock.res.get_if());
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            notify_res(self.lock.res.get_if());
        }
    }

    /// A condition variable whose waits may be woken spuriously.
    pub struct Condvar {
        res: Res,
        c: real_std::sync::Condvar,
        gen: real_std::sync::atomic::AtomicU64,
    }
    pub struct CvTimeout(bool);
    impl CvTimeout {
        pub fn timed_out(&self) -> bool {
            self.0
        }
    }
    impl Condvar {
        pub const fn new() -> Self {
            Condvar {
                res: Res::new(),
                c: real_std::sync::Condvar::new(),
                gen: real_std::sync::atomic::AtomicU64::new(0),
            }
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let lock = g.lock;
            if mcrt::active() {
                drop(g);
                wait_res(self.res.get());
                lock.lock()
            } else {
                let mut g = g;
                let inner = g.g.take().unwrap();
                real_std::mem::forget(g);
                match self.c.wait(inner) {
                    Ok(i) => Ok(MutexGuard { g: Some(i), lock }),
                    Err(p) => Err(PoisonError::new(MutexGuard {
                        g: Some(p.into_inner()),
                        lock,
                    })),
                }
            }
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut f: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            point(Kind::Lock);
            let _ = &self.gen;
            notify_res(self.res.get_if());
            self.c.notify_one()
        }
        pub fn notify_all(&self) {
            point(Kind::Lock);
            notify_res(self.res.get_if());
            self.c.notify_all()
        }
    }
    impl Default for Condvar {
        fn default() -> Self {
            Condvar::new()
        }
    }
    impl fmt::Debug for Condvar {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Condvar")
        }
    }
    #[allow(dead_code)]
    fn _unused(_: Cell<Duration>) {}
}
