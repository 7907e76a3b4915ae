//! `crossbeam` with scheduling points before the operations of its shared
//! types. The operations themselves are the real ones.
pub use real::*;

pub mod atomic {
    use mcrt::{point, Kind::Cell as K};
    pub use real::atomic::*;

    pub struct AtomicCell<T>(real::atomic::AtomicCell<T>);
    impl<T> AtomicCell<T> {
        pub const fn new(v: T) -> Self {
            AtomicCell(real::atomic::AtomicCell::new(v))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
        pub const fn is_lock_free() -> bool {
            real::atomic::AtomicCell::<T>::is_lock_free()
        }
        pub fn store(&self, v: T) {
            point(K);
            self.0.store(v)
        }
        pub fn swap(&self, v: T) -> T {
            point(K);
            self.0.swap(v)
        }
        /// A point before the address is taken: what is behind it can change
        /// until it is read.
        pub fn as_ptr(&self) -> *mut T {
            point(K);
            self.0.as_ptr()
        }
    }
    impl<T: Default> AtomicCell<T> {
        pub fn take(&self) -> T {
            point(K);
            self.0.take()
        }
    }
    impl<T: Copy> AtomicCell<T> {
        pub fn load(&self) -> T {
            point(K);
            self.0.load()
        }
    }
    impl<T: Copy + Eq> AtomicCell<T> {
        #[allow(deprecated)]
        pub fn compare_and_swap(&self, a: T, b: T) -> T {
            point(K);
            self.0.compare_and_swap(a, b)
        }
        pub fn compare_exchange(&self, a: T, b: T) -> Result<T, T> {
            point(K);
            self.0.compare_exchange(a, b)
        }
        pub fn fetch_update<F: FnMut(T) -> Option<T>>(&self, mut f: F) -> Result<T, T> {
            let mut cur = self.load();
            while let Some(n) = f(cur) {
                match self.compare_exchange(cur, n) {
                    Ok(v) => return Ok(v),
                    Err(v) => cur = v,
                }
            }
            Err(cur)
        }
    }
    macro_rules! arith {
        ($($t:ty)*) => {$(
            impl AtomicCell<$t> {
                arith!(@ $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
            }
        )*};
        (@ $t:ty, $($f:ident)*) => {$(
            pub fn $f(&self, v: $t) -> $t { point(K); self.0.$f(v) }
        )*};
    }
    arith!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
    impl AtomicCell<bool> {
        arith!(@ bool, fetch_and fetch_nand fetch_or fetch_xor);
    }
    impl<T: Default> Default for AtomicCell<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for AtomicCell<T> {
        fn from(v: T) -> Self {
            Self::new(v)
        }
    }
    impl<T: Copy + std::fmt::Debug> std::fmt::Debug for AtomicCell<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
}

pub mod queue {
    use mcrt::{point, Kind::Queue as K};
    #[allow(unused_imports)]
    pub use real::queue::*;

    pub struct SegQueue<T>(real::queue::SegQueue<T>);
    impl<T> SegQueue<T> {
        pub const fn new() -> Self {
            SegQueue(real::queue::SegQueue::new())
        }
        pub fn push(&self, v: T) {
            point(K);
            self.0.push(v)
        }
        pub fn pop(&self) -> Option<T> {
            point(K);
            self.0.pop()
        }
        pub fn is_empty(&self) -> bool {
            point(K);
            self.0.is_empty()
        }
        pub fn len(&self) -> usize {
            point(K);
            self.0.len()
        }
    }
    impl<T> Default for SegQueue<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> std::fmt::Debug for SegQueue<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("SegQueue { .. }")
        }
    }
    impl<T> IntoIterator for SegQueue<T> {
        type Item = T;
        type IntoIter = <real::queue::SegQueue<T> as IntoIterator>::IntoIter;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }

    pub struct ArrayQueue<T>(real::queue::ArrayQueue<T>);
    impl<T> ArrayQueue<T> {
        pub fn new(n: usize) -> Self {
            ArrayQueue(real::queue::ArrayQueue::new(n))
        }
        pub fn push(&self, v: T) -> Result<(), T> {
            point(K);
            self.0.push(v)
        }
        pub fn force_push(&self, v: T) -> Option<T> {
            point(K);
            self.0.force_push(v)
        }
        pub fn pop(&self) -> Option<T> {
            point(K);
            self.0.pop()
        }
        pub fn capacity(&self) -> usize {
            self.0.capacity()
        }
        pub fn is_empty(&self) -> bool {
            point(K);
            self.0.is_empty()
        }
        pub fn is_full(&self) -> bool {
            point(K);
            self.0.is_full()
        }
        pub fn len(&self) -> usize {
            point(K);
            self.0.len()
        }
    }
    impl<T> std::fmt::Debug for ArrayQueue<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.pad("ArrayQueue { .. }")
        }
    }
    impl<T> IntoIterator for ArrayQueue<T> {
        type Item = T;
        type IntoIter = <real::queue::ArrayQueue<T> as IntoIterator>::IntoIter;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
}
