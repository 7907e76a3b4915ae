//! `crossbeam-skiplist` with scheduling points before map operations. The map
//! itself is the real one.
pub use real::*;

pub use map::SkipMap;

pub mod map {
    use mcrt::{point, Kind::Skip as K};
    pub use real::map::{Entry, IntoIter};
    use std::{
        borrow::Borrow,
        fmt,
        ops::{Bound, RangeBounds},
    };

    pub struct SkipMap<Key, V>(real::SkipMap<Key, V>);

    impl<Key, V> SkipMap<Key, V> {
        pub fn new() -> Self {
            SkipMap(real::SkipMap::new())
        }
        pub fn is_empty(&self) -> bool {
            point(K);
            self.0.is_empty()
        }
        pub fn len(&self) -> usize {
            point(K);
            self.0.len()
        }
    }
    impl<Key: Ord, V> SkipMap<Key, V> {
        pub fn front(&self) -> Option<Entry<'_, Key, V>> {
            point(K);
            self.0.front()
        }
        pub fn back(&self) -> Option<Entry<'_, Key, V>> {
            point(K);
            self.0.back()
        }
        pub fn contains_key<Q>(&self, key: &Q) -> bool
        where
            Key: Borrow<Q>,
            Q: Ord + ?Sized,
        {
            point(K);
            self.0.contains_key(key)
        }
        pub fn get<Q>(&self, key: &Q) -> Option<Entry<'_, Key, V>>
        where
            Key: Borrow<Q>,
            Q: Ord + ?Sized,
        {
            point(K);
            self.0.get(key)
        }
        pub fn lower_bound<'a, Q>(&'a self, b: Bound<&Q>) -> Option<Entry<'a, Key, V>>
        where
            Key: Borrow<Q>,
            Q: Ord + ?Sized,
        {
            point(K);
            self.0.lower_bound(b)
        }
        pub fn upper_bound<'a, Q>(&'a self, b: Bound<&Q>) -> Option<Entry<'a, Key, V>>
        where
            Key: Borrow<Q>,
            Q: Ord + ?Sized,
        {
            point(K);
            self.0.upper_bound(b)
        }
        pub fn get_or_insert(&self, k: Key, v: V) -> Entry<'_, Key, V> {
            point(K);
            self.0.get_or_insert(k, v)
        }
        pub fn get_or_insert_with<F: FnOnce() -> V>(&self, k: Key, f: F) -> Entry<'_, Key, V> {
            point(K);
            self.0.get_or_insert_with(k, f)
        }
        pub fn iter(&self) -> Iter<'_, Key, V> {
            Iter(self.0.iter())
        }
        pub fn range<Q, R>(&self, range: R) -> Range<'_, Q, R, Key, V>
        where
            Key: Borrow<Q>,
            R: RangeBounds<Q>,
            Q: Ord + ?Sized,
        {
            Range(self.0.range(range))
        }
    }
    impl<Key: Ord + Send + 'static, V: Send + 'static> SkipMap<Key, V> {
        pub fn insert(&self, k: Key, v: V) -> Entry<'_, Key, V> {
            point(K);
            self.0.insert(k, v)
        }
        pub fn compare_insert<F: Fn(&V) -> bool>(&self, k: Key, v: V, f: F) -> Entry<'_, Key, V> {
            point(K);
            self.0.compare_insert(k, v, f)
        }
        pub fn remove<Q>(&self, key: &Q) -> Option<Entry<'_, Key, V>>
        where
            Key: Borrow<Q>,
            Q: Ord + ?Sized,
        {
            point(K);
            self.0.remove(key)
        }
        pub fn pop_front(&self) -> Option<Entry<'_, Key, V>> {
            point(K);
            self.0.pop_front()
        }
        pub fn pop_back(&self) -> Option<Entry<'_, Key, V>> {
            point(K);
            self.0.pop_back()
        }
        pub fn clear(&self) {
            point(K);
            self.0.clear()
        }
    }
    impl<Key, V> Default for SkipMap<Key, V> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<Key, V> fmt::Debug for SkipMap<Key, V> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.pad("SkipMap { .. }")
        }
    }
    impl<Key, V> IntoIterator for SkipMap<Key, V> {
        type Item = (Key, V);
        type IntoIter = IntoIter<Key, V>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.into_iter()
        }
    }
    impl<'a, Key: Ord, V> IntoIterator for &'a SkipMap<Key, V> {
        type Item = Entry<'a, Key, V>;
        type IntoIter = Iter<'a, Key, V>;
        fn into_iter(self) -> Iter<'a, Key, V> {
            self.iter()
        }
    }
    impl<Key: Ord, V> FromIterator<(Key, V)> for SkipMap<Key, V> {
        fn from_iter<I: IntoIterator<Item = (Key, V)>>(iter: I) -> Self {
            SkipMap(real::SkipMap::from_iter(iter))
        }
    }

    pub struct Iter<'a, Key, V>(real::map::Iter<'a, Key, V>);
    impl<'a, Key: Ord, V> Iterator for Iter<'a, Key, V> {
        type Item = Entry<'a, Key, V>;
        fn next(&mut self) -> Option<Self::Item> {
            point(K);
            self.0.next()
        }
    }
    impl<'a, Key: Ord, V> DoubleEndedIterator for Iter<'a, Key, V> {
        fn next_back(&mut self) -> Option<Self::Item> {
            point(K);
            self.0.next_back()
        }
    }

    pub struct Range<'a, Q, R, Key, V>(real::map::Range<'a, Q, R, Key, V>)
    where
        Key: Ord + Borrow<Q>,
        R: RangeBounds<Q>,
        Q: Ord + ?Sized;
    impl<'a, Q, R, Key, V> Iterator for Range<'a, Q, R, Key, V>
    where
        Key: Ord + Borrow<Q>,
        R: RangeBounds<Q>,
        Q: Ord + ?Sized,
    {
        type Item = Entry<'a, Key, V>;
        fn next(&mut self) -> Option<Self::Item> {
            point(K);
            self.0.next()
        }
    }
    impl<'a, Q, R, Key, V> DoubleEndedIterator for Range<'a, Q, R, Key, V>
    where
        Key: Ord + Borrow<Q>,
        R: RangeBounds<Q>,
        Q: Ord + ?Sized,
    {
        fn next_back(&mut self) -> Option<Self::Item> {
            point(K);
            self.0.next_back()
        }
    }
}
