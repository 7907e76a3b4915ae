//! `dashmap` with a scheduling point at every shard lock.
//!
//! Same locking structure as the real map (an entry holds its shard exclusively,
//! references and iterators share it, an iterator holds one shard at a time),
//! with few shards so that keys collide.
#![allow(clippy::all)]
use std::{
    borrow::Borrow,
    cell::UnsafeCell,
    collections::hash_map::RandomState,
    fmt,
    hash::{BuildHasher, Hash, Hasher},
    marker::PhantomData,
    ops::{Deref, DerefMut},
    sync::{
        atomic::{AtomicIsize, AtomicU64, Ordering::SeqCst},
        Arc,
    },
};

use mcrt::{notify_res, point, wait_res, Kind};

pub mod mapref {
    pub mod entry {
        pub use crate::{Entry, OccupiedEntry, VacantEntry};
    }
    pub mod one {
        pub use crate::{Ref, RefMut};
    }
    pub mod multiple {
        pub use crate::{RefMulti, RefMutMulti};
    }
}
pub mod iter {
    pub use crate::{Iter, IterMut, OwningIter};
}
pub mod try_result {
    pub use crate::TryResult;
}

struct Shard<K, V> {
    state: AtomicIsize,
    res: AtomicU64,
    data: UnsafeCell<Vec<(K, V)>>,
}

impl<K, V> Shard<K, V> {
    fn new() -> Self {
        Shard {
            state: AtomicIsize::new(0),
            res: AtomicU64::new(0),
            data: UnsafeCell::new(Vec::new()),
        }
    }
    fn res(&self) -> u64 {
        let v = self.res.load(SeqCst);
        if v != 0 {
            return v;
        }
        let n = mcrt::new_res();
        self.res.store(n, SeqCst);
        n
    }
    fn wait(&self) {
        if mcrt::active() {
            wait_res(self.res())
        } else {
            std::thread::yield_now()
        }
    }
    fn lock_shared(&self) {
        point(Kind::Map);
        loop {
            let s = self.state.load(SeqCst);
            if s >= 0 && self.state.compare_exchange(s, s + 1, SeqCst, SeqCst).is_ok() {
                return;
            }
            self.wait();
        }
    }
    fn try_lock_shared(&self) -> bool {
        point(Kind::Map);
        let s = self.state.load(SeqCst);
        s >= 0 && self.state.compare_exchange(s, s + 1, SeqCst, SeqCst).is_ok()
    }
    fn lock_exclusive(&self) {
        point(Kind::Map);
        loop {
            if self.state.compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
                return;
            }
            self.wait();
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        point(Kind::Map);
        self.state.compare_exchange(0, -1, SeqCst, SeqCst).is_ok()
    }
    fn wake(&self) {
        let r = self.res.load(SeqCst);
        if r != 0 {
            notify_res(r)
        }
    }
    fn unlock_shared(&self) {
        self.state.fetch_sub(1, SeqCst);
        self.wake()
    }
    fn unlock_exclusive(&self) {
        self.state.store(0, SeqCst);
        self.wake()
    }
    #[allow(clippy::mut_from_ref)]
    unsafe fn vec(&self) -> &mut Vec<(K, V)> {
        &mut *self.data.get()
    }
}

unsafe impl<K: Send, V: Send> Send for Shard<K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for Shard<K, V> {}

struct Shared<'a, K, V>(&'a Shard<K, V>);
impl<'a, K, V> Shared<'a, K, V> {
    fn new(s: &'a Shard<K, V>) -> Self {
        s.lock_shared();
        Shared(s)
    }
}
impl<K, V> Drop for Shared<'_, K, V> {
    fn drop(&mut self) {
        self.0.unlock_shared()
    }
}
struct Excl<'a, K, V>(&'a Shard<K, V>);
impl<'a, K, V> Excl<'a, K, V> {
    fn new(s: &'a Shard<K, V>) -> Self {
        s.lock_exclusive();
        Excl(s)
    }
}
impl<K, V> Drop for Excl<'_, K, V> {
    fn drop(&mut self) {
        self.0.unlock_exclusive()
    }
}

pub struct DashMap<K, V, S = RandomState> {
    shards: Box<[Shard<K, V>]>,
    hasher: PhantomData<S>,
}
unsafe impl<K: Send, V: Send, S> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S> Sync for DashMap<K, V, S> {}

/// FNV-1a: the same shard in every execution.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

impl<K: Eq + Hash, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::make()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::make()
    }
    pub fn with_shard_amount(_: usize) -> Self {
        Self::make()
    }
    pub fn with_capacity_and_shard_amount(_: usize, _: usize) -> Self {
        Self::make()
    }
}

impl<K: Eq + Hash, V, S> DashMap<K, V, S> {
    fn make() -> Self {
        DashMap {
            shards: (0..mcrt::shards().max(1)).map(|_| Shard::new()).collect(),
            hasher: PhantomData,
        }
    }
    pub fn with_hasher(_: S) -> Self {
        Self::make()
    }
    fn shard<Q: Hash + ?Sized>(&self, k: &Q) -> &Shard<K, V> {
        if self.shards.len() == 1 {
            return &self.shards[0];
        }
        let mut h = Fnv(0xcbf29ce484222325);
        k.hash(&mut h);
        let v = h.finish();
        &self.shards[((v ^ (v >> 32)) % self.shards.len() as u64) as usize]
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let g = Excl::new(self.shard(&k));
        let d = unsafe { g.0.vec() };
        match d.iter_mut().find(|e| e.0 == k) {
            Some(e) => Some(std::mem::replace(&mut e.1, v)),
            None => {
                d.push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let g = Excl::new(self.shard(k));
        let d = unsafe { g.0.vec() };
        let i = d.iter().position(|e| e.0.borrow() == k)?;
        Some(d.remove(i))
    }
    pub fn remove_if<Q: Hash + Eq + ?Sized>(
        &self,
        k: &Q,
        f: impl FnOnce(&K, &V) -> bool,
    ) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let g = Excl::new(self.shard(k));
        let d = unsafe { g.0.vec() };
        let i = d.iter().position(|e| e.0.borrow() == k)?;
        if f(&d[i].0, &d[i].1) {
            Some(d.remove(i))
        } else {
            None
        }
    }
    pub fn remove_if_mut<Q: Hash + Eq + ?Sized>(
        &self,
        k: &Q,
        f: impl FnOnce(&K, &mut V) -> bool,
    ) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let g = Excl::new(self.shard(k));
        let d = unsafe { g.0.vec() };
        let i = d.iter().position(|e| e.0.borrow() == k)?;
        let e = &mut d[i];
        if f(&e.0, &mut e.1) {
            Some(d.remove(i))
        } else {
            None
        }
    }
    pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let g = Shared::new(self.shard(k));
        let i = unsafe { g.0.vec() }.iter().position(|e| e.0.borrow() == k)?;
        Some(Ref { g, i })
    }
    pub fn get_mut<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let g = Excl::new(self.shard(k));
        let i = unsafe { g.0.vec() }.iter().position(|e| e.0.borrow() == k)?;
        Some(RefMut { g, i })
    }
    pub fn try_get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> TryResult<Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let s = self.shard(k);
        if !s.try_lock_shared() {
            return TryResult::Locked;
        }
        let g = Shared(s);
        match unsafe { g.0.vec() }.iter().position(|e| e.0.borrow() == k) {
            Some(i) => TryResult::Present(Ref { g, i }),
            None => TryResult::Absent,
        }
    }
    pub fn try_get_mut<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> TryResult<RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        let s = self.shard(k);
        if !s.try_lock_exclusive() {
            return TryResult::Locked;
        }
        let g = Excl(s);
        match unsafe { g.0.vec() }.iter().position(|e| e.0.borrow() == k) {
            Some(i) => TryResult::Present(RefMut { g, i }),
            None => TryResult::Absent,
        }
    }
    pub fn view<Q: Hash + Eq + ?Sized, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R>
    where
        K: Borrow<Q>,
    {
        self.get(k).map(|r| f(r.key(), r.value()))
    }
    pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.get(k).is_some()
    }
    pub fn entry(&self, k: K) -> Entry<'_, K, V> {
        let g = Excl::new(self.shard(&k));
        Self::make_entry(g, k)
    }
    fn make_entry(g: Excl<'_, K, V>, k: K) -> Entry<'_, K, V> {
        match unsafe { g.0.vec() }.iter().position(|e| e.0 == k) {
            Some(i) => Entry::Occupied(OccupiedEntry { g, i, key: k }),
            None => Entry::Vacant(VacantEntry { g, key: k }),
        }
    }
    pub fn try_entry(&self, k: K) -> Option<Entry<'_, K, V>> {
        let s = self.shard(&k);
        if !s.try_lock_exclusive() {
            return None;
        }
        Some(Self::make_entry(Excl(s), k))
    }
    pub fn alter<Q: Hash + Eq + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, V) -> V)
    where
        K: Borrow<Q>,
    {
        let g = Excl::new(self.shard(k));
        let d = unsafe { g.0.vec() };
        if let Some(i) = d.iter().position(|e| e.0.borrow() == k) {
            let (k, v) = d.remove(i);
            let v = f(&k, v);
            d.insert(i, (k, v));
        }
    }
    pub fn alter_all(&self, mut f: impl FnMut(&K, V) -> V) {
        for s in self.shards.iter() {
            let g = Excl::new(s);
            let d = unsafe { g.0.vec() };
            let old = std::mem::take(d);
            for (k, v) in old {
                let v = f(&k, v);
                d.push((k, v));
            }
        }
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        for s in self.shards.iter() {
            let g = Excl::new(s);
            unsafe { g.0.vec() }.retain_mut(|e| f(&e.0, &mut e.1));
        }
    }
    pub fn clear(&self) {
        self.retain(|_, _| false)
    }
    pub fn len(&self) -> usize {
        self.shards
            .iter()
            .map(|s| {
                let g = Shared::new(s);
                unsafe { g.0.vec() }.len()
            })
            .sum()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn capacity(&self) -> usize {
        self.len()
    }
    pub fn shrink_to_fit(&self) {}
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter {
            shards: &self.shards,
            next_shard: 0,
            cur: None,
        }
    }
    pub fn iter_mut(&self) -> IterMut<'_, K, V> {
        IterMut {
            shards: &self.shards,
            next_shard: 0,
            cur: None,
        }
    }
    pub fn into_read_only(self) -> Self {
        self
    }
}

impl<K: Eq + Hash, V, S> Default for DashMap<K, V, S> {
    fn default() -> Self {
        Self::make()
    }
}
impl<K: Eq + Hash + Clone, V: Clone, S> Clone for DashMap<K, V, S> {
    fn clone(&self) -> Self {
        let n = Self::make();
        for e in self.iter() {
            n.insert(e.key().clone(), e.value().clone());
        }
        n
    }
}
impl<K: Eq + Hash + fmt::Debug, V: fmt::Debug, S> fmt::Debug for DashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut m = f.debug_map();
        for e in self.iter() {
            m.entry(e.key(), e.value());
        }
        m.finish()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for DashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let m = Self::make();
        for (k, v) in i {
            m.insert(k, v);
        }
        m
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for DashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        for (k, v) in i {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Hash, V, S> IntoIterator for DashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = OwningIter<K, V>;
    fn into_iter(self) -> OwningIter<K, V> {
        let mut all = Vec::new();
        for s in self.shards.into_vec() {
            all.extend(s.data.into_inner());
        }
        OwningIter(all.into_iter())
    }
}
impl<'a, K: Eq + Hash, V, S> IntoIterator for &'a DashMap<K, V, S> {
    type Item = RefMulti<'a, K, V>;
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}

pub struct OwningIter<K, V>(std::vec::IntoIter<(K, V)>);
impl<K, V> Iterator for OwningIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.0.next()
    }
}

pub enum TryResult<R> {
    Present(R),
    Absent,
    Locked,
}
impl<R> TryResult<R> {
    pub fn is_present(&self) -> bool {
        matches!(self, TryResult::Present(_))
    }
    pub fn is_absent(&self) -> bool {
        matches!(self, TryResult::Absent)
    }
    pub fn is_locked(&self) -> bool {
        matches!(self, TryResult::Locked)
    }
    pub fn unwrap(self) -> R {
        match self {
            TryResult::Present(r) => r,
            _ => panic!("unwrap on absent or locked"),
        }
    }
    pub fn try_unwrap(self) -> Option<R> {
        match self {
            TryResult::Present(r) => Some(r),
            _ => None,
        }
    }
}

pub struct Ref<'a, K, V> {
    g: Shared<'a, K, V>,
    i: usize,
}

impl<'a, K, V> Ref<'a, K, V> {
    pub fn key(&self) -> &K {
        &(unsafe { self.g.0.vec() })[self.i].0
    }
    pub fn value(&self) -> &V {
        &(unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
    }
}
impl<K, V> Deref for Ref<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V: fmt::Debug> fmt::Debug for Ref<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.value().fmt(f)
    }
}

pub struct RefMut<'a, K, V> {
    g: Excl<'a, K, V>,
    i: usize,
}
impl<'a, K, V> RefMut<'a, K, V> {
    pub fn key(&self) -> &K {
        &(unsafe { self.g.0.vec() })[self.i].0
    }
    pub fn value(&self) -> &V {
        &(unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn value_mut(&mut self) -> &mut V {
        &mut (unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
    }
    pub fn pair_mut(&mut self) -> (&K, &mut V) {
        let e = &mut (unsafe { self.g.0.vec() })[self.i];
        (&e.0, &mut e.1)
    }
}
impl<K, V> Deref for RefMut<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V> DerefMut for RefMut<'_, K, V> {
    fn deref_mut(&mut self) -> &mut V {
        self.value_mut()
    }
}

pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    g: Excl<'a, K, V>,
    i: usize,
    key: K,
}
pub struct VacantEntry<'a, K, V> {
    g: Excl<'a, K, V>,
    key: K,
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn into_key(self) -> K {
        self.key
    }
    pub fn get(&self) -> &V {
        &(unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut (unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
    }
    pub fn into_ref(self) -> RefMut<'a, K, V> {
        RefMut {
            g: self.g,
            i: self.i,
        }
    }
    pub fn remove(self) -> V {
        self.remove_entry().1
    }
    pub fn remove_entry(self) -> (K, V) {
        unsafe { self.g.0.vec() }.remove(self.i)
    }
    pub fn replace_entry(self, v: V) -> (K, V) {
        let d = unsafe { self.g.0.vec() };
        std::mem::replace(&mut d[self.i], (self.key, v))
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn into_key(self) -> K {
        self.key
    }
    pub fn insert(self, v: V) -> RefMut<'a, K, V> {
        let d = unsafe { self.g.0.vec() };
        d.push((self.key, v));
        RefMut {
            i: d.len() - 1,
            g: self.g,
        }
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V>
    where
        K: Clone,
    {
        let key = self.key.clone();
        let r = self.insert(v);
        OccupiedEntry {
            g: r.g,
            i: r.i,
            key,
        }
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => e.key(),
            Entry::Vacant(e) => e.key(),
        }
    }
    pub fn into_key(self) -> K {
        match self {
            Entry::Occupied(e) => e.into_key(),
            Entry::Vacant(e) => e.into_key(),
        }
    }
    pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self {
        match self {
            Entry::Occupied(mut e) => {
                f(e.get_mut());
                Entry::Occupied(e)
            }
            v => v,
        }
    }
    pub fn or_default(self) -> RefMut<'a, K, V>
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn or_insert(self, v: V) -> RefMut<'a, K, V> {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
        match self {
            Entry::Occupied(e) => e.into_ref(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_try_insert_with<E>(
        self,
        f: impl FnOnce() -> Result<V, E>,
    ) -> Result<RefMut<'a, K, V>, E> {
        match self {
            Entry::Occupied(e) => Ok(e.into_ref()),
            Entry::Vacant(e) => Ok(e.insert(f()?)),
        }
    }
    pub fn insert(self, v: V) -> RefMut<'a, K, V> {
        match self {
            Entry::Occupied(mut e) => {
                e.insert(v);
                e.into_ref()
            }
            Entry::Vacant(e) => e.insert(v),
        }
    }
}

pub struct Iter<'a, K, V> {
    shards: &'a [Shard<K, V>],
    next_shard: usize,
    cur: Option<(Arc<Shared<'a, K, V>>, usize)>,
}
pub struct RefMulti<'a, K, V> {
    g: Arc<Shared<'a, K, V>>,
    i: usize,
}
unsafe impl<K: Send + Sync, V: Send + Sync> Send for Iter<'_, K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Send for RefMulti<'_, K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for RefMulti<'_, K, V> {}
impl<'a, K, V> RefMulti<'a, K, V> {
    pub fn key(&self) -> &K {
        &(unsafe { self.g.0.vec() })[self.i].0
    }
    pub fn value(&self) -> &V {
        &(unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
    }
}
impl<K, V> Deref for RefMulti<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = RefMulti<'a, K, V>;
    fn next(&mut self) -> Option<RefMulti<'a, K, V>> {
        loop {
            if let Some((g, i)) = self.cur.as_mut() {
                if *i < unsafe { g.0.vec() }.len() {
                    let r = RefMulti {
                        g: g.clone(),
                        i: *i,
                    };
                    *i += 1;
                    return Some(r);
                }
                self.cur = None;
            }
            if self.next_shard >= self.shards.len() {
                return None;
            }
            let s = &self.shards[self.next_shard];
            self.next_shard += 1;
            self.cur = Some((Arc::new(Shared::new(s)), 0));
        }
    }
}

pub struct IterMut<'a, K, V> {
    shards: &'a [Shard<K, V>],
    next_shard: usize,
    cur: Option<(Arc<Excl<'a, K, V>>, usize)>,
}
pub struct RefMutMulti<'a, K, V> {
    g: Arc<Excl<'a, K, V>>,
    i: usize,
}
unsafe impl<K: Send + Sync, V: Send + Sync> Send for IterMut<'_, K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Send for RefMutMulti<'_, K, V> {}
impl<'a, K, V> RefMutMulti<'a, K, V> {
    pub fn key(&self) -> &K {
        &(unsafe { self.g.0.vec() })[self.i].0
    }
    pub fn value(&self) -> &V {
        &(unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn value_mut(&mut self) -> &mut V {
        &mut (unsafe { self.g.0.vec() })[self.i].1
    }
    pub fn pair_mut(&mut self) -> (&K, &mut V) {
        let e = &mut (unsafe { self.g.0.vec() })[self.i];
        (&e.0, &mut e.1)
    }
}
impl<K, V> Deref for RefMutMulti<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V> DerefMut for RefMutMulti<'_, K, V> {
    fn deref_mut(&mut self) -> &mut V {
        self.value_mut()
    }
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = RefMutMulti<'a, K, V>;
    fn next(&mut self) -> Option<RefMutMulti<'a, K, V>> {
        loop {
            if let Some((g, i)) = self.cur.as_mut() {
                if *i < unsafe { g.0.vec() }.len() {
                    let r = RefMutMulti {
                        g: g.clone(),
                        i: *i,
                    };
                    *i += 1;
                    return Some(r);
                }
                self.cur = None;
            }
            if self.next_shard >= self.shards.len() {
                return None;
            }
            let s = &self.shards[self.next_shard];
            self.next_shard += 1;
            self.cur = Some((Arc::new(Excl::new(s)), 0));
        }
    }
}

/// Concurrent set.
pub struct DashSet<K, S = RandomState>(DashMap<K, (), S>);
impl<K: Eq + Hash> DashSet<K> {
    pub fn new() -> Self {
        DashSet(DashMap::new())
    }
}
impl<K: Eq + Hash, S> DashSet<K, S> {
    pub fn insert(&self, k: K) -> bool {
        let g = Excl::new(self.0.shard(&k));
        let d = unsafe { g.0.vec() };
        if d.iter().any(|e| e.0 == k) {
            false
        } else {
            d.push((k, ()));
            true
        }
    }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<K>
    where
        K: Borrow<Q>,
    {
        self.0.remove(k).map(|e| e.0)
    }
    pub fn contains<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&self) {
        self.0.clear()
    }
    pub fn retain(&self, mut f: impl FnMut(&K) -> bool) {
        self.0.retain(|k, _| f(k))
    }
}
impl<K: Eq + Hash, S> Default for DashSet<K, S> {
    fn default() -> Self {
        DashSet(DashMap::default())
    }
}
impl<K: Eq + Hash, S: BuildHasher + Default> FromIterator<K> for DashSet<K, S> {
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        let s = DashSet::default();
        for k in i {
            s.insert(k);
        }
        s
    }
}
impl<K: Eq + Hash + fmt::Debug, S> fmt::Debug for DashSet<K, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut m = f.debug_set();
        for e in self.0.iter() {
            m.entry(e.key());
        }
        m.finish()
    }
}
