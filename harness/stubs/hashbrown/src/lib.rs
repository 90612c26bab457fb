//! Solver-friendly model of the part of `hashbrown` that `object` uses:
//! an association list with the same map contract (unordered, unique keys).
#![no_std]
extern crate alloc;
use alloc::vec::Vec;
use core::borrow::Borrow;
use core::hash::{BuildHasher, Hash, Hasher};

#[derive(Clone, Copy, Debug, Default)]
pub struct DefaultHasher(u64);
impl Hasher for DefaultHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) { for b in bytes { self.0 = self.0.rotate_left(5) ^ *b as u64; } }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct DefaultHashBuilder;
impl BuildHasher for DefaultHashBuilder {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher { DefaultHasher(0) }
}

#[derive(Clone, Debug)]
pub struct HashMap<K, V, S = DefaultHashBuilder> { items: Vec<(K, V)>, s: S }
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { HashMap { items: Vec::new(), s: DefaultHashBuilder } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self { HashMap { items: Vec::new(), s: S::default() } }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn len(&self) -> usize { self.items.len() }
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn clear(&mut self) { self.items.clear() }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.items.iter().map(|x| (&x.0, &x.1)) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.items.iter_mut().map(|x| (&x.0, &mut x.1)) }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.items.iter().map(|x| &x.0) }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.items.iter().map(|x| &x.1) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.items.iter_mut().map(|x| &mut x.1) }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.items.into_iter().map(|x| x.0) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.items.into_iter().map(|x| x.1) }
    pub fn drain(&mut self) -> alloc::vec::Drain<'_, (K, V)> { self.items.drain(..) }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.items.retain_mut(|x| f(&x.0, &mut x.1)) }
}
impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn pos<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.items.len() {
            if self.items[i].0.borrow() == k { return Some(i); }
            i += 1;
        }
        None
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(&self.items[i].1), None => None }
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(&mut self.items[i].1), None => None }
    }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some((&self.items[i].0, &self.items[i].1)), None => None }
    }
    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(self.items.swap_remove(i)), None => None }
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => Some(core::mem::replace(&mut self.items[i].1, v)),
            None => { self.items.push((k, v)); None }
        }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        match self.pos(k) { Some(i) => Some(self.items.swap_remove(i).1), None => None }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
        match self.pos(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { map: self, i }),
            None => Entry::Vacant(VacantEntry { map: self, k }),
        }
    }
}
pub enum Entry<'a, K, V, S = DefaultHashBuilder> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
pub struct OccupiedEntry<'a, K, V, S = DefaultHashBuilder> { map: &'a mut HashMap<K, V, S>, i: usize }
pub struct VacantEntry<'a, K, V, S = DefaultHashBuilder> { map: &'a mut HashMap<K, V, S>, k: K }
impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
    pub fn get(&self) -> &V { &self.map.items[self.i].1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.map.items[self.i].1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.map.items[self.i].1 }
    pub fn insert(&mut self, v: V) -> V { core::mem::replace(&mut self.map.items[self.i].1, v) }
}
impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
    pub fn insert(self, v: V) -> &'a mut V {
        self.map.items.push((self.k, v));
        let n = self.map.items.len() - 1;
        &mut self.map.items[n].1
    }
}
impl<'a, K, V, S> Entry<'a, K, V, S> {
    pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(e) = &mut self { f(e.get_mut()) } self }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
}
impl<K: Eq + Hash, V, S: Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = HashMap { items: Vec::new(), s: S::default() };
        for (k, v) in it { m.insert(k, v); }
        m
    }
}
impl<Q: ?Sized + Eq + Hash, K: Eq + Hash + Borrow<Q>, V, S> core::ops::Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V { self.get(k).unwrap() }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = alloc::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter { let _ = &self.s; self.items.into_iter() }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = core::iter::Map<core::slice::Iter<'a, (K, V)>, fn(&'a (K, V)) -> (&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter { self.items.iter().map(|x| (&x.0, &x.1)) }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
}
impl<K: Eq + Hash, V, S: Default, const N: usize> From<[(K, V); N]> for HashMap<K, V, S> {
    fn from(x: [(K, V); N]) -> Self { x.into_iter().collect() }
}
#[derive(Clone, Debug)]
pub struct HashSet<K, S = DefaultHashBuilder> { m: HashMap<K, (), S> }
impl<K, S: Default> Default for HashSet<K, S> { fn default() -> Self { HashSet { m: HashMap::default() } } }
impl<K> HashSet<K> {
    pub fn new() -> Self { HashSet { m: HashMap::new() } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
}
impl<K, S> HashSet<K, S> {
    pub fn iter(&self) -> impl Iterator<Item = &K> { self.m.keys() }
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&mut self) { self.m.clear() }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) { self.m.retain(|k, _| f(k)) }
}
impl<K: Eq + Hash, S> HashSet<K, S> {
    pub fn insert(&mut self, k: K) -> bool { if self.m.contains_key(&k) { return false; } self.m.insert(k, ()); true }
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&K> where K: Borrow<Q> { self.m.get_key_value(k).map(|x| x.0) }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.m.remove(k).is_some() }
    pub fn take<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<K> where K: Borrow<Q> { self.m.remove_entry(k).map(|x| x.0) }
}
impl<K: Eq + Hash, S> Extend<K> for HashSet<K, S> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } }
}
impl<K: Eq + Hash, S: Default> FromIterator<K> for HashSet<K, S> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut s = Self::default(); s.extend(it); s }
}
impl<K: Eq + Hash, S: Default, const N: usize> From<[K; N]> for HashSet<K, S> {
    fn from(x: [K; N]) -> Self { x.into_iter().collect() }
}
impl<'a, K, S> IntoIterator for &'a HashSet<K, S> {
    type Item = &'a K;
    type IntoIter = core::iter::Map<core::slice::Iter<'a, (K, ())>, fn(&'a (K, ())) -> &'a K>;
    fn into_iter(self) -> Self::IntoIter { self.m.items.iter().map(|x| &x.0) }
}
impl<K, S> IntoIterator for HashSet<K, S> {
    type Item = K;
    type IntoIter = core::iter::Map<alloc::vec::IntoIter<(K, ())>, fn((K, ())) -> K>;
    fn into_iter(self) -> Self::IntoIter { self.m.into_iter().map(|x| x.0) }
}
pub mod hash_map { pub use super::{HashMap, Entry, OccupiedEntry, VacantEntry}; }
pub mod hash_set { pub use super::HashSet; }
