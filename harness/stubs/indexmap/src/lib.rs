//! Solver-friendly model of the part of `indexmap` that `object` uses:
//! an insertion-ordered set with the same contract.
#![no_std]
extern crate alloc;
use alloc::vec::Vec;
use core::borrow::Borrow;
use core::hash::{BuildHasher, Hash};

pub trait Equivalent<K: ?Sized> { fn equivalent(&self, key: &K) -> bool; }
impl<Q: ?Sized + Eq, K: ?Sized + Borrow<Q>> Equivalent<K> for Q {
    fn equivalent(&self, key: &K) -> bool { self == key.borrow() }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Nop;
#[derive(Clone, Copy, Debug, Default)]
pub struct NopHasher;
impl core::hash::Hasher for NopHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _b: &[u8]) {}
}
impl BuildHasher for Nop {
    type Hasher = NopHasher;
    fn build_hasher(&self) -> NopHasher { NopHasher }
}

#[derive(Clone, Debug)]
pub struct IndexSet<K, S = Nop> { items: Vec<K>, s: S }
impl<K, S: Default> Default for IndexSet<K, S> {
    fn default() -> Self { IndexSet { items: Vec::new(), s: S::default() } }
}
impl<K> IndexSet<K, Nop> { pub fn new() -> Self { Self::default() } }
impl<K, S> IndexSet<K, S> {
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn len(&self) -> usize { self.items.len() }
    pub fn iter(&self) -> core::slice::Iter<'_, K> { self.items.iter() }
    pub fn get_index(&self, i: usize) -> Option<&K> { self.items.get(i) }
    pub fn clear(&mut self) { self.items.clear() }
    pub fn first(&self) -> Option<&K> { self.items.first() }
    pub fn last(&self) -> Option<&K> { self.items.last() }
}
impl<K: Eq + Hash, S: BuildHasher> IndexSet<K, S> {
    pub fn insert_full(&mut self, k: K) -> (usize, bool) {
        let mut i = 0;
        while i < self.items.len() {
            if self.items[i] == k { return (i, false); }
            i += 1;
        }
        self.items.push(k);
        (i, true)
    }
    pub fn insert(&mut self, k: K) -> bool { self.insert_full(k).1 }
    pub fn get_index_of<Q: ?Sized + Hash + Equivalent<K>>(&self, k: &Q) -> Option<usize> {
        let mut i = 0;
        while i < self.items.len() {
            if k.equivalent(&self.items[i]) { return Some(i); }
            i += 1;
        }
        None
    }
    pub fn contains<Q: ?Sized + Hash + Equivalent<K>>(&self, k: &Q) -> bool { self.get_index_of(k).is_some() }
    pub fn get_full<Q: ?Sized + Hash + Equivalent<K>>(&self, k: &Q) -> Option<(usize, &K)> {
        match self.get_index_of(k) { Some(i) => Some((i, &self.items[i])), None => None }
    }
}
impl<K, S> core::ops::Index<usize> for IndexSet<K, S> {
    type Output = K;
    fn index(&self, i: usize) -> &K { &self.items[i] }
}
impl<'a, K, S> IntoIterator for &'a IndexSet<K, S> {
    type Item = &'a K;
    type IntoIter = core::slice::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter { let _ = &self.s; self.items.iter() }
}
