//! Stand-in for lru::LruCache (most recently used last), with the real crate's capacity eviction.
use std::{borrow::Borrow, collections::VecDeque, hash::Hash, num::NonZeroUsize};
#[derive(Debug, Clone)]
pub struct LruCache<K, V> { cap: usize, v: VecDeque<(K, V)> }
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self { Self { cap: cap.get(), v: VecDeque::new() } }
    fn pos<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { self.v.iter().position(|e| e.0.borrow() == k) }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        let old = match self.pos(&k) { Some(i) => self.v.remove(i).map(|e| e.1), None => { if self.v.len() == self.cap { self.v.pop_front(); } None } };
        self.v.push_back((k, v)); old
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V> where K: Borrow<Q> { let i = self.pos(k)?; let e = self.v.remove(i).unwrap(); self.v.push_back(e); self.v.back().map(|e| &e.1) }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { let i = self.pos(k)?; let e = self.v.remove(i).unwrap(); self.v.push_back(e); self.v.back_mut().map(|e| &mut e.1) }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.pos(k).map(|i| &self.v[i].1) }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { let i = self.pos(k)?; self.v.remove(i).map(|e| e.1) }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
}
