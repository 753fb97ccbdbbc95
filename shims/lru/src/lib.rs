//! Least-recently-used cache with the interface of lru 0.7 (the parts the repository uses).
use std::borrow::Borrow;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

#[derive(Debug)]
pub struct LruCache<K, V> { map: HashMap<K, (u64, V)>, order: BTreeMap<u64, K>, tick: u64, cap: usize }
impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(cap: usize) -> Self { LruCache { map: HashMap::new(), order: BTreeMap::new(), tick: 0, cap } }
    pub fn unbounded() -> Self { Self::new(usize::MAX) }
    fn touch<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) where K: Borrow<Q> {
        self.tick += 1;
        if let Some((t, _)) = self.map.get_mut(k) {
            let key = self.order.remove(t).unwrap();
            *t = self.tick;
            self.order.insert(self.tick, key);
        }
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        if self.cap == 0 { return Some(v); }
        if self.map.contains_key(&k) {
            self.touch(&k);
            return Some(std::mem::replace(&mut self.map.get_mut(&k).unwrap().1, v));
        }
        if self.map.len() >= self.cap { self.pop_lru(); }
        self.tick += 1;
        self.order.insert(self.tick, k.clone());
        self.map.insert(k, (self.tick, v));
        None
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.touch(k); self.map.get(k).map(|x| &x.1) }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { self.touch(k); self.map.get_mut(k).map(|x| &mut x.1) }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.map.get(k).map(|x| &x.1) }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.map.contains_key(k) }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.map.remove(k).map(|(t, v)| { self.order.remove(&t); v }) }
    pub fn pop_lru(&mut self) -> Option<(K, V)> { let t = *self.order.keys().next()?; let k = self.order.remove(&t)?; let v = self.map.remove(&k)?.1; Some((k, v)) }
    pub fn peek_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { self.map.get_mut(k).map(|x| &mut x.1) }
    pub fn peek_lru(&self) -> Option<(&K, &V)> { let k = self.order.values().next()?; Some((k, &self.map.get(k)?.1)) }
    /// most recently used first
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> + '_ { let m = &self.map; self.order.values().rev().map(move |k| (k, &m[k].1)) }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn cap(&self) -> usize { self.cap }
    pub fn resize(&mut self, cap: usize) { self.cap = cap; while self.map.len() > cap { self.pop_lru(); } }
    pub fn clear(&mut self) { self.map.clear(); self.order.clear(); }
}
