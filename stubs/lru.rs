//! Stand-in for lru 0.12's LruCache (not in the registry): same observable behaviour for the calls used.
use std::{collections::HashMap, hash::Hash, num::NonZeroUsize};
#[derive(Debug)]
pub struct LruCache<K, V> { map: HashMap<K, (u64, V)>, cap: usize, tick: u64 }
impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(n: NonZeroUsize) -> Self { LruCache { map: HashMap::new(), cap: n.get(), tick: 0 } }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        self.tick += 1;
        let t = self.tick;
        if let Some(old) = self.map.insert(k, (t, v)) { return Some(old.1); }
        if self.map.len() > self.cap {
            let oldest = self.map.iter().min_by_key(|(_, (t, _))| *t).map(|(k, _)| k.clone()).unwrap();
            self.map.remove(&oldest);
        }
        None
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> { self.put(k.clone(), v).map(|v| (k, v)) }
    pub fn get(&mut self, k: &K) -> Option<&V> {
        self.tick += 1;
        let t = self.tick;
        self.map.get_mut(k).map(|e| { e.0 = t; &e.1 })
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        self.tick += 1;
        let t = self.tick;
        self.map.get_mut(k).map(|e| { e.0 = t; &mut e.1 })
    }
    pub fn peek(&self, k: &K) -> Option<&V> { self.map.get(k).map(|e| &e.1) }
    pub fn contains(&self, k: &K) -> bool { self.map.contains_key(k) }
    pub fn pop(&mut self, k: &K) -> Option<V> { self.map.remove(k).map(|e| e.1) }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn clear(&mut self) { self.map.clear() }
}
