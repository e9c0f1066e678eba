//! Stand-in for crossbeam_queue::ArrayQueue: a bounded FIFO.
use std::{collections::VecDeque, sync::Mutex};
pub struct ArrayQueue<T> { q: Mutex<VecDeque<T>>, cap: usize }
impl<T> ArrayQueue<T> {
    pub fn new(cap: usize) -> Self { assert!(cap > 0, "capacity must be non-zero"); ArrayQueue { q: Mutex::new(VecDeque::new()), cap } }
    pub fn push(&self, v: T) -> Result<(), T> {
        let mut q = self.q.lock().unwrap();
        if q.len() >= self.cap { return Err(v); }
        q.push_back(v);
        Ok(())
    }
    pub fn pop(&self) -> Option<T> { self.q.lock().unwrap().pop_front() }
    pub fn len(&self) -> usize { self.q.lock().unwrap().len() }
    pub fn capacity(&self) -> usize { self.cap }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn is_full(&self) -> bool { self.len() == self.cap }
}
