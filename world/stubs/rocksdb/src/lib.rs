//! In-memory stand-in for the `rocksdb` crate (TransactionDB subset).
//! Semantics kept: pessimistic per-key write locks taken at put/delete time (a second
//! transaction writing the same key fails with Busy instead of timing out), reads see the
//! transaction's own writes, nothing is visible before commit, drop without commit rolls
//! back, and prefix_iterator without a prefix extractor starts at the prefix and runs on
//! past it in key order.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::marker::PhantomData;
use std::path::Path;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for Error {}

#[derive(Default, Clone)]
pub struct Options {}
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
}
#[derive(Default)]
pub struct TransactionDBOptions {}
pub struct ColumnFamilyDescriptor {}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(_: S, _: Options) -> Self { Self {} }
}
#[derive(Default)]
pub struct WriteOptions {}
#[derive(Default)]
pub struct ReadOptions {}

#[derive(Default)]
struct Inner {
    data: Mutex<BTreeMap<Vec<u8>, Vec<u8>>>,
    locks: Mutex<HashMap<Vec<u8>, u64>>,
    next: AtomicU64,
    /// test hook: number of operations until an injected failure (<0: off)
    fail_after: AtomicI64,
}
pub struct SingleThreaded;
pub struct TransactionDB<T = SingleThreaded> { inner: Arc<Inner>, _p: PhantomData<fn() -> T> }
impl TransactionDB {
    pub fn in_memory() -> Self {
        let inner = Inner::default();
        inner.fail_after.store(-1, Ordering::SeqCst);
        Self { inner: Arc::new(inner), _p: PhantomData }
    }
    pub fn open_cf_descriptors<P: AsRef<Path>, I>(_: &Options, _: &TransactionDBOptions, _: P, _: I) -> Result<Self, Error> { Ok(Self::in_memory()) }
    pub fn open_default<P: AsRef<Path>>(_: P) -> Result<Self, Error> { Ok(Self::in_memory()) }
    pub fn open<P: AsRef<Path>>(_: &Options, _: &TransactionDBOptions, _: P) -> Result<Self, Error> { Ok(Self::in_memory()) }
    pub fn transaction(&self) -> Transaction<'_, Self> {
        Transaction { id: self.inner.next.fetch_add(1, Ordering::SeqCst), inner: self.inner.clone(), writes: Mutex::new(BTreeMap::new()), held: Mutex::new(HashSet::new()), _p: PhantomData }
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> { Ok(self.inner.data.lock().unwrap().get(k.as_ref()).cloned()) }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        let tx = self.transaction(); tx.put(k, v)?; tx.commit()
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> { let tx = self.transaction(); tx.delete(k)?; tx.commit() }
    // ---- harness-side inspection ----
    pub fn dump(&self) -> BTreeMap<Vec<u8>, Vec<u8>> { self.inner.data.lock().unwrap().clone() }
    pub fn load(&self, m: BTreeMap<Vec<u8>, Vec<u8>>) { *self.inner.data.lock().unwrap() = m; }
    pub fn fail_after(&self, n: i64) { self.inner.fail_after.store(n, Ordering::SeqCst); }
}
impl Inner {
    fn tick(&self) -> Result<(), Error> {
        let v = self.fail_after.load(Ordering::SeqCst);
        if v < 0 { return Ok(()); }
        if v == 0 { return Err(Error("IO error: injected".into())); }
        self.fail_after.store(v - 1, Ordering::SeqCst);
        Ok(())
    }
}
pub struct Transaction<'a, DB> {
    id: u64,
    inner: Arc<Inner>,
    writes: Mutex<BTreeMap<Vec<u8>, Option<Vec<u8>>>>,
    held: Mutex<HashSet<Vec<u8>>>,
    _p: PhantomData<&'a DB>,
}
impl<'a, DB> Transaction<'a, DB> {
    fn lock(&self, k: &[u8]) -> Result<(), Error> {
        let mut l = self.inner.locks.lock().unwrap();
        match l.get(k) {
            Some(o) if *o != self.id => Err(Error("Operation timed out: Timeout waiting to lock key".into())),
            _ => { l.insert(k.to_vec(), self.id); self.held.lock().unwrap().insert(k.to_vec()); Ok(()) }
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<Vec<u8>>, Error> {
        self.inner.tick()?;
        if let Some(v) = self.writes.lock().unwrap().get(k.as_ref()) { return Ok(v.clone()); }
        Ok(self.inner.data.lock().unwrap().get(k.as_ref()).cloned())
    }
    pub fn get_for_update<K: AsRef<[u8]>>(&self, k: K, _excl: bool) -> Result<Option<Vec<u8>>, Error> { self.lock(k.as_ref())?; self.get(k) }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, k: K, v: V) -> Result<(), Error> {
        self.inner.tick()?;
        self.lock(k.as_ref())?;
        self.writes.lock().unwrap().insert(k.as_ref().to_vec(), Some(v.as_ref().to_vec()));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, k: K) -> Result<(), Error> {
        self.inner.tick()?;
        self.lock(k.as_ref())?;
        self.writes.lock().unwrap().insert(k.as_ref().to_vec(), None);
        Ok(())
    }
    fn view(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
        let mut m = self.inner.data.lock().unwrap().clone();
        for (k, v) in self.writes.lock().unwrap().iter() {
            match v { Some(v) => { m.insert(k.clone(), v.clone()); } None => { m.remove(k); } }
        }
        m
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, p: P) -> DBIterator {
        let m = self.view();
        let v: Vec<_> = m.range(p.as_ref().to_vec()..).map(|(k, v)| Ok((k.clone().into_boxed_slice(), v.clone().into_boxed_slice()))).collect();
        DBIterator { it: v.into_iter() }
    }
    pub fn commit(self) -> Result<(), Error> {
        self.inner.tick()?;
        let mut d = self.inner.data.lock().unwrap();
        for (k, v) in self.writes.lock().unwrap().iter() {
            match v { Some(v) => { d.insert(k.clone(), v.clone()); } None => { d.remove(k); } }
        }
        Ok(())
    }
    pub fn rollback(&self) -> Result<(), Error> { self.writes.lock().unwrap().clear(); Ok(()) }
}
impl<'a, DB> Drop for Transaction<'a, DB> {
    fn drop(&mut self) {
        let mut l = self.inner.locks.lock().unwrap();
        for k in self.held.lock().unwrap().iter() { l.remove(k); }
    }
}
pub struct DBIterator { it: std::vec::IntoIter<Result<(Box<[u8]>, Box<[u8]>), Error>> }
impl Iterator for DBIterator {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> { self.it.next() }
}
