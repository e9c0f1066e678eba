//! Stand-in for ckb-rocksdb: ordered in-memory column families, shared by path within the process
//! (so that a database can be reopened), with point reads/writes, atomic batches and prefix iteration.
use std::{collections::{BTreeMap, HashMap}, fmt, path::{Path, PathBuf}, sync::{Arc, Mutex, RwLock}};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
type Map = Arc<RwLock<BTreeMap<Vec<u8>, Vec<u8>>>>;
#[derive(Clone)]
pub struct ColumnFamily { name: String, map: Map }
pub struct ColumnFamilyDescriptor { name: String }
impl ColumnFamilyDescriptor { pub fn new<S: Into<String>>(s: S, _: Options) -> Self { ColumnFamilyDescriptor { name: s.into() } } }
#[derive(Default, Clone)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_max_open_files<T>(&mut self, _: T) {}
}
pub struct FullOptions { pub db_opts: Options, pub cf_descriptors: Vec<ColumnFamilyDescriptor> }
impl FullOptions {
    pub fn load_from_file<P: AsRef<Path>>(_: P, _: Option<usize>, _: bool) -> Result<Self, Error> { Ok(FullOptions { db_opts: Options, cf_descriptors: vec![] }) }
    pub fn complete_column_families(&mut self, n: &[&str], _: bool) -> Result<(), Error> {
        for c in n { self.cf_descriptors.push(ColumnFamilyDescriptor { name: c.to_string() }); }
        Ok(())
    }
}
#[derive(Default)]
pub struct WriteOptions;
impl WriteOptions { pub fn set_sync(&mut self, _: bool) {} }
#[derive(Default)]
pub struct WriteBatch { ops: Vec<(Map, Vec<u8>, Option<Vec<u8>>)> }
pub struct DB { cfs: HashMap<String, ColumnFamily> }
impl fmt::Debug for DB { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("DB") } }
static OPEN: Mutex<Vec<(PathBuf, HashMap<String, ColumnFamily>)>> = Mutex::new(Vec::new());
impl DB {
    pub fn open_cf_descriptors<P: AsRef<Path>>(_: &Options, p: P, d: Vec<ColumnFamilyDescriptor>) -> Result<DB, Error> {
        let mut o = OPEN.lock().unwrap();
        let path = p.as_ref().to_path_buf();
        let i = match o.iter().position(|e| e.0 == path) { Some(i) => i, None => { o.push((path, HashMap::new())); o.len() - 1 } };
        for c in d { o[i].1.entry(c.name.clone()).or_insert_with(|| ColumnFamily { name: c.name.clone(), map: Default::default() }); }
        Ok(DB { cfs: o[i].1.clone() })
    }
}
pub struct DBVector(Vec<u8>);
impl std::ops::Deref for DBVector { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for DBVector { fn as_ref(&self) -> &[u8] { &self.0 } }
pub struct DBIterator<'a> { items: std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)>, _p: std::marker::PhantomData<&'a ()> }
impl<'a> Iterator for DBIterator<'a> { type Item = (Box<[u8]>, Box<[u8]>); fn next(&mut self) -> Option<Self::Item> { self.items.next() } }
pub mod ops {
    use super::*;
    pub trait GetColumnFamilys { fn cf_handle(&self, n: &str) -> Option<&ColumnFamily>; }
    impl GetColumnFamilys for DB { fn cf_handle(&self, n: &str) -> Option<&ColumnFamily> { self.cfs.get(n) } }
    pub trait GetCF { fn get_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<Option<DBVector>, Error>; }
    impl GetCF for DB { fn get_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<Option<DBVector>, Error> { Ok(c.map.read().unwrap().get(k.as_ref()).cloned().map(DBVector)) } }
    pub trait PutCF { fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K, v: V) -> Result<(), Error>; }
    impl PutCF for DB { fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K, v: V) -> Result<(), Error> { c.map.write().unwrap().insert(k.as_ref().to_vec(), v.as_ref().to_vec()); Ok(()) } }
    pub trait DeleteCF { fn delete_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<(), Error>; }
    impl DeleteCF for DB { fn delete_cf<K: AsRef<[u8]>>(&self, c: &ColumnFamily, k: K) -> Result<(), Error> { c.map.write().unwrap().remove(k.as_ref()); Ok(()) } }
    pub trait WriteOps { fn write(&self, b: &WriteBatch) -> Result<(), Error>; fn write_opt(&self, b: &WriteBatch, _: &WriteOptions) -> Result<(), Error> { self.write(b) } }
    impl WriteOps for DB { fn write(&self, b: &WriteBatch) -> Result<(), Error> { for (m, k, v) in &b.ops { let mut m = m.write().unwrap(); match v { Some(v) => { m.insert(k.clone(), v.clone()); } None => { m.remove(k); } } } Ok(()) } }
    pub trait OpenCF {}
    impl OpenCF for DB {}
    pub trait IterateCF { fn prefix_iterator_cf<'a>(&'a self, c: &ColumnFamily, p: &[u8]) -> Result<DBIterator<'a>, Error>; }
    // like RocksDB without a prefix extractor: iterates from the prefix to the end of the column family
    impl IterateCF for DB { fn prefix_iterator_cf<'a>(&'a self, c: &ColumnFamily, p: &[u8]) -> Result<DBIterator<'a>, Error> {
        let v: Vec<_> = c.map.read().unwrap().range(p.to_vec()..).map(|(k, v)| (k.clone().into_boxed_slice(), v.clone().into_boxed_slice())).collect();
        Ok(DBIterator { items: v.into_iter(), _p: std::marker::PhantomData }) } }
}
impl WriteBatch {
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, c: &ColumnFamily, k: K, v: V) -> Result<(), Error> { self.ops.push((c.map.clone(), k.as_ref().to_vec(), Some(v.as_ref().to_vec()))); Ok(()) }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, c: &ColumnFamily, k: K) -> Result<(), Error> { self.ops.push((c.map.clone(), k.as_ref().to_vec(), None)); Ok(()) }
}
