//! Environment model of RocksDB: an ordered key-value map per column family, atomic write batches, and an optional
//! failure of a chosen write (the whole batch is then lost). Process-wide "disks" by path survive a handle being dropped.
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn into_string(self) -> String {
        self.0
    }
}

#[derive(Default, Clone)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
}
#[derive(Default)]
pub struct WriteOptions;
impl WriteOptions {
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, _: bool) {}
}
pub struct ColumnFamilyDescriptor {
    name: String,
}
impl ColumnFamilyDescriptor {
    pub fn new<S: Into<String>>(name: S, _o: Options) -> Self {
        Self { name: name.into() }
    }
}
pub type Table = Vec<(Vec<u8>, Vec<u8>)>;
/// what is on disk
#[derive(Default)]
pub struct Disk {
    pub tables: Mutex<Vec<Table>>,
}
pub struct ColumnFamily {
    name: String,
    ix: usize,
}
pub trait AsColumnFamilyRef {
    fn ix(&self) -> usize;
}
impl AsColumnFamilyRef for ColumnFamily {
    fn ix(&self) -> usize {
        self.ix
    }
}
impl<T: AsColumnFamilyRef> AsColumnFamilyRef for &T {
    fn ix(&self) -> usize {
        (**self).ix()
    }
}
pub mod model {
    //! failure and observation of the model
    pub static mut WRITES: u32 = 0;
    /// the write (counting from 0) that fails
    pub static mut FAIL_AT: u32 = u32::MAX;
    pub static mut DISK: Option<super::Arc<super::Disk>> = None;
    pub fn writes() -> u32 {
        unsafe { WRITES }
    }
    pub fn fail_at(n: u32) {
        unsafe {
            FAIL_AT = n;
            WRITES = 0;
        }
    }
    /// the next database opens on this disk
    pub fn disk(d: super::Arc<super::Disk>) {
        unsafe { DISK = Some(d) }
    }
    pub(crate) fn step() -> Result<(), super::Error> {
        unsafe {
            let w = WRITES;
            WRITES += 1;
            if w == FAIL_AT {
                return Err(super::Error("write failed".into()));
            }
        }
        Ok(())
    }
}
fn put(t: &mut Table, k: &[u8], v: &[u8]) {
    for i in 0..t.len() {
        match t[i].0.as_slice().cmp(k) {
            std::cmp::Ordering::Less => {}
            std::cmp::Ordering::Equal => {
                t[i].1 = v.to_vec();
                return;
            }
            std::cmp::Ordering::Greater => {
                t.insert(i, (k.to_vec(), v.to_vec()));
                return;
            }
        }
    }
    t.push((k.to_vec(), v.to_vec()));
}
fn del(t: &mut Table, k: &[u8]) {
    if let Some(i) = t.iter().position(|e| e.0 == k) {
        t.remove(i);
    }
}
pub struct DB {
    cfs: Vec<ColumnFamily>,
    disk: Arc<Disk>,
}
impl DB {
    pub fn open_cf_descriptors<P: AsRef<Path>, I: IntoIterator<Item = ColumnFamilyDescriptor>>(
        _o: &Options,
        _p: P,
        cfs: I,
    ) -> Result<DB, Error> {
        #[allow(static_mut_refs)]
        let disk = unsafe { model::DISK.take() }.unwrap_or_default();
        let cfs: Vec<ColumnFamily> =
            cfs.into_iter().enumerate().map(|(ix, d)| ColumnFamily { name: d.name, ix }).collect();
        {
            let mut t = disk.tables.lock().unwrap();
            while t.len() < cfs.len() {
                t.push(vec![]);
            }
        }
        Ok(DB { cfs, disk })
    }
    pub fn cf_handle(&self, name: &str) -> Option<&ColumnFamily> {
        self.cfs.iter().find(|c| c.name == name)
    }
    pub fn get_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<Option<Vec<u8>>, Error> {
        let t = self.disk.tables.lock().unwrap();
        Ok(t[cf.ix()].iter().find(|e| e.0 == k.as_ref()).map(|e| e.1.clone()))
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K, v: V) -> Result<(), Error> {
        model::step()?;
        put(&mut self.disk.tables.lock().unwrap()[cf.ix()], k.as_ref(), v.as_ref());
        Ok(())
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&self, cf: &impl AsColumnFamilyRef, k: K) -> Result<(), Error> {
        model::step()?;
        del(&mut self.disk.tables.lock().unwrap()[cf.ix()], k.as_ref());
        Ok(())
    }
    pub fn write(&self, b: WriteBatch) -> Result<(), Error> {
        self.write_opt(b, &WriteOptions)
    }
    pub fn write_opt(&self, b: WriteBatch, _o: &WriteOptions) -> Result<(), Error> {
        model::step()?;
        let mut t = self.disk.tables.lock().unwrap();
        for (ix, k, v) in b.ops {
            match v {
                Some(v) => put(&mut t[ix], &k, &v),
                None => del(&mut t[ix], &k),
            }
        }
        Ok(())
    }
    pub fn iterator_cf<'a>(&'a self, cf: &impl AsColumnFamilyRef, mode: IteratorMode) -> DBIterator<'a> {
        let t = self.disk.tables.lock().unwrap()[cf.ix()].clone();
        let v: Table = match mode {
            IteratorMode::Start => t,
            IteratorMode::End => t.into_iter().rev().collect(),
            IteratorMode::From(k, Direction::Forward) => t.into_iter().filter(|e| e.0.as_slice() >= k).collect(),
            IteratorMode::From(k, Direction::Reverse) => t.into_iter().rev().filter(|e| e.0.as_slice() <= k).collect(),
        };
        DBIterator { v: v.into_iter(), p: std::marker::PhantomData }
    }
}
#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
pub struct DBIterator<'a> {
    v: std::vec::IntoIter<(Vec<u8>, Vec<u8>)>,
    p: std::marker::PhantomData<&'a DB>,
}
impl Iterator for DBIterator<'_> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.v.next().map(|(k, v)| Ok((k.into_boxed_slice(), v.into_boxed_slice())))
    }
}
#[derive(Default)]
pub struct WriteBatch {
    ops: Vec<(usize, Vec<u8>, Option<Vec<u8>>)>,
}
impl WriteBatch {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn put_cf<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K, v: V) {
        self.ops.push((cf.ix(), k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
    }
    pub fn delete_cf<K: AsRef<[u8]>>(&mut self, cf: &impl AsColumnFamilyRef, k: K) {
        self.ops.push((cf.ix(), k.as_ref().to_vec(), None));
    }
}
