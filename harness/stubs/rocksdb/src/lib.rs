//! Stand-in for the `rocksdb` crate: the same interface over a store in memory that outlives the
//! handle, so that a database can be closed and opened again. Batches are applied as a whole. The
//! process can be made to die at a chosen write (that one and all later ones have no effect), and a
//! chosen operation can be made to fail.
//! Single threaded by construction, like the harnesses.
use std::cell::UnsafeCell;
use std::fmt;
use std::path::{Path, PathBuf};

struct Store {
    path: PathBuf,
    open: bool,
    rows: Vec<(Vec<u8>, Vec<u8>)>,
    /// What a crash would leave, where that differs: writes past the log are lost by one.
    kept: Option<Vec<(Vec<u8>, Vec<u8>)>>,
}

struct State {
    stores: Vec<Store>,
    writes_left: Option<usize>,
    lost: usize,
    ops_left: Option<usize>,
    failed: bool,
}

struct Global(UnsafeCell<State>);
unsafe impl Sync for Global {}
static STATE: Global = Global(UnsafeCell::new(State { stores: Vec::new(), writes_left: None, lost: 0, ops_left: None, failed: false }));

fn state() -> &'static mut State {
    unsafe { &mut *STATE.0.get() }
}

/// Forget every database.
pub fn reset() {
    let s = state();
    s.stores = Vec::new();
    s.writes_left = None;
    s.lost = 0;
    s.ops_left = None;
    s.failed = false;
}

/// Only `n` more writes take effect.
pub fn die_after(n: usize) {
    state().writes_left = Some(n);
    state().lost = 0;
}

/// The process dies here, if it has not died before: nothing takes effect any more.
pub fn die() {
    state().writes_left = Some(0);
}

/// The computer is back after `die`.
pub fn restart() {
    let s = state();
    s.writes_left = None;
    for store in s.stores.iter_mut() {
        store.open = false;
        if let Some(rows) = store.kept.take() {
            store.rows = rows;
        }
    }
}

/// Whether a write was lost.
pub fn died() -> bool {
    state().lost > 0
}

/// `n` more operations succeed and the one after them fails.
pub fn fail_after(n: usize) {
    state().ops_left = Some(n);
    state().failed = false;
}

/// Ends the failing; whether an operation failed.
pub fn heal() -> bool {
    state().ops_left = None;
    state().failed
}

/// The rows of the database at `path`.
pub fn rows(path: &Path) -> usize {
    state().stores.iter().filter(|s| s.path == path).map(|s| s.rows.len()).sum()
}

fn op() -> Result<(), Error> {
    let s = state();
    match s.ops_left {
        Some(0) => {
            s.ops_left = None;
            s.failed = true;
            Err(Error { message: String::from("IO error: injected") })
        }
        Some(n) => {
            s.ops_left = Some(n - 1);
            Ok(())
        }
        None => Ok(()),
    }
}

fn alive() -> bool {
    let s = state();
    match s.writes_left {
        Some(0) => {
            s.lost += 1;
            false
        }
        Some(n) => {
            s.writes_left = Some(n - 1);
            true
        }
        None => true,
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.message)
    }
}

#[derive(Default, Clone)]
pub struct Options;
impl Options {
    pub fn create_if_missing(&mut self, _: bool) {}
    pub fn create_missing_column_families(&mut self, _: bool) {}
    pub fn set_error_if_exists(&mut self, _: bool) {}
    pub fn set_paranoid_checks(&mut self, _: bool) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_write_buffer_size(&mut self, _: usize) {}
    pub fn set_max_background_jobs(&mut self, _: i32) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn optimize_for_point_lookup(&mut self, _: u64) {}
    pub fn set_atomic_flush(&mut self, _: bool) {}
    pub fn set_manual_wal_flush(&mut self, _: bool) {}
}
#[derive(Default, Clone)]
pub struct WriteOptions {
    unlogged: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, disable: bool) {
        self.unlogged = disable;
    }
}
#[derive(Default, Clone)]
pub struct ReadOptions;

#[derive(Clone)]
enum Row {
    Put(Vec<u8>, Vec<u8>),
    Delete(Vec<u8>),
}

#[derive(Default)]
pub struct WriteBatch {
    rows: Vec<Row>,
}
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.rows.push(Row::Put(key.as_ref().to_vec(), value.as_ref().to_vec()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.rows.push(Row::Delete(key.as_ref().to_vec()));
    }
    pub fn clear(&mut self) {
        self.rows.clear();
    }
    pub fn len(&self) -> usize {
        self.rows.len()
    }
    pub fn is_empty(&self) -> bool {
        self.rows.is_empty()
    }
    pub fn size_in_bytes(&self) -> usize {
        12 + self
            .rows
            .iter()
            .map(|r| match r {
                Row::Put(k, v) => 3 + k.len() + v.len(),
                Row::Delete(k) => 2 + k.len(),
            })
            .sum::<usize>()
    }
}

#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}

pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

fn find(r: &[(Vec<u8>, Vec<u8>)], key: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < r.len() {
        if r[i].0.len() == key.len() && r[i].0[..] == key[..] {
            return Some(i);
        }
        i += 1;
    }
    None
}

fn set(rows: &mut Vec<(Vec<u8>, Vec<u8>)>, row: Row) {
    match row {
        Row::Put(k, v) => match find(rows, &k) {
            Some(i) => rows[i].1 = v,
            None => rows.push((k, v)),
        },
        Row::Delete(k) => {
            if let Some(i) = find(rows, &k) {
                rows.remove(i);
            }
        }
    }
}

pub struct DB {
    at: usize,
    path: PathBuf,
}

impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        op()?;
        let path = path.as_ref().to_path_buf();
        let s = state();
        let mut at = 0;
        while at < s.stores.len() && s.stores[at].path != path {
            at += 1;
        }
        if at == s.stores.len() {
            s.stores.push(Store { path: path.clone(), open: false, rows: Vec::new(), kept: None });
        }
        if s.stores[at].open {
            return Err(Error { message: String::from("IO error: lock hold by current process") });
        }
        s.stores[at].open = true;
        Ok(DB { at, path })
    }
    pub fn open<P: AsRef<Path>>(_: &Options, path: P) -> Result<DB, Error> {
        Self::open_default(path)
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    fn rows(&self) -> &'static mut Vec<(Vec<u8>, Vec<u8>)> {
        &mut state().stores[self.at].rows
    }
    fn find(&self, key: &[u8]) -> Option<usize> {
        find(self.rows(), key)
    }
    fn set(&self, row: Row, logged: bool) {
        let s = &mut state().stores[self.at];
        if !logged && s.kept.is_none() {
            s.kept = Some(s.rows.clone());
        }
        if logged {
            if let Some(kept) = &mut s.kept {
                set(kept, row.clone());
            }
        }
        set(&mut s.rows, row);
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        op()?;
        Ok(self.find(key.as_ref()).map(|i| self.rows()[i].1.clone()))
    }
    pub fn get_opt<K: AsRef<[u8]>>(&self, key: K, _: &ReadOptions) -> Result<Option<Vec<u8>>, Error> {
        self.get(key)
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        self.get(key)
    }
    fn apply(&self, rows: Vec<Row>, logged: bool) -> Result<(), Error> {
        op()?;
        if rows.is_empty() {
            return Ok(());
        }
        if alive() {
            for r in rows {
                self.set(r, logged);
            }
        }
        Ok(())
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.put_opt(key, value, &WriteOptions::new())
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.delete_opt(key, &WriteOptions::new())
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.apply(batch.rows, true)
    }
    pub fn write_opt(&self, batch: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        self.apply(batch.rows, !o.unlogged)
    }
    pub fn write_without_wal(&self, batch: WriteBatch) -> Result<(), Error> {
        self.apply(batch.rows, false)
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V, o: &WriteOptions) -> Result<(), Error> {
        self.apply(vec![Row::Put(key.as_ref().to_vec(), value.as_ref().to_vec())], !o.unlogged)
    }
    pub fn delete_opt<K: AsRef<[u8]>>(&self, key: K, o: &WriteOptions) -> Result<(), Error> {
        self.apply(vec![Row::Delete(key.as_ref().to_vec())], !o.unlogged)
    }
    pub fn multi_get<K: AsRef<[u8]>, I: IntoIterator<Item = K>>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>> {
        keys.into_iter().map(|k| self.get(k)).collect()
    }
    pub fn key_may_exist<K: AsRef<[u8]>>(&self, key: K) -> bool {
        self.find(key.as_ref()).is_some()
    }
    pub fn iterator(&self, mode: IteratorMode) -> std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)> {
        let mut rows: Vec<(Box<[u8]>, Box<[u8]>)> =
            self.rows().iter().map(|(k, v)| (k.clone().into_boxed_slice(), v.clone().into_boxed_slice())).collect();
        rows.sort();
        match mode {
            IteratorMode::Start | IteratorMode::From(_, Direction::Forward) => {}
            IteratorMode::End | IteratorMode::From(_, Direction::Reverse) => rows.reverse(),
        }
        match mode {
            IteratorMode::From(from, Direction::Forward) => rows.retain(|(k, _)| k[..] >= from[..]),
            IteratorMode::From(from, Direction::Reverse) => rows.retain(|(k, _)| k[..] <= from[..]),
            _ => {}
        }
        rows.into_iter()
    }
    pub fn flush(&self) -> Result<(), Error> {
        op()?;
        if alive() {
            state().stores[self.at].kept = None;
        }
        Ok(())
    }
    pub fn flush_wal(&self, _: bool) -> Result<(), Error> {
        op()
    }
    pub fn destroy<P: AsRef<Path>>(_: &Options, path: P) -> Result<(), Error> {
        op()?;
        if alive() {
            state().stores.iter_mut().filter(|s| s.path == path.as_ref()).for_each(|s| {
                s.rows.clear();
                s.kept = None;
            });
        }
        Ok(())
    }
}

impl Drop for DB {
    fn drop(&mut self) {
        if let Some(s) = state().stores.get_mut(self.at) {
            s.open = false;
            if state().writes_left != Some(0) {
                s.kept = None;
            }
        }
    }
}
