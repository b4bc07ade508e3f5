//! Stand-in for rocksdb 0.19: a sorted map whose iterators fail where the simulation says so.
//! As in the real crate an iterator reports a failure once and then ends.
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn new(message: String) -> Self {
        Error { message }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl std::error::Error for Error {}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.message.fmt(f)
    }
}
#[derive(Default, Clone)]
pub struct Options;
#[derive(Clone, Copy)]
pub enum Direction {
    Forward,
    Reverse,
}
#[derive(Clone, Copy)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
/// `fail(n)`: does the n-th step (from 0) of an iterator fail, and how?
pub struct DB {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    fail: RefCell<Box<dyn FnMut(u64) -> Option<String>>>,
}
pub type KVBytes = (Box<[u8]>, Box<[u8]>);
pub struct DBIterator<'a> {
    items: Box<dyn Iterator<Item = KVBytes> + 'a>,
    db: &'a DB,
    n: u64,
    done: bool,
}
/// the records of a write-ahead log: a database that was never compacted is nothing else
fn replay_log(d: &[u8]) -> Option<BTreeMap<Vec<u8>, Vec<u8>>> {
    let (mut o, mut buf, mut map) = (0, Vec::new(), BTreeMap::new());
    while o + 7 <= d.len() {
        let left = 32768 - o % 32768;
        if left < 7 {
            o += left;
            continue;
        }
        let (len, kind) = (u16::from_le_bytes([d[o + 4], d[o + 5]]) as usize, d[o + 6]);
        let part = d.get(o + 7..o + 7 + len)?;
        o += 7 + len;
        match kind {
            1 | 2 => buf = part.to_vec(),
            3 | 4 => buf.extend(part),
            _ => return None,
        }
        if kind == 1 || kind == 4 {
            let mut r = buf.get(12..)?;
            while let Some((tag, rest)) = r.split_first() {
                if *tag != 1 {
                    return None;
                }
                r = rest;
                let mut slice = || {
                    let (mut n, mut shift) = (0, 0);
                    loop {
                        let (b, rest) = r.split_first()?;
                        r = rest;
                        n |= ((b & 127) as usize) << shift;
                        shift += 7;
                        if *b < 128 {
                            break;
                        }
                    }
                    let v = r.get(..n)?.to_vec();
                    r = &r[n..];
                    Some(v)
                };
                let (k, v) = (slice()?, slice()?);
                map.insert(k, v);
            }
        }
    }
    Some(map)
}
impl DB {
    pub fn open_for_read_only<P: AsRef<std::path::Path>>(_: &Options, path: P, _: bool) -> Result<DB, Error> {
        let d = std::fs::read(path.as_ref().join("000003.log")).map_err(|e| Error::new(e.to_string()))?;
        let map = replay_log(&d).ok_or_else(|| Error::new("Corruption".into()))?;
        Ok(DB::simulated(map, |_| None))
    }
    pub fn simulated(map: BTreeMap<Vec<u8>, Vec<u8>>, fail: impl FnMut(u64) -> Option<String> + 'static) -> DB {
        DB { map, fail: RefCell::new(Box::new(fail)) }
    }
    fn iter<'a>(&'a self, it: impl Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)> + 'a) -> DBIterator<'a> {
        DBIterator { items: Box::new(it.map(|(k, v)| (k.clone().into(), v.clone().into()))), db: self, n: 0, done: false }
    }
    /// without a prefix extractor (as here) this starts at the prefix and runs to the end
    pub fn prefix_iterator<'a, P: AsRef<[u8]>>(&'a self, prefix: P) -> DBIterator<'a> {
        self.iter(self.map.range(prefix.as_ref().to_vec()..))
    }
    pub fn iterator<'a>(&'a self, mode: IteratorMode) -> DBIterator<'a> {
        match mode {
            IteratorMode::Start => self.iter(self.map.iter()),
            IteratorMode::End => self.iter(self.map.iter().rev()),
            IteratorMode::From(k, Direction::Forward) => self.iter(self.map.range(k.to_vec()..)),
            IteratorMode::From(k, Direction::Reverse) => self.iter(self.map.range(..=k.to_vec()).rev()),
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        if let Some(m) = (self.fail.borrow_mut())(0) {
            return Err(Error::new(m));
        }
        Ok(self.map.get(key.as_ref()).cloned())
    }
}
impl<'a> Iterator for DBIterator<'a> {
    type Item = Result<KVBytes, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        let n = self.n;
        self.n += 1;
        if let Some(m) = (self.db.fail.borrow_mut())(n) {
            self.done = true;
            return Some(Err(Error::new(m)));
        }
        match self.items.next() {
            Some(kv) => Some(Ok(kv)),
            None => {
                self.done = true;
                None
            }
        }
    }
}
