//! Stand-in for protobuf: messages of scalar fields in proto3's wire format.
use std::fmt;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait Message: Default + Clone + fmt::Debug + PartialEq {
    fn new() -> Self {
        Self::default()
    }
    fn write_to_bytes(&self) -> Result<Vec<u8>>;
    fn parse_from_bytes(b: &[u8]) -> Result<Self>;
}

pub mod sim {
    use super::*;
    pub fn varint(o: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            o.push(v as u8 | 0x80);
            v >>= 7;
        }
        o.push(v as u8);
    }
    pub fn text(o: &mut Vec<u8>, field: u64, s: &str) {
        if !s.is_empty() {
            varint(o, field << 3 | 2);
            varint(o, s.len() as u64);
            o.extend(s.as_bytes());
        }
    }
    pub fn number(o: &mut Vec<u8>, field: u64, v: u64) {
        if v != 0 {
            varint(o, field << 3);
            varint(o, v);
        }
    }
    pub enum Item {
        Number(u64),
        Text(Vec<u8>),
        Other,
    }
    pub fn parse(mut b: &[u8]) -> Result<Vec<(u64, Item)>> {
        let e = |s: &str| Error(s.into());
        let mut v = vec![];
        while !b.is_empty() {
            let k = read(&mut b)?;
            if k >> 3 == 0 || k >> 32 != 0 {
                return Err(e("field number"));
            }
            let x = match k & 7 {
                0 => Item::Number(read(&mut b)?),
                1 => skip(&mut b, 8).map(|_| Item::Other)?,
                2 => {
                    let n = read(&mut b)?;
                    Item::Text(skip(&mut b, n)?.to_vec())
                }
                5 => skip(&mut b, 4).map(|_| Item::Other)?,
                _ => return Err(e("wire type")),
            };
            v.push((k >> 3, x));
        }
        Ok(v)
    }
    fn skip<'a>(b: &mut &'a [u8], n: u64) -> Result<&'a [u8]> {
        if n > b.len() as u64 {
            return Err(Error("end of input".into()));
        }
        let (x, r) = b.split_at(n as usize);
        *b = r;
        Ok(x)
    }
    fn read(b: &mut &[u8]) -> Result<u64> {
        let mut v = 0u64;
        for k in 0..10 {
            let x = skip(b, 1)?[0];
            v |= (x as u64 & 0x7f).checked_shl(7 * k).unwrap_or(0);
            if x < 0x80 {
                return Ok(v);
            }
        }
        Err(Error("varint".into()))
    }
}
