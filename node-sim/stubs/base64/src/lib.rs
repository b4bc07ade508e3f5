//! Stand-in for base64 0.13 (padded, standard and URL alphabets).
#[derive(Clone, Copy, Debug)]
pub struct Config(bool);
pub const STANDARD: Config = Config(false);
pub const URL_SAFE: Config = Config(true);
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}
fn alphabet(c: Config) -> Vec<u8> {
    let mut v: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect();
    v.extend(if c.0 { *b"-_" } else { *b"+/" });
    v
}
pub fn encode<T: AsRef<[u8]>>(t: T) -> String {
    encode_config(t, STANDARD)
}
pub fn encode_config<T: AsRef<[u8]>>(t: T, c: Config) -> String {
    let a = alphabet(c);
    let mut s = String::new();
    for ch in t.as_ref().chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                s.push(a[(n >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}
pub fn decode<T: AsRef<[u8]>>(t: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(t, STANDARD)
}
pub fn decode_config<T: AsRef<[u8]>>(t: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let a = alphabet(c);
    let t = t.as_ref();
    if t.len() % 4 != 0 {
        return Err(DecodeError::InvalidLength);
    }
    let mut o = vec![];
    let last = t.len() / 4;
    for (k, ch) in t.chunks(4).enumerate() {
        let pad = if k + 1 == last { ch.iter().rev().take_while(|c| **c == b'=').count().min(2) } else { 0 };
        let mut n = 0u32;
        for (i, x) in ch.iter().enumerate() {
            let v = if i >= 4 - pad {
                0
            } else {
                a.iter().position(|y| y == x).ok_or(DecodeError::InvalidByte(k * 4 + i, *x))?
            };
            n = n << 6 | v as u32;
        }
        let b = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        if b[3 - pad..].iter().any(|x| *x != 0) {
            return Err(DecodeError::InvalidLastSymbol(k * 4 + 3 - pad, ch[3 - pad]));
        }
        o.extend_from_slice(&b[..3 - pad]);
    }
    Ok(o)
}
