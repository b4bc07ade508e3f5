//! Stand-in for bs58 0.4: base58 with the bitcoin alphabet, Base58Check with version bytes.
use sha2::{Digest, Sha256};
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn checksum(b: &[u8]) -> [u8; 4] {
    let h = Sha256::digest(Sha256::digest(b));
    [h[0], h[1], h[2], h[3]]
}
pub mod decode {
    use std::fmt;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        InvalidChecksum { checksum: [u8; 4], expected_checksum: [u8; 4] },
        InvalidVersion { ver: u8, expected_ver: u8 },
        NoChecksum,
    }
    impl std::error::Error for Error {}
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    pub struct DecodeBuilder<I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Option<Option<u8>>,
    }
    impl<I: AsRef<[u8]>> DecodeBuilder<I> {
        pub fn with_check(mut self, ver: Option<u8>) -> Self {
            self.check = Some(ver);
            self
        }
        pub fn into_vec(self) -> Result<Vec<u8>> {
            let mut out: Vec<u8> = vec![];
            let input = self.input.as_ref();
            for (index, c) in input.iter().enumerate() {
                if *c > 127 {
                    return Err(Error::NonAsciiCharacter { index });
                }
                let mut v = super::ALPHABET
                    .iter()
                    .position(|a| a == c)
                    .ok_or(Error::InvalidCharacter { character: *c as char, index })?;
                for b in out.iter_mut() {
                    v += *b as usize * 58;
                    *b = v as u8;
                    v >>= 8;
                }
                while v > 0 {
                    out.push(v as u8);
                    v >>= 8;
                }
            }
            for c in input {
                if *c == b'1' {
                    out.push(0)
                } else {
                    break;
                }
            }
            out.reverse();
            let Some(ver) = self.check else { return Ok(out) };
            if out.len() < 4 {
                return Err(Error::NoChecksum);
            }
            let n = out.len() - 4;
            let expected_checksum = super::checksum(&out[..n]);
            let checksum: [u8; 4] = out[n..].try_into().unwrap();
            if checksum != expected_checksum {
                return Err(Error::InvalidChecksum { checksum, expected_checksum });
            }
            out.truncate(n);
            if let Some(expected_ver) = ver {
                match out.first() {
                    Some(v) if *v == expected_ver => {}
                    Some(v) => return Err(Error::InvalidVersion { ver: *v, expected_ver }),
                    None => return Err(Error::NoChecksum),
                }
            }
            Ok(out)
        }
    }
}
pub mod encode {
    pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Option<Option<u8>>,
        pub(crate) _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
        pub fn with_check(mut self) -> Self {
            self.check = Some(None);
            self
        }
        pub fn with_check_version(mut self, v: u8) -> Self {
            self.check = Some(Some(v));
            self
        }
        pub fn into_string(self) -> String {
            let mut data = vec![];
            match self.check {
                None => data.extend_from_slice(self.input.as_ref()),
                Some(v) => {
                    data.extend(v);
                    data.extend_from_slice(self.input.as_ref());
                    let c = super::checksum(&data);
                    data.extend_from_slice(&c);
                }
            }
            let mut out: Vec<u8> = vec![];
            for b in &data {
                let mut v = *b as usize;
                for d in out.iter_mut() {
                    v += (*d as usize) << 8;
                    *d = (v % 58) as u8;
                    v /= 58;
                }
                while v > 0 {
                    out.push((v % 58) as u8);
                    v /= 58;
                }
            }
            for b in &data {
                if *b == 0 {
                    out.push(0)
                } else {
                    break;
                }
            }
            out.iter().rev().map(|d| super::ALPHABET[*d as usize] as char).collect()
        }
        pub fn into_vec(self) -> Vec<u8> {
            self.into_string().into_bytes()
        }
    }
}
pub fn decode<I: AsRef<[u8]>>(input: I) -> decode::DecodeBuilder<I> {
    decode::DecodeBuilder { input, check: None }
}
pub fn encode<'a, I: AsRef<[u8]>>(input: I) -> encode::EncodeBuilder<'a, I> {
    encode::EncodeBuilder { input, check: None, _p: std::marker::PhantomData }
}
