//! XSalsa20-Poly1305 as in NaCl's secretbox, with the interface of the crate 0.9 that is used.
use generic_array::{typenum::{U24, U32}, GenericArray};

pub mod aead {
    pub use generic_array;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("aead::Error")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct Payload<'msg, 'aad> {
        pub msg: &'msg [u8],
        pub aad: &'aad [u8],
    }
    impl<'msg, 'aad> From<&'msg [u8]> for Payload<'msg, 'aad> {
        fn from(msg: &'msg [u8]) -> Self {
            Payload { msg, aad: b"" }
        }
    }
    pub trait Aead {
        fn decrypt<'msg, 'aad>(&self, nonce: &super::Nonce, c: impl Into<Payload<'msg, 'aad>>) -> Result<Vec<u8>>;
        fn encrypt<'msg, 'aad>(&self, nonce: &super::Nonce, m: impl Into<Payload<'msg, 'aad>>) -> Result<Vec<u8>>;
    }
    pub trait KeyInit: Sized {
        fn new(key: &super::Key) -> Self;
        fn new_from_slice(key: &[u8]) -> std::result::Result<Self, InvalidLength> {
            (key.len() == 32).then(|| Self::new(super::Key::from_slice(key))).ok_or(InvalidLength)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct InvalidLength;
    impl std::fmt::Display for InvalidLength {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Invalid Length")
        }
    }
}
pub use aead::{Error, KeyInit};
pub type Nonce = GenericArray<u8, U24>;
pub type Key = GenericArray<u8, U32>;
pub const KEY_SIZE: usize = 32;
pub const NONCE_SIZE: usize = 24;
pub const TAG_SIZE: usize = 16;
#[derive(Clone)]
pub struct XSalsa20Poly1305([u8; 32]);
impl KeyInit for XSalsa20Poly1305 {
    fn new(key: &Key) -> Self {
        XSalsa20Poly1305(key.as_slice().try_into().unwrap())
    }
}
impl aead::Aead for XSalsa20Poly1305 {
    fn decrypt<'msg, 'aad>(&self, nonce: &Nonce, c: impl Into<aead::Payload<'msg, 'aad>>) -> aead::Result<Vec<u8>> {
        open(&self.0, nonce.as_slice().try_into().unwrap(), c.into().msg).ok_or(Error)
    }
    fn encrypt<'msg, 'aad>(&self, nonce: &Nonce, m: impl Into<aead::Payload<'msg, 'aad>>) -> aead::Result<Vec<u8>> {
        Ok(seal(&self.0, nonce.as_slice().try_into().unwrap(), m.into().msg))
    }
}
fn words<const N: usize>(b: &[u8]) -> [u32; N] {
    std::array::from_fn(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()))
}
/// key and 16 bytes of input; the 16 words after 20 rounds, and the words before
fn salsa(key: &[u8; 32], n: &[u8; 16]) -> ([u32; 16], [u32; 16]) {
    let (k, n, c): ([u32; 8], [u32; 4], [u32; 4]) = (words(key), words(n), words(b"expand 32-byte k"));
    let s = [c[0], k[0], k[1], k[2], k[3], c[1], n[0], n[1], n[2], n[3], c[2], k[4], k[5], k[6], k[7], c[3]];
    let mut x = s;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
        x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
        x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
        x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(5, 9, 13, 1);
        q(10, 14, 2, 6);
        q(15, 3, 7, 11);
        q(0, 1, 2, 3);
        q(5, 6, 7, 4);
        q(10, 11, 8, 9);
        q(15, 12, 13, 14);
    }
    (x, s)
}
fn stream(key: &[u8; 32], nonce: &[u8; 24], n: usize) -> Vec<u8> {
    let (x, _) = salsa(key, nonce[..16].try_into().unwrap());
    let mut sub = [0u8; 32];
    for (i, w) in [0, 5, 10, 15, 6, 7, 8, 9].into_iter().enumerate() {
        sub[4 * i..4 * i + 4].copy_from_slice(&x[w].to_le_bytes());
    }
    let mut o = vec![];
    let mut c = 0u64;
    while o.len() < n {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&nonce[16..]);
        b[8..].copy_from_slice(&c.to_le_bytes());
        let (x, s) = salsa(&sub, &b);
        for i in 0..16 {
            o.extend(x[i].wrapping_add(s[i]).to_le_bytes());
        }
        c += 1;
    }
    o.truncate(n);
    o
}
fn poly1305(key: &[u8], m: &[u8]) -> [u8; 16] {
    // numbers below 2^130 as five limbs of 26 bits
    let limbs = |b: &[u8; 17]| -> [u64; 5] {
        let lo = u128::from_le_bytes(b[..16].try_into().unwrap());
        std::array::from_fn(|i| if i < 4 { (lo >> (26 * i)) as u64 & 0x3ff_ffff } else { (lo >> 104) as u64 | (b[16] as u64) << 24 })
    };
    let mut rk = [0u8; 17];
    rk[..16].copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] {
        rk[i] &= 15;
    }
    for i in [4, 8, 12] {
        rk[i] &= 252;
    }
    let r = limbs(&rk);
    let mut h = [0u64; 5];
    for c in m.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        let l = limbs(&b);
        for i in 0..5 {
            h[i] += l[i];
        }
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                d[(i + j) % 5] += h[i] * r[j] * if i + j >= 5 { 5 } else { 1 };
            }
        }
        let mut carry = 0;
        for x in d.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= 0x3ff_ffff;
        }
        d[0] += carry * 5;
        d[1] += d[0] >> 26;
        d[0] &= 0x3ff_ffff;
        h = d;
    }
    // reduce completely
    for _ in 0..3 {
        let mut carry = 0;
        for x in h.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= 0x3ff_ffff;
        }
        h[0] += carry * 5;
    }
    let mut g = h;
    let mut carry = 5;
    for x in g.iter_mut() {
        *x += carry;
        carry = *x >> 26;
        *x &= 0x3ff_ffff;
    }
    if carry > 0 {
        h = g;
    }
    let mut v = 0u128;
    for i in 0..5 {
        v = v.wrapping_add((h[i] as u128) << (26 * i));
    }
    v.wrapping_add(u128::from_le_bytes(key[16..32].try_into().unwrap())).to_le_bytes()
}
/// tag, then the encrypted bytes
pub fn seal(key: &[u8; 32], nonce: &[u8; 24], m: &[u8]) -> Vec<u8> {
    let s = stream(key, nonce, 32 + m.len());
    let c: Vec<u8> = m.iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect();
    let mut o = poly1305(&s[..32], &c).to_vec();
    o.extend(c);
    o
}
pub fn open(key: &[u8; 32], nonce: &[u8; 24], c: &[u8]) -> Option<Vec<u8>> {
    if c.len() < 16 {
        return None;
    }
    let s = stream(key, nonce, 32 + c.len() - 16);
    if poly1305(&s[..32], &c[16..]) != c[..16] {
        return None;
    }
    Some(c[16..].iter().zip(&s[32..]).map(|(a, b)| a ^ b).collect())
}
