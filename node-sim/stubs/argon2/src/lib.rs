//! Argon2i, version 0x13, one lane (RFC 9106), with the interface of the argon2 crate 0.4 that is used.
use std::fmt;

/// 32 bytes from password and salt with `m` KiB of memory and `t` passes
pub fn argon2i(password: &[u8], salt: &[u8], m: u32, t: u32) -> [u8; 32] {
    let blake = |parts: &[&[u8]], n: usize| blake2::blake2b(&parts.concat(), n);
    let le = |x: u32| x.to_le_bytes();
    let h0 = blake(&[&le(1), &le(32), &le(m), &le(t), &le(0x13), &le(1), &le(password.len() as u32), password, &le(salt.len() as u32), salt, &le(0), &le(0)], 64);
    let long = |x: &[u8]| -> Block {
        let mut out = vec![];
        let mut v = blake(&[&le(1024), x], 64);
        while out.len() < 1024 - 64 {
            out.extend_from_slice(&v[..32]);
            v = blake(&[&v], 64);
        }
        out.extend_from_slice(&v);
        let mut b = [0u64; 128];
        for (i, w) in b.iter_mut().enumerate() {
            *w = u64::from_le_bytes(out[8 * i..8 * i + 8].try_into().unwrap());
        }
        b
    };
    let q = (m / 4 * 4) as usize;
    let seg = q / 4;
    let mut mem = vec![[0u64; 128]; q];
    mem[0] = long(&[&h0[..], &le(0), &le(0)].concat());
    mem[1] = long(&[&h0[..], &le(1), &le(0)].concat());
    for pass in 0..t as usize {
        for slice in 0..4 {
            let mut addr = [0u64; 128];
            let mut counter = 0u64;
            for i in 0..seg {
                if i % 128 == 0 {
                    counter += 1;
                    let mut z = [0u64; 128];
                    z[..7].copy_from_slice(&[pass as u64, 0, slice as u64, q as u64, t as u64, 1, counter]);
                    let zero = [0u64; 128];
                    addr = compress(&zero, &compress(&zero, &z));
                }
                if pass == 0 && slice == 0 && i < 2 {
                    continue;
                }
                let pos = slice * seg + i;
                let prev = if pos == 0 { q - 1 } else { pos - 1 };
                let area = if pass == 0 { pos - 1 } else { q - seg + i - 1 } as u64;
                let j1 = addr[i % 128] & 0xffff_ffff;
                let y = (area * (j1 * j1 >> 32)) >> 32;
                let z = area - 1 - y;
                let start = if pass == 0 || slice == 3 { 0 } else { (slice + 1) * seg };
                let b = compress(&mem[prev], &mem[(start + z as usize) % q]);
                for (o, x) in mem[pos].iter_mut().zip(b) {
                    *o = if pass == 0 { x } else { *o ^ x };
                }
            }
        }
    }
    let last: Vec<u8> = mem[q - 1].iter().flat_map(|w| w.to_le_bytes()).collect();
    blake(&[&le(32), &last], 32).try_into().unwrap()
}
type Block = [u64; 128];
fn compress(x: &Block, y: &Block) -> Block {
    let mut r = [0u64; 128];
    for i in 0..128 {
        r[i] = x[i] ^ y[i];
    }
    let mut q = r;
    for row in 0..8 {
        let k: [usize; 16] = std::array::from_fn(|i| 16 * row + i);
        round(&mut q, &k);
    }
    for col in 0..8 {
        let k: [usize; 16] = std::array::from_fn(|i| 16 * (i / 2) + 2 * col + i % 2);
        round(&mut q, &k);
    }
    for i in 0..128 {
        q[i] ^= r[i];
    }
    q
}
fn round(q: &mut Block, k: &[usize; 16]) {
    let f = |a: u64, b: u64| a.wrapping_add(b).wrapping_add(2u64.wrapping_mul((a & 0xffff_ffff) * (b & 0xffff_ffff)));
    let mut g = |a: usize, b: usize, c: usize, d: usize| {
        let (a, b, c, d) = (k[a], k[b], k[c], k[d]);
        q[a] = f(q[a], q[b]);
        q[d] = (q[d] ^ q[a]).rotate_right(32);
        q[c] = f(q[c], q[d]);
        q[b] = (q[b] ^ q[c]).rotate_right(24);
        q[a] = f(q[a], q[b]);
        q[d] = (q[d] ^ q[a]).rotate_right(16);
        q[c] = f(q[c], q[d]);
        q[b] = (q[b] ^ q[c]).rotate_right(63);
    };
    g(0, 4, 8, 12);
    g(1, 5, 9, 13);
    g(2, 6, 10, 14);
    g(3, 7, 11, 15);
    g(0, 5, 10, 15);
    g(1, 6, 11, 12);
    g(2, 7, 8, 13);
    g(3, 4, 9, 14);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error {
    MemoryTooLittle,
    OutputTooShort,
    SaltTooShort,
    TimeTooSmall,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Algorithm {
    Argon2d,
    Argon2i,
    #[default]
    Argon2id,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Version {
    V0x10,
    #[default]
    V0x13,
}
#[derive(Clone, Debug)]
pub struct Params {
    m: u32,
    t: u32,
}
impl Params {
    pub const MIN_M_COST: u32 = 8;
    pub const DEFAULT_M_COST: u32 = 4096;
    pub const DEFAULT_T_COST: u32 = 3;
    pub fn new(m: u32, t: u32, p: u32, _out: Option<usize>) -> Result<Self, Error> {
        assert!(p == 1, "one lane");
        let mut b = ParamsBuilder::new();
        b.m_cost(m)?;
        b.t_cost(t)?;
        b.params()
    }
    pub fn m_cost(&self) -> u32 {
        self.m
    }
    pub fn t_cost(&self) -> u32 {
        self.t
    }
}
#[derive(Clone, Debug)]
pub struct ParamsBuilder(Params);
impl Default for ParamsBuilder {
    fn default() -> Self {
        ParamsBuilder(Params { m: Params::DEFAULT_M_COST, t: Params::DEFAULT_T_COST })
    }
}
impl ParamsBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn m_cost(&mut self, m: u32) -> Result<&mut Self, Error> {
        if m < Params::MIN_M_COST {
            return Err(Error::MemoryTooLittle);
        }
        self.0.m = m;
        Ok(self)
    }
    pub fn t_cost(&mut self, t: u32) -> Result<&mut Self, Error> {
        if t < 1 {
            return Err(Error::TimeTooSmall);
        }
        self.0.t = t;
        Ok(self)
    }
    pub fn params(self) -> Result<Params, Error> {
        Ok(self.0)
    }
}
/// how often, and with how much work, passwords were hashed
pub mod sim {
    thread_local!(pub static LIMIT: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) });
    pub const TOO_MUCH: &str = "simulation: more memory or passes than the file has";
}
#[derive(Clone)]
pub struct Argon2<'key> {
    alg: Algorithm,
    v: Version,
    params: Params,
    _k: std::marker::PhantomData<&'key ()>,
}
impl<'key> Argon2<'key> {
    pub fn new(alg: Algorithm, v: Version, params: Params) -> Self {
        Argon2 { alg, v, params, _k: Default::default() }
    }
    pub fn hash_password_into(&self, pwd: &[u8], salt: &[u8], out: &mut [u8]) -> Result<(), Error> {
        if out.len() < 4 {
            return Err(Error::OutputTooShort);
        }
        if salt.len() < 8 {
            return Err(Error::SaltTooShort);
        }
        let Params { m, t } = self.params;
        if m as u64 * t as u64 > sim::LIMIT.with(|l| l.get()) {
            panic!("{}: {m} KiB, {t} passes", sim::TOO_MUCH);
        }
        let mut h = argon2i(pwd, salt, m, t).to_vec();
        // another variant or length: other bytes
        if self.alg != Algorithm::Argon2i || self.v != Version::V0x13 || out.len() != 32 {
            h = blake2::blake2b(&[&h[..], &[self.alg as u8, self.v as u8, out.len() as u8]].concat(), 64);
        }
        for (i, o) in out.iter_mut().enumerate() {
            *o = h[i % h.len()];
        }
        Ok(())
    }
}
pub trait PasswordHasher {
    fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> password_hash::Result<PasswordHash<'a>>;
}
impl PasswordHasher for Argon2<'_> {
    fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> password_hash::Result<PasswordHash<'a>> {
        let mut buf = [0u8; 64];
        let salt = password_hash::b64_decode(salt.as_ref(), &mut buf)?;
        let mut out = [0u8; 32];
        self.hash_password_into(password, salt, &mut out).map_err(|_| password_hash::Error::Crypto)?;
        Ok(PasswordHash { hash: Some(password_hash::Output(out)), _s: Default::default() })
    }
}
pub use password_hash::PasswordHash;
pub mod password_hash {
    use super::fmt;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum Error {
        B64Encoding,
        Crypto,
        SaltInvalid,
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Output(pub(crate) [u8; 32]);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn len(&self) -> usize {
            32
        }
    }
    impl AsRef<[u8]> for Output {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Clone, Debug)]
    pub struct PasswordHash<'a> {
        pub hash: Option<Output>,
        pub(crate) _s: std::marker::PhantomData<&'a ()>,
    }
    const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    pub(crate) fn b64_decode<'b>(s: &str, buf: &'b mut [u8]) -> Result<&'b [u8]> {
        let n = s.len() * 3 / 4;
        if n > buf.len() {
            return Err(Error::B64Encoding);
        }
        let (mut acc, mut bits, mut k) = (0u32, 0, 0);
        for c in s.bytes() {
            acc = acc << 6 | B64.iter().position(|b| *b == c).ok_or(Error::B64Encoding)? as u32;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                buf[k] = (acc >> bits) as u8;
                k += 1;
            }
        }
        Ok(&buf[..k])
    }
    /// the salt in base64 without padding, at most 48 characters
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn b64_encode(b: &[u8]) -> Result<Self> {
            let (mut s, mut acc, mut bits) = (String::new(), 0u32, 0);
            for x in b {
                acc = acc << 8 | *x as u32;
                bits += 8;
                while bits >= 6 {
                    bits -= 6;
                    s.push(B64[(acc >> bits & 63) as usize] as char);
                }
            }
            if bits > 0 {
                s.push(B64[(acc << (6 - bits) & 63) as usize] as char);
            }
            if s.len() > 48 {
                return Err(Error::B64Encoding);
            }
            if s.len() < 4 {
                return Err(Error::SaltInvalid);
            }
            Ok(SaltString(s))
        }
        pub fn b64_decode<'b>(&self, buf: &'b mut [u8]) -> Result<&'b [u8]> {
            b64_decode(&self.0, buf)
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl AsRef<str> for SaltString {
        fn as_ref(&self) -> &str {
            &self.0
        }
    }
}
