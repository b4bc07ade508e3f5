//! Stand-in for ark-ff 0.3: 256-bit integers and prime fields, with the same range checks and panics
//! (`From<BigInteger256>` unwraps `from_repr`), without the performance.
use num::bigint::BigUint;
pub use num::{One, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io::{Read, Result as IoResult, Write};
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub mod bytes {
    pub use super::{FromBytes, ToBytes};
}
pub mod fields {
    pub use super::{Field, PrimeField};
}
pub trait FromBytes: Sized {
    fn read<R: Read>(reader: R) -> IoResult<Self>;
}
pub trait ToBytes {
    fn write<W: Write>(&self, writer: W) -> IoResult<()>;
}

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, Debug)]
pub struct BigInteger256(pub [u64; 4]);
/// a + b and whether it did not fit
fn add4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let (mut r, mut c) = ([0; 4], false);
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (x, c2) = x.overflowing_add(c as u64);
        (r[i], c) = (x, c1 | c2);
    }
    (r, c)
}
/// a - b and whether it was negative
fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let (mut r, mut c) = ([0; 4], false);
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_sub(b[i]);
        let (x, c2) = x.overflowing_sub(c as u64);
        (r[i], c) = (x, c1 | c2);
    }
    (r, c)
}
impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        BigInteger256(v)
    }
    fn big(&self) -> BigUint {
        BigUint::from_bytes_le(&self.le())
    }
    pub fn le(&self) -> [u8; 32] {
        let mut o = [0; 32];
        for (i, x) in self.0.iter().enumerate() {
            o[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
        }
        o
    }
    pub fn from_le(b: &[u8; 32]) -> Self {
        let mut v = [0; 4];
        for (i, x) in v.iter_mut().enumerate() {
            *x = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        BigInteger256(v)
    }
}
pub trait BigInteger: Sized + Copy {
    fn muln(&mut self, n: u32);
    fn to_bytes_le(&self) -> Vec<u8>;
    fn is_zero(&self) -> bool;
}
impl BigInteger for BigInteger256 {
    fn muln(&mut self, n: u32) {
        // shifts out of 256 bits are lost
        let (words, bits) = ((n / 64) as usize, n % 64);
        let old = self.0;
        for i in 0..4 {
            let word = |k: usize| if i >= k { old[i - k] } else { 0 };
            self.0[i] = word(words) << bits | if bits == 0 { 0 } else { word(words + 1) >> (64 - bits) };
        }
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.le().to_vec()
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
}
impl Ord for BigInteger256 {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl PartialOrd for BigInteger256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl fmt::Display for BigInteger256 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.big())
    }
}
impl From<BigInteger256> for BigUint {
    fn from(b: BigInteger256) -> Self {
        b.big()
    }
}
impl From<u64> for BigInteger256 {
    fn from(b: u64) -> Self {
        BigInteger256([b, 0, 0, 0])
    }
}
impl TryFrom<BigUint> for BigInteger256 {
    type Error = String;
    fn try_from(b: BigUint) -> Result<Self, String> {
        let v = b.to_bytes_le();
        if v.len() > 32 {
            return Err(format!("A BigUint of {} bytes cannot fit into a BigInteger256", v.len()));
        }
        let mut o = [0; 32];
        o[..v.len()].copy_from_slice(&v);
        Ok(BigInteger256::from_le(&o))
    }
}
impl FromBytes for BigInteger256 {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut b = [0; 32];
        r.read_exact(&mut b)?;
        Ok(BigInteger256::from_le(&b))
    }
}
impl ToBytes for BigInteger256 {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        w.write_all(&self.le())
    }
}

pub trait Fp256Parameters: 'static + Send + Sync {
    const MODULUS: [u64; 4];
    const NAME: &'static str;
}
pub struct Fp256<P: Fp256Parameters>(pub BigInteger256, PhantomData<P>);
impl<P: Fp256Parameters> Fp256<P> {
    fn modulus() -> BigUint {
        BigInteger256(P::MODULUS).big()
    }
    fn of(b: BigUint) -> Self {
        Fp256((b % Self::modulus()).try_into().unwrap(), PhantomData)
    }
    pub fn size_in_bits() -> usize {
        255
    }
    pub fn from_repr_checked(b: BigInteger256) -> Option<Self> {
        (b < BigInteger256(P::MODULUS)).then_some(Fp256(b, PhantomData))
    }
    /// any 32 bytes, reduced
    pub fn reduce(b: &[u8; 32]) -> Self {
        Self::of(BigUint::from_bytes_le(b))
    }
}
pub trait Field: Copy + PartialEq + Eq + fmt::Debug + Zero + One + Ord + From<u64> + 'static {}
pub trait PrimeField: Field + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt> {
    type BigInt: BigInteger;
    fn from_repr(r: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn size_in_bits() -> usize;
}
impl<P: Fp256Parameters> Field for Fp256<P> {}
impl<P: Fp256Parameters> PrimeField for Fp256<P> {
    type BigInt = BigInteger256;
    fn from_repr(r: BigInteger256) -> Option<Self> {
        Self::from_repr_checked(r)
    }
    fn into_repr(&self) -> BigInteger256 {
        self.0
    }
    fn size_in_bits() -> usize {
        255
    }
}
impl<P: Fp256Parameters> Clone for Fp256<P> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P: Fp256Parameters> Copy for Fp256<P> {}
impl<P: Fp256Parameters> PartialEq for Fp256<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P: Fp256Parameters> Eq for Fp256<P> {}
impl<P: Fp256Parameters> Hash for Fp256<P> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<P: Fp256Parameters> Ord for Fp256<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<P: Fp256Parameters> PartialOrd for Fp256<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: Fp256Parameters> Default for Fp256<P> {
    fn default() -> Self {
        Self::zero()
    }
}
impl<P: Fp256Parameters> fmt::Debug for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}({})", P::NAME, self.0)
    }
}
impl<P: Fp256Parameters> fmt::Display for Fp256<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}({})", P::NAME, self.0)
    }
}
impl<P: Fp256Parameters> From<BigInteger256> for Fp256<P> {
    fn from(b: BigInteger256) -> Self {
        <Self as PrimeField>::from_repr(b).unwrap()
    }
}
impl<P: Fp256Parameters> From<Fp256<P>> for BigInteger256 {
    fn from(f: Fp256<P>) -> Self {
        f.0
    }
}
macro_rules! ints { ($($t:ty)*) => { $(
impl<P: Fp256Parameters> From<$t> for Fp256<P> {
    fn from(b: $t) -> Self { Fp256(BigInteger256([b as u64, 0, 0, 0]), PhantomData) }
})* } }
ints!(u8 u16 u32 u64 bool);
impl<P: Fp256Parameters> Add for Fp256<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        // both are below the modulus, which is below 2^255
        let (sum, _) = add4(&self.0 .0, &o.0 .0);
        let (less, negative) = sub4(&sum, &P::MODULUS);
        Fp256(BigInteger256(if negative { sum } else { less }), PhantomData)
    }
}
impl<P: Fp256Parameters> Sub for Fp256<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let (d, negative) = sub4(&self.0 .0, &o.0 .0);
        Fp256(BigInteger256(if negative { add4(&d, &P::MODULUS).0 } else { d }), PhantomData)
    }
}
impl<P: Fp256Parameters> Mul for Fp256<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Self::of(self.0.big() * o.0.big())
    }
}
impl<P: Fp256Parameters> Neg for Fp256<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::zero() - self
    }
}
impl<P: Fp256Parameters> AddAssign for Fp256<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<P: Fp256Parameters> SubAssign for Fp256<P> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<P: Fp256Parameters> MulAssign for Fp256<P> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<P: Fp256Parameters> Zero for Fp256<P> {
    fn zero() -> Self {
        Fp256(BigInteger256([0; 4]), PhantomData)
    }
    fn is_zero(&self) -> bool {
        self.0 .0 == [0; 4]
    }
}
impl<P: Fp256Parameters> One for Fp256<P> {
    fn one() -> Self {
        Fp256(BigInteger256([1, 0, 0, 0]), PhantomData)
    }
}
impl<P: Fp256Parameters> FromBytes for Fp256<P> {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        Self::from_repr_checked(BigInteger256::read(r)?)
            .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "FromBytes::read failed"))
    }
}
impl<P: Fp256Parameters> ToBytes for Fp256<P> {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.0.write(w)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct P;
    impl Fp256Parameters for P {
        const MODULUS: [u64; 4] = [11037532056220336129, 2469829653914515739, 0, 4611686018427387904];
        const NAME: &'static str = "P";
    }
    #[test]
    fn fixed_width_is_big_integer_arithmetic() {
        let m = Fp256::<P>::modulus();
        let mut x = 88172645463325252u64;
        let mut r = || {
            let mut v = [0; 4];
            for w in v.iter_mut() {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                *w = if x % 5 == 0 { 0 } else if x % 5 == 1 { u64::MAX } else { x };
            }
            v
        };
        for i in 0..20000u32 {
            let (a, b) = (BigInteger256(r()).big() % &m, BigInteger256(r()).big() % &m);
            let (fa, fb) = (Fp256::<P>::of(a.clone()), Fp256::<P>::of(b.clone()));
            assert_eq!((fa + fb).0.big(), (&a + &b) % &m);
            assert_eq!((fa - fb).0.big(), (&a + &m - &b) % &m);
            let v = BigInteger256(r());
            let mut s = v;
            s.muln(i % 256);
            assert_eq!(s.big(), (v.big() << (i % 256) as usize) % (BigUint::one() << 256usize));
        }
    }
}
