//! Stand-in for mina-signer: addresses are encoded and checked as by the real one; signatures are
//! keyed hashes instead of Schnorr signatures (valid iff made by the key over the message).
pub use mina_curves::pasta::{Fp, Fq};
use mina_hasher::{hash_of, DomainParameter, Hashable, ROInput};
use o1_utils::FieldHelpers;
use std::marker::PhantomData;

pub type BaseField = Fp;
pub type ScalarField = Fq;

pub mod pubkey {
    #[derive(thiserror::Error, Debug, Clone, PartialEq, Eq)]
    pub enum PubKeyError {
        #[error("Invalid address length")]
        AddressLength,
        #[error("Invalid address base58 encoding")]
        AddressBase58,
        #[error("Invalid raw address bytes length")]
        AddressRawByteLength,
        #[error("Invalid address checksum")]
        AddressChecksum,
        #[error("Invalid address version")]
        AddressVersion,
        #[error("Invalid x-coordinate")]
        XCoordinate,
        #[error("Invalid x-coordinate bytes")]
        XCoordinateBytes,
        #[error("Invalid y-coordinate parity")]
        YCoordinateParityBytes,
        #[error("Invalid secret key hex")]
        SecKey,
    }
    pub type Result<T> = std::result::Result<T, PubKeyError>;
}
use pubkey::PubKeyError;
pub type KeypairError = PubKeyError;
pub mod keypair {
    pub use super::{Keypair, KeypairError};
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompressedPubKey {
    pub x: Fp,
    pub is_odd: bool,
}
impl CompressedPubKey {
    pub fn empty() -> Self {
        Self { x: Fp::from(0u64), is_odd: false }
    }
    pub fn from_address(a: &str) -> pubkey::Result<Self> {
        if a.len() != 55 {
            return Err(PubKeyError::AddressLength);
        }
        let b = bs58::decode(a).with_check(None).into_vec().map_err(|_| PubKeyError::AddressBase58)?;
        if b.len() != 36 {
            return Err(PubKeyError::AddressRawByteLength);
        }
        if b[..3] != [0xcb, 1, 1] {
            return Err(PubKeyError::AddressVersion);
        }
        let x = Fp::from_bytes(&b[3..35]).map_err(|_| PubKeyError::XCoordinateBytes)?;
        match b[35] {
            0 | 1 => Ok(Self { x, is_odd: b[35] == 1 }),
            _ => Err(PubKeyError::YCoordinateParityBytes),
        }
    }
    pub fn into_address(&self) -> String {
        let mut v = vec![0xcb, 1, 1];
        v.extend(self.x.to_bytes());
        v.push(self.is_odd as u8);
        bs58::encode(v).with_check().into_string()
    }
}
thread_local! {
    static ON_CURVE: std::cell::RefCell<std::collections::HashMap<Fp, bool>> = Default::default();
}
/// whether a point of the curve y^2 = x^3 + 5 has this x coordinate
pub fn on_curve(x: &Fp) -> bool {
    ON_CURVE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 100_000 {
            c.clear();
        }
        *c.entry(*x).or_insert_with(|| {
            let y2 = *x * *x * *x + Fp::from(5u64);
            // Euler's criterion: y2 ^ ((p - 1) / 2)
            let mut e = (Fp::from(0u64) - Fp::from(1u64)).to_bytes();
            let mut carry = 0;
            for b in e.iter_mut().rev() {
                let n = *b & 1;
                *b = *b >> 1 | carry << 7;
                carry = n;
            }
            let mut r = Fp::from(1u64);
            for b in e.iter().rev() {
                for i in (0..8).rev() {
                    r = r * r;
                    if b >> i & 1 == 1 {
                        r = r * y2;
                    }
                }
            }
            y2 == Fp::from(0u64) || r == Fp::from(1u64)
        })
    })
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PubKey(CompressedPubKey);
impl PubKey {
    pub fn from_address(a: &str) -> pubkey::Result<Self> {
        let k = CompressedPubKey::from_address(a)?;
        if !on_curve(&k.x) {
            return Err(PubKeyError::XCoordinate);
        }
        Ok(PubKey(k))
    }
    pub fn into_compressed(&self) -> CompressedPubKey {
        self.0.clone()
    }
    pub fn into_address(&self) -> String {
        self.0.into_address()
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Keypair {
    pub public: PubKey,
}
impl Keypair {
    pub fn from_hex(h: &str) -> Result<Self, KeypairError> {
        // most significant byte first
        let mut b = hex::decode(h).map_err(|_| PubKeyError::SecKey)?;
        b.reverse();
        let s = Fq::from_bytes(&b).map_err(|_| PubKeyError::SecKey)?;
        let mut r = ROInput::new();
        r = r.append_bytes(&s.to_bytes());
        let mut x = hash_of("key", None, &r);
        while !on_curve(&x) {
            x += Fp::from(1u64);
        }
        Ok(Keypair { public: PubKey(CompressedPubKey { x, is_odd: s.to_bytes()[0] & 1 == 1 }) })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Signature {
    pub rx: Fp,
    pub s: Fq,
}
impl Signature {
    pub fn new(rx: Fp, s: Fq) -> Self {
        Self { rx, s }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum NetworkId {
    TESTNET = 0,
    MAINNET = 1,
}
impl DomainParameter for NetworkId {
    fn into_bytes(self) -> Vec<u8> {
        vec![self as u8]
    }
}
impl From<NetworkId> for u8 {
    fn from(n: NetworkId) -> u8 {
        n as u8
    }
}
pub trait Signer<H: Hashable> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature;
    fn verify(&mut self, sig: &Signature, public: &PubKey, input: &H) -> bool;
}
/// the one valid signature by this key of this input
pub fn mac(domain: Option<String>, p: &CompressedPubKey, input: ROInput) -> Signature {
    let r = input.append_field(p.x).append_bool(p.is_odd);
    let rx = hash_of("rx", domain.clone(), &r);
    let s = hash_of("s", domain, &r);
    let mut b: [u8; 32] = s.to_bytes().try_into().unwrap();
    b[31] &= 0x3f;
    Signature { rx, s: Fq::reduce(&b) }
}
pub struct StubSigner<H: Hashable>(H::D, PhantomData<H>);
impl<H: Hashable> StubSigner<H> {
    fn mac(&self, p: &PubKey, input: &H) -> Signature {
        mac(H::domain_string(self.0.clone()), &p.0, input.to_roinput())
    }
}
impl<H: Hashable> Signer<H> for StubSigner<H> {
    fn sign(&mut self, kp: &Keypair, input: &H) -> Signature {
        self.mac(&kp.public, input)
    }
    fn verify(&mut self, sig: &Signature, public: &PubKey, input: &H) -> bool {
        self.mac(public, input) == *sig
    }
}
pub fn create_legacy<H: Hashable<D = NetworkId>>(d: NetworkId) -> impl Signer<H> {
    StubSigner::<H>(d, PhantomData)
}
pub fn create_kimchi<H: Hashable<D = NetworkId>>(d: NetworkId) -> impl Signer<H> {
    StubSigner::<H>(d, PhantomData)
}
