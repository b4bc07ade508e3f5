//! Stand-in for mina-hasher: the same interface, with SHA-256 (reduced into the field) in place of
//! Poseidon. A function of the domain string and of the random oracle input, as the real one.
pub use mina_curves::pasta::Fp;
use o1_utils::FieldHelpers;
use sha2::{Digest, Sha256};
use std::marker::PhantomData;

#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct ROInput {
    fields: Vec<Fp>,
    bits: Vec<bool>,
}
impl ROInput {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn append_roinput(mut self, mut o: ROInput) -> Self {
        self.fields.append(&mut o.fields);
        self.bits.append(&mut o.bits);
        self
    }
    pub fn append_hashable(self, h: &impl Hashable) -> Self {
        self.append_roinput(h.to_roinput())
    }
    pub fn append_field(mut self, f: Fp) -> Self {
        self.fields.push(f);
        self
    }
    pub fn append_bool(mut self, b: bool) -> Self {
        self.bits.push(b);
        self
    }
    pub fn append_bytes(mut self, bytes: &[u8]) -> Self {
        for b in bytes {
            for i in 0..8 {
                self.bits.push(b >> i & 1 == 1);
            }
        }
        self
    }
    pub fn append_u32(self, x: u32) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn append_u64(self, x: u64) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    fn feed(&self, h: &mut Sha256) {
        h.update((self.fields.len() as u64).to_le_bytes());
        for f in &self.fields {
            h.update(f.to_bytes());
        }
        h.update((self.bits.len() as u64).to_le_bytes());
        h.update(self.bits.iter().map(|b| *b as u8).collect::<Vec<_>>());
    }
}
pub trait DomainParameter: Clone {
    fn into_bytes(self) -> Vec<u8>;
}
impl DomainParameter for () {
    fn into_bytes(self) -> Vec<u8> {
        vec![]
    }
}
impl DomainParameter for u32 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
impl DomainParameter for u64 {
    fn into_bytes(self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
pub trait Hashable: Clone {
    type D: DomainParameter;
    fn to_roinput(&self) -> ROInput;
    fn domain_string(domain_param: Self::D) -> Option<String>;
}
pub trait Hasher<H: Hashable> {
    fn hash(&mut self, input: &H) -> Fp;
    fn init_and_hash(&mut self, domain_param: H::D, input: &H) -> Fp;
}
pub struct StubHasher<H: Hashable>(&'static str, H::D, PhantomData<H>);
pub fn hash_of(kind: &str, domain: Option<String>, roi: &ROInput) -> Fp {
    let mut h = Sha256::new();
    h.update(kind);
    h.update(domain.clone().unwrap_or_default());
    h.update([0, domain.is_some() as u8]);
    roi.feed(&mut h);
    let mut b: [u8; 32] = h.finalize().into();
    b[31] &= 0x3f;
    Fp::reduce(&b)
}
impl<H: Hashable> Hasher<H> for StubHasher<H> {
    fn hash(&mut self, input: &H) -> Fp {
        hash_of(self.0, H::domain_string(self.1.clone()), &input.to_roinput())
    }
    fn init_and_hash(&mut self, d: H::D, input: &H) -> Fp {
        self.1 = d;
        self.hash(input)
    }
}
pub type PoseidonHasherLegacy<H> = StubHasher<H>;
pub type PoseidonHasherKimchi<H> = StubHasher<H>;
pub fn create_legacy<H: Hashable>(d: H::D) -> PoseidonHasherLegacy<H> {
    StubHasher("legacy", d, PhantomData)
}
pub fn create_kimchi<H: Hashable>(d: H::D) -> PoseidonHasherKimchi<H> {
    StubHasher("kimchi", d, PhantomData)
}
