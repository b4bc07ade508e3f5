//! Stand-in for multihash: the one hash that is used.
pub trait Hasher {
    fn update(&mut self, x: &[u8]);
    fn finalize(&mut self) -> &[u8];
    fn reset(&mut self);
}
#[derive(Default, Debug)]
pub struct Blake2b256 {
    data: Vec<u8>,
    out: Vec<u8>,
}
impl Hasher for Blake2b256 {
    fn update(&mut self, x: &[u8]) {
        self.data.extend(x)
    }
    fn finalize(&mut self) -> &[u8] {
        self.out = blake2::blake2b(&self.data, 32);
        &self.out
    }
    fn reset(&mut self) {
        *self = Self::default()
    }
}
