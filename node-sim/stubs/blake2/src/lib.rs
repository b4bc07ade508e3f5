//! BLAKE2b (RFC 7693) without key, with variable output size.
pub use digest;
use digest::{InvalidBufferSize, InvalidOutputSize, Update, VariableOutput};

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f,
    0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const S: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
#[derive(Clone)]
pub struct Blake2bVar {
    data: Vec<u8>,
    out: usize,
}
impl Update for Blake2bVar {
    fn update(&mut self, d: &[u8]) {
        self.data.extend_from_slice(d)
    }
}
impl VariableOutput for Blake2bVar {
    const MAX_OUTPUT_SIZE: usize = 64;
    fn new(n: usize) -> Result<Self, InvalidOutputSize> {
        if n == 0 || n > 64 {
            return Err(InvalidOutputSize);
        }
        Ok(Blake2bVar { data: vec![], out: n })
    }
    fn output_size(&self) -> usize {
        self.out
    }
    fn finalize_variable(self, o: &mut [u8]) -> Result<(), InvalidBufferSize> {
        if o.len() != self.out {
            return Err(InvalidBufferSize);
        }
        o.copy_from_slice(&blake2b(&self.data, self.out));
        Ok(())
    }
}
pub fn blake2b(data: &[u8], out: usize) -> Vec<u8> {
    let mut h = IV;
    h[0] ^= 0x01010000 ^ out as u64;
    let n = data.len().max(1).div_ceil(128);
    for i in 0..n {
        let mut b = [0u8; 128];
        let c = &data[i * 128..((i + 1) * 128).min(data.len())];
        b[..c.len()].copy_from_slice(c);
        let mut m = [0u64; 16];
        for (k, x) in m.iter_mut().enumerate() {
            *x = u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap());
        }
        let t = (i * 128 + c.len()) as u128;
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if i == n - 1 {
            v[14] = !v[14];
        }
        let g = |v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        for r in 0..12 {
            let s = &S[r % 10];
            g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for k in 0..8 {
            h[k] ^= v[k] ^ v[k + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).take(out).collect()
}
