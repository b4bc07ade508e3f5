//! Accounts as the simulation knows them: what they hold, how they are stored, how they hash.
//! Written from the stored format and the hashing rules, independently of the code under test.
use num::{BigUint, Num};
use proof_systems::mina_hasher::{hash_of, Fp, ROInput};
use proof_systems::o1_utils::FieldHelpers;

pub type Key = ([u8; 32], bool);
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acc {
    pub key: Key,
    pub token: u64,
    pub owns_token: bool,
    pub disabled: bool,
    pub symbol: [u8; 32],
    pub balance: u64,
    pub nonce: u64,
    pub receipt: [u8; 32],
    pub delegate: Option<Key>,
    pub voting: [u8; 32],
    /// initial minimum, cliff time, cliff amount, vesting period, vesting increment
    pub timing: Option<[u64; 5]>,
    pub stake: bool,
    pub perms: [u8; 11],
    pub zkapp: bool,
    pub uri: bool,
}

pub trait Io {
    fn ver(&mut self, n: usize) -> Option<()>;
    fn int(&mut self, v: &mut u64, bits: u32) -> Option<()>;
    fn raw(&mut self, v: &mut [u8; 32]) -> Option<()>;
    fn tag(&mut self, v: &mut u8, n: u8) -> Option<()>;
    fn bit(&mut self, v: &mut bool) -> Option<()> {
        let mut t = *v as u8;
        self.tag(&mut t, 2)?;
        *v = t == 1;
        Some(())
    }
    fn key(&mut self, v: &mut Key) -> Option<()> {
        self.raw(&mut v.0)?;
        if !in_field(&v.0) {
            return None;
        }
        self.bit(&mut v.1)
    }
}
pub fn in_field(b: &[u8; 32]) -> bool {
    Fp::from_bytes(b).is_ok()
}
pub struct Wr(pub Vec<u8>);
impl Io for Wr {
    fn ver(&mut self, n: usize) -> Option<()> {
        self.0.extend(std::iter::repeat(1).take(n));
        Some(())
    }
    fn int(&mut self, v: &mut u64, _: u32) -> Option<()> {
        let b = v.to_le_bytes();
        match *v {
            0..=0x7f => self.0.push(b[0]),
            0..=0x7fff => {
                self.0.push(0xfe);
                self.0.extend(&b[..2])
            }
            0..=0x7fff_ffff => {
                self.0.push(0xfd);
                self.0.extend(&b[..4])
            }
            _ => {
                self.0.push(0xfc);
                self.0.extend(&b)
            }
        }
        Some(())
    }
    fn raw(&mut self, v: &mut [u8; 32]) -> Option<()> {
        self.0.extend(*v);
        Some(())
    }
    fn tag(&mut self, v: &mut u8, _: u8) -> Option<()> {
        self.0.push(*v);
        Some(())
    }
}
pub struct Rd<'a> {
    pub b: &'a [u8],
    /// false: the format leaves open whether this is valid
    pub sure: bool,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.b.get(..n)?;
        self.b = &self.b[n..];
        Some(r)
    }
}
impl Io for Rd<'_> {
    fn ver(&mut self, n: usize) -> Option<()> {
        // what another version is to mean is not settled
        self.sure &= self.take(n)?.iter().all(|b| *b == 1);
        Some(())
    }
    fn int(&mut self, v: &mut u64, bits: u32) -> Option<()> {
        let n = match self.take(1)?[0] {
            x @ 0..=0x7f => {
                *v = x as u64;
                return Some(());
            }
            0xfe => 2,
            0xfd => 4,
            0xfc => 8,
            0xff => 1,
            _ => return None,
        };
        let mut w = [0; 8];
        w[..n].copy_from_slice(self.take(n)?);
        *v = u64::from_le_bytes(w);
        let mut again = Wr(vec![]);
        again.int(v, bits);
        if again.0.len() != n + 1 || *v >> 63 == 1 {
            // negative or longer than it needs to be
            self.sure = false;
            return Some(());
        }
        if bits == 32 && *v >> 32 != 0 {
            return None;
        }
        if bits == 32 && *v >> 31 != 0 {
            self.sure = false;
        }
        Some(())
    }
    fn raw(&mut self, v: &mut [u8; 32]) -> Option<()> {
        v.copy_from_slice(self.take(32)?);
        Some(())
    }
    fn tag(&mut self, v: &mut u8, n: u8) -> Option<()> {
        *v = self.take(1)?[0];
        (*v < n).then_some(())
    }
}
fn unit(x: &mut impl Io, v: &mut bool) -> Option<()> {
    x.bit(v)?;
    if *v {
        x.tag(&mut 0, 1)?;
    }
    Some(())
}
/// mainnet (v1, with version bytes) or berkeley
pub fn layout(x: &mut impl Io, a: &mut Acc, legacy: bool) -> Option<()> {
    let v = |n: usize| if legacy { n } else { 0 };
    x.ver(v(3 + 3))?;
    x.key(&mut a.key)?;
    x.ver(v(3))?;
    x.int(&mut a.token, 64)?;
    x.ver(v(2))?;
    x.bit(&mut a.owns_token)?;
    x.bit(&mut a.disabled)?;
    if !legacy {
        x.raw(&mut a.symbol)?;
    }
    x.ver(v(2))?;
    x.int(&mut a.balance, 64)?;
    x.ver(v(2))?;
    x.int(&mut a.nonce, 32)?;
    x.ver(v(1))?;
    x.raw(&mut a.receipt)?;
    let mut some = a.delegate.is_some();
    x.bit(&mut some)?;
    if some {
        let mut k = a.delegate.unwrap_or_default();
        x.ver(v(2))?;
        x.key(&mut k)?;
        a.delegate = Some(k);
    }
    x.ver(v(1))?;
    x.raw(&mut a.voting)?;
    x.ver(v(2))?;
    let mut some = a.timing.is_some();
    x.bit(&mut some)?;
    if some {
        let mut t = a.timing.unwrap_or_default();
        x.ver(v(1))?;
        for n in &mut t {
            x.ver(v(2))?;
            x.int(n, 64)?;
        }
        a.timing = Some(t);
    }
    x.ver(v(2))?;
    if legacy {
        x.bit(&mut a.stake)?;
    }
    for p in a.perms.iter_mut().take(if legacy { 6 } else { 11 }) {
        x.ver(v(1))?;
        x.tag(p, 6)?;
    }
    unit(x, &mut a.zkapp)?;
    if !legacy {
        unit(x, &mut a.uri)?;
    }
    Some(())
}
pub fn encode(a: &Acc, legacy: bool) -> Vec<u8> {
    let mut w = Wr(vec![]);
    layout(&mut w, &mut a.clone(), legacy);
    w.0
}
pub enum Stored {
    Valid(Acc),
    Invalid,
    Unsure,
}
pub fn decode(b: &[u8], legacy: bool) -> Stored {
    let mut r = Rd { b, sure: true };
    let mut a = Acc::default();
    let ok = layout(&mut r, &mut a, legacy).is_some() && r.b.is_empty();
    match (r.sure, ok) {
        (false, _) => Stored::Unsure,
        (true, true) => Stored::Valid(a),
        (true, false) => Stored::Invalid,
    }
}

/// packs small values into field elements, as Mina's chunked random oracle input does
pub fn pack(fields: Vec<BigUint>, packed: Vec<(BigUint, u32)>) -> ROInput {
    let mut out = fields;
    let (mut acc, mut n) = (BigUint::default(), 0);
    for (x, bits) in packed {
        if n + bits < 255 {
            acc = (acc << bits) + x;
            n += bits;
        } else {
            out.push(std::mem::replace(&mut acc, x));
            n = bits;
        }
    }
    if n > 0 {
        out.push(acc);
    }
    out.iter().fold(ROInput::new(), |r, f| r.append_field(field(f)))
}
pub fn field(b: &BigUint) -> Fp {
    let mut v = b.to_bytes_le();
    v.resize(32, 0);
    Fp::from_bytes(&v).unwrap()
}
fn big(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
fn dec(s: &str) -> BigUint {
    BigUint::from_str_radix(s, 10).unwrap()
}
fn of_fp(f: &Fp) -> BigUint {
    big(&f.to_bytes())
}
/// None: the account holds a value that has no hash
pub fn leaf_hash(a: &Acc, legacy: bool) -> Option<Fp> {
    if legacy {
        // the code under test only covers these two
        let r = ROInput::new().append_bytes(&a.token.to_le_bytes()).append_bytes(&a.balance.to_le_bytes());
        return Some(hash_of("legacy", Some("CodaAccount".into()), &r));
    }
    if !in_field(&a.receipt) || !in_field(&a.voting) {
        return None;
    }
    let n = |x: u64| BigUint::from(x);
    let uri = hash_of("kimchi", Some("MinaZkappUri".into()), &pack(vec![], vec![(n(1), 1)]));
    let dummy = dec("12935064460869035604753254773225484359407575580289870070671311469994328713165");
    let mut f = vec![dummy; 5];
    f.push(dec("15836741414052211301983886193856353162526040956490609761139212467629447291325"));
    f.resize(14, n(0));
    let zkapp = hash_of("kimchi", Some("CodaZkappAccount".into()), &pack(f, vec![(n(0), 1), (n(0), 32), (n(0), 32)]));
    let mut fields = vec![of_fp(&uri), of_fp(&zkapp)];
    let mut packed = vec![];
    for p in a.perms {
        // none, either, proof, signature, both, impossible
        let constant = p == 0 || p == 5;
        let necessary = p == 3 || p == 4 || p == 5;
        let sufficient = p == 0 || p == 1 || p == 3;
        packed.extend([constant, necessary, sufficient].map(|b| (n(b as u64), 1)));
    }
    packed.push((n(a.timing.is_some() as u64), 1));
    let t = a.timing.unwrap_or([0, 0, 0, 1, 0]);
    packed.extend([(n(t[0]), 64), (n(t[1] as u32 as u64), 32), (n(t[2]), 64), (n(t[3] as u32 as u64), 32), (n(t[4]), 64)]);
    fields.push(big(&a.voting));
    let d = a.delegate.unwrap_or_default();
    fields.push(big(&d.0));
    packed.push((n(d.1 as u64), 1));
    fields.push(big(&a.receipt));
    packed.push((n(a.nonce), 32));
    packed.push((n(a.balance), 64));
    packed.push((big(&a.symbol[..6]), 48));
    packed.push((n(a.owns_token as u64 + 2 * a.disabled as u64), 2));
    fields.push(n(a.token));
    fields.push(big(&a.key.0));
    packed.push((n(a.key.1 as u64), 1));
    Some(hash_of("kimchi", Some("CodaAccount".into()), &pack(fields, packed)))
}

/// The Merkle tree of Mina over leaf hashes: complete, missing subtrees are empty.
pub fn empty(height: u32, kind: &'static str) -> Fp {
    thread_local!(static MEMO: std::cell::RefCell<std::collections::HashMap<(u32, &'static str), Fp>> = Default::default());
    if height == 0 {
        return field(&dec(if kind == "legacy" { "14604874247461951431777712543359658136906556694369689076707549712589474483312" } else { "9572980593872981109373931329129826339992116007886182568766828232902813999143" }));
    }
    if let Some(f) = MEMO.with(|m| m.borrow().get(&(height, kind)).copied()) {
        return f;
    }
    let e = empty(height - 1, kind);
    let f = node(&e, &e, height, kind);
    MEMO.with(|m| m.borrow_mut().insert((height, kind), f));
    f
}
pub fn node(l: &Fp, r: &Fp, height: u32, kind: &'static str) -> Fp {
    hash_of(kind, Some(format!("CodaMklTree{:03}", height - 1)), &ROInput::new().append_field(*l).append_field(*r))
}
pub fn root(leaves: &[Fp], height: u32, kind: &'static str) -> Fp {
    let mut row = leaves.to_vec();
    for h in 1..=height {
        let next = |c: &[Fp]| node(&c[0], c.get(1).unwrap_or(&empty(h - 1, kind)), h, kind);
        row = row.chunks(2).map(next).collect();
    }
    row.first().copied().unwrap_or_else(|| empty(height, kind))
}
