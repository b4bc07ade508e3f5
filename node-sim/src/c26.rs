//! C26: amounts, hashes, keys and field elements passed from hand to hand as text (settings, notes, reports of a
//! node): each party reads what it is given, keeps the value, and shows it to the next one.
use crate::json::{b58, un58, URL_SAFE};
use mina_crypto::hash::*;
use mina_crypto::prelude::*;
use mina_rs_base::protocol_state_proof as proof;
use mina_rs_base::types::{BigInt256, BlockTime, SignedCommandMemo, VrfOutputTruncated};
use mina_serialization_types::signatures::CompressedCurvePoint;
use mina_serialization_types::v1::HashV1;
use num::BigUint;
use proof_systems::{fp_from_radix_10, FpJson};
use proof_systems::mina_hasher::Fp;
use proof_systems::o1_utils::FieldHelpers;
use simcore::runner::guarded;
use simcore::{Ctx, Outcome, Tape, Violation};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Amount,
    Time,
    Element,
    Elements,
    Decimal,
    Hexadecimal,
    FpText,
    Char,
    StateBody,
    State,
    Ledger,
    Chain,
    CoinBase,
    Epoch,
    VrfHash,
    Aux,
    PendingAux,
    Memo,
    Vrf64,
    Vrf58,
    Key,
}
use Kind::*;
const KINDS: [Kind; 21] =
    [Amount, Time, Element, Elements, Decimal, Hexadecimal, FpText, Char, StateBody, State, Ledger, Chain, CoinBase, Epoch, VrfHash, Aux, PendingAux, Memo, Vrf64, Vrf58, Key];
/// what a text says
#[derive(Debug, PartialEq)]
enum Says {
    Is(Vec<u8>),
    No,
    /// not settled
    Free,
}
use Says::*;

/// the order of the field, that of the coordinates of Pallas
fn modulus() -> BigUint {
    BigUint::parse_bytes(b"40000000000000000000000000000000224698fc094cf91b992d30ed00000001", 16).unwrap()
}
fn bytes(t: &mut Tape, n: usize) -> Vec<u8> {
    let fill = t.draw(8);
    (0..n)
        .map(|_| match fill {
            6 => 0,
            7 => 255,
            _ => t.draw(256) as u8,
        })
        .collect()
}
fn number(t: &mut Tape) -> u64 {
    let v = match t.draw(5) {
        0 => t.draw(20),
        1 => t.draw(2_000) * 1_000_000_000,
        2 => u64::MAX - t.draw(3),
        3 => t.draw(1 << 40),
        _ => u64::from_le_bytes(bytes(t, 8).try_into().unwrap()),
    };
    let cut = t.draw(64) as u32;
    if t.draw(3) == 2 { v >> cut } else { v }
}
impl Kind {
    fn version(self) -> Option<u8> {
        Some(match self {
            Ledger => 0x05,
            CoinBase | Chain => 0x0c,
            Epoch => 0x0d,
            State => 0x10,
            StateBody => 0x11,
            Aux => 0x0e,
            PendingAux => 0x0f,
            Memo => 0x14,
            VrfHash | Vrf58 => 0x15,
            Key => 0xcb,
            _ => return None,
        })
    }
    fn make(self, t: &mut Tape) -> Vec<u8> {
        match self {
            Amount => number(t).to_le_bytes().to_vec(),
            // up to the end of the year 9999
            Time => (number(t) % 253_402_300_800_000).to_le_bytes().to_vec(),
            Elements => {
                let n = t.draw(5) as usize * 32;
                let (b, field) = (bytes(t, n), t.draw(2) == 1);
                b.chunks(32).flat_map(|c| if field { below(c.to_vec()) } else { c.to_vec() }).collect()
            }
            Decimal | Hexadecimal | FpText => below(bytes(t, 32)),
            Char => bytes(t, 1),
            Aux | PendingAux | Memo | Vrf64 | Vrf58 => {
                let n = *t.pick(&[32usize, 34, 0, 1, 7, 40]);
                bytes(t, n)
            }
            Key => {
                let odd = t.draw(2) as u8;
                let x = bytes(t, 32);
                [below(x), vec![odd]].concat()
            }
            _ => bytes(t, 32),
        }
    }
    /// as the description of the format has it; None: there is no text for it
    fn text(self, v: &[u8]) -> Option<String> {
        Some(match self {
            Amount => {
                let a = u64::from_le_bytes(v.try_into().unwrap());
                format!("{}.{:09}", a / 1_000_000_000, a % 1_000_000_000)
            }
            Time => u64::from_le_bytes(v.try_into().unwrap()).to_string(),
            Element | Elements => hex::encode(v),
            Decimal | FpText => BigUint::from_bytes_le(v).to_str_radix(10),
            Hexadecimal => BigUint::from_bytes_le(v).to_str_radix(16),
            Char if v[0] < 128 => (v[0] as char).to_string(),
            Char => return None,
            Aux | PendingAux | Memo => b58(self.version().unwrap(), v),
            Vrf64 => base64::encode_config(v, URL_SAFE),
            Vrf58 => b58(0x15, &[&[v.len() as u8], v].concat()),
            Key => b58(0xcb, &[&[1, 1][..], v].concat()),
            _ => b58(self.version().unwrap(), &[&[1][..], v].concat()),
        })
    }
    fn says(self, s: &str) -> Says {
        let digits = |s: &str, r: u32| !s.is_empty() && s.chars().all(|c| c.is_ascii() && c.to_digit(r).is_some());
        let found = |v: Option<Vec<u8>>| v.map_or(No, Is);
        match self {
            Amount => {
                let mut p = s.split('.');
                let (q, f, more) = (p.next().unwrap(), p.next(), p.next());
                let free = q.is_empty() || q.strip_prefix('+').is_some_and(|q| digits(q, 10)) || f == Some("");
                if more.is_some() || !(digits(q, 10) || free) {
                    return No;
                }
                let f = f.unwrap_or("0");
                if f.chars().any(|c| !c.is_ascii_digit()) {
                    return No;
                }
                if f.len() > 9 {
                    return if f[9..].bytes().all(|b| b == b'0') { Free } else { No };
                }
                if free {
                    return Free;
                }
                let n = BigUint::from_str(q).unwrap() * 1_000_000_000u64 + BigUint::from_str(&format!("{f:0<9}")).unwrap();
                found(u64::try_from(n).ok().map(|n| n.to_le_bytes().to_vec()))
            }
            Time => Free,
            Element | Elements => {
                let h = s.strip_prefix("0x").or(s.strip_prefix("\\x")).unwrap_or(s);
                match hex::decode(h) {
                    Ok(b) if b.len() == 32 || self == Elements && b.len() % 32 == 0 => Is(b),
                    _ => No,
                }
            }
            Decimal | Hexadecimal | FpText => {
                let r = if self == Hexadecimal { 16 } else { 10 };
                if !digits(s, r) {
                    return if s.contains('_') || s.starts_with('+') { Free } else { No };
                }
                let n = BigUint::parse_bytes(s.as_bytes(), r).unwrap();
                if n >= modulus() {
                    return No;
                }
                let mut b = n.to_bytes_le();
                b.resize(32, 0);
                Is(b)
            }
            Char => match s.as_bytes() {
                [c] => Is(vec![*c]),
                _ => No,
            },
            Aux | PendingAux | Memo => found(un58(s, self.version().unwrap())),
            Vrf64 => {
                let body = s.trim_end_matches('=');
                match base64::decode_config(s, URL_SAFE) {
                    Ok(b) if base64::encode_config(&b, URL_SAFE) == s => Is(b),
                    _ if body.len() % 4 != 1 && body.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_') => Free,
                    _ => No,
                }
            }
            Vrf58 => match un58(s, 0x15) {
                Some(b) if b.len() as u64 == b.first().map_or(0, |n| *n as u64 + 1) && !b.is_empty() => Is(b[1..].to_vec()),
                // what another length in front means is not settled
                Some(_) => Free,
                None => No,
            },
            Key => match un58(s, 0xcb) {
                Some(b) if b.len() == 35 && b[..2] == [1, 1] && b[34] < 2 && below(b[2..34].to_vec()) == b[2..34] => Is(b[2..].to_vec()),
                _ => No,
            },
            _ => match un58(s, self.version().unwrap()) {
                Some(b) if b.len() == 33 && b[0] == 1 => Is(b[1..].to_vec()),
                // what another inner version means is not settled (nor one of several bytes)
                Some(b) if b.len() == 33 || b.first().is_some_and(|v| *v >= 0xfc) => Free,
                _ => No,
            },
        }
    }
    // ---------------------------------------------------- the code
    fn show(self, v: &[u8]) -> Result<String, String> {
        macro_rules! s {
            ($t:ty, $v:expr) => {{
                let x: $t = $v;
                let s = String::try_from(&x).map_err(|e| e.to_string())?;
                if x.to_string() != s || String::try_from(x).ok().as_ref() != Some(&s) {
                    return Err(format!("shown in two ways: {s}"));
                }
                s
            }};
        }
        let h = || -> HashV1 { <[u8; 32]>::try_from(v).unwrap().into() };
        Ok(match self {
            Amount => mina_rs_base::numbers::Amount(u64::from_le_bytes(v.try_into().unwrap())).to_string(),
            Time => {
                let ms = u64::from_le_bytes(v.try_into().unwrap());
                let a = BlockTime::from_unix_epoch_millis(ms);
                let n = a.datetime().unix_timestamp_nanos();
                if n % 1_000_000 != 0 || a.epoch_millis() != ms || BlockTime::from_unix_epoch(ms / 1000).epoch_millis() != ms / 1000 * 1000 {
                    return Err(format!("{ms} is {n}"));
                }
                (n / 1_000_000).to_string()
            }
            Element => BigInt256(v.try_into().unwrap()).to_hex_string(),
            Elements => elements(v).to_hex_string(),
            Decimal | Hexadecimal => return self.text(v).ok_or_else(String::new),
            FpText => {
                let j = serde_json::to_value(FpJson(Fp::from_bytes(v).unwrap())).map_err(|e| e.to_string())?;
                j.as_str().ok_or("no text")?.to_string()
            }
            Char => s!(mina_rs_base::numbers::Char, mina_rs_base::numbers::Char(v[0])),
            StateBody => s!(StateBodyHash, h().into()),
            State => s!(StateHash, <[u8; 32]>::try_from(v).unwrap().into()),
            Ledger => s!(LedgerHash, h().into()),
            Chain => s!(ChainHash, <[u8; 32]>::try_from(v).unwrap().into()),
            CoinBase => s!(CoinBaseHash, h().into()),
            Epoch => s!(EpochSeed, h().into()),
            VrfHash => s!(VrfOutputHash, h().into()),
            Aux => s!(AuxHash, AuxHash(v.to_vec())),
            PendingAux => s!(PendingCoinbaseAuxHash, PendingCoinbaseAuxHash(v.to_vec())),
            Memo => s!(SignedCommandMemo, SignedCommandMemo(v.to_vec())),
            Vrf64 => {
                let s = s!(VrfOutputTruncated, VrfOutputTruncated(v.to_vec()));
                if VrfOutputTruncated(v.to_vec()).to_base64_string().ok().as_ref() != Some(&s) {
                    return Err("shown in two ways".into());
                }
                s
            }
            Vrf58 => VrfOutputTruncated(v.to_vec()).to_base58_string().map_err(|e| e.to_string())?,
            Key => s!(CompressedCurvePoint, CompressedCurvePoint { x: v[..32].try_into().unwrap(), is_odd: v[32] == 1 }),
        })
    }
    fn read(self, s: &str) -> Result<Vec<u8>, String> {
        macro_rules! r {
            ($t:ty, $f:expr) => {{
                let a = <$t>::from_str(s).map_err(|e| e.to_string());
                let b = <$t>::try_from(s).map_err(|e| e.to_string());
                if a != b {
                    return Ok(b"read in two ways".to_vec());
                }
                $f(a?)
            }};
            // it can be had from JSON as well
            (json $t:ty, $f:expr) => {{
                if <$t>::try_from(&serde_json::Value::from(s)).ok() != <$t>::from_str(s).ok() || <$t>::try_from(&serde_json::json!([s])).is_ok() || <$t>::try_from(&serde_json::json!(5)).is_ok() {
                    return Ok(b"read in two ways".to_vec());
                }
                r!($t, $f)
            }};
        }
        fn h<T: Into<HashV1>>(t: T) -> Vec<u8> {
            let h: HashV1 = t.into();
            h.t.to_vec()
        }
        let e = |e: &dyn std::fmt::Display| e.to_string();
        Ok(match self {
            Amount => mina_rs_base::numbers::Amount::from_str(s).map_err(|x| e(&x))?.0.to_le_bytes().to_vec(),
            Time => s.parse::<u64>().map_err(|x| e(&x))?.to_le_bytes().to_vec(),
            Element => BigInt256::try_from_hex(s).map_err(|x| e(&x))?.0.to_vec(),
            Elements => proof::FieldElementVec::try_from_hex(s).map_err(|x| e(&x))?.0.into_iter().flat_map(|x| x.0).collect(),
            Decimal | Hexadecimal => <[u8; 32]>::from(Field::from_str_radix(s, if self == Decimal { 10 } else { 16 }).map_err(|x| e(&x))?).to_vec(),
            FpText => {
                let a = serde_json::from_value::<FpJson>(s.into()).map(|f| f.0.to_bytes()).map_err(|x| e(&x));
                let b = fp_from_radix_10(s).map(|f| f.to_bytes()).map_err(|x| e(&x));
                if a.as_ref().ok() != b.as_ref().ok() {
                    return Ok(b"read in two ways".to_vec());
                }
                a?
            }
            Char => r!(mina_rs_base::numbers::Char, |c: mina_rs_base::numbers::Char| vec![c.0]),
            StateBody => r!(StateBodyHash, h),
            State => r!(StateHash, |x: StateHash| <[u8; 32]>::from(x).to_vec()),
            Ledger => r!(json LedgerHash, h),
            Chain => r!(ChainHash, |x: ChainHash| <[u8; 32]>::from(x).to_vec()),
            CoinBase => r!(json CoinBaseHash, h),
            Epoch => r!(EpochSeed, h),
            VrfHash => r!(VrfOutputHash, h),
            Aux => r!(json AuxHash, |x: AuxHash| x.0),
            PendingAux => r!(json PendingCoinbaseAuxHash, |x: PendingCoinbaseAuxHash| x.0),
            Memo => r!(SignedCommandMemo, |x: SignedCommandMemo| x.0),
            Vrf64 => {
                let a = r!(VrfOutputTruncated, |x: VrfOutputTruncated| x.0);
                if VrfOutputTruncated::from_base64_str(s).ok().map(|x| x.0).as_ref() != Some(&a) {
                    return Ok(b"read in two ways".to_vec());
                }
                a
            }
            Vrf58 => VrfOutputTruncated::from_base58_str(s).map_err(|x| e(&x))?.0,
            Key => r!(CompressedCurvePoint, |x: CompressedCurvePoint| [&x.x[..], &[x.is_odd as u8]].concat()),
        })
    }
}
/// a value of the field with (nearly) these bytes
fn below(mut v: Vec<u8>) -> Vec<u8> {
    if BigUint::from_bytes_le(&v) >= modulus() {
        v[31] &= 0x3f;
    }
    v
}
fn elements(v: &[u8]) -> proof::FieldElementVec {
    proof::FieldElementVec(v.chunks(32).map(|c| BigInt256(c.try_into().unwrap())).collect())
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Curve;
impl ark_ec::ModelParameters for Curve {
    type BaseField = Fp;
    type ScalarField = Fp;
}
impl ark_ec::SWModelParameters for Curve {}
type Affine = ark_ec::short_weierstrass_jacobian::GroupAffine<Curve>;

/// the elements of a proof as points of a curve, in their places
fn points(v: &[u8]) -> Option<String> {
    use proof::*;
    let e = elements(v);
    let want: Vec<Fp> = v.chunks(32).map(|c| Fp::from_bytes(c).unwrap()).collect();
    if Vec::<Fp>::from(&e) != want {
        return Some("elements".into());
    }
    let e = e.0;
    let f: Vec<FiniteECPoint> = e.chunks_exact(2).map(|c| FiniteECPoint(c[0].clone(), c[1].clone())).collect();
    let mut w: Vec<(Fp, Fp, bool)> = want.chunks_exact(2).map(|c| (c[0], c[1], false)).collect();
    let p = |a: &[Affine]| -> Vec<(Fp, Fp, bool)> { a.iter().map(|a| (a.x, a.y, a.infinity)).collect() };
    if p(&Vec::<Affine>::from(&FiniteECPointVec(f.clone()))) != w {
        return Some("finite points".into());
    }
    if let [a, b] = &f[..] {
        let got = Vec::<(Affine, Affine)>::from(&FiniteECPointPairVec(vec![FiniteECPointPair(a.clone(), b.clone())]));
        if got.len() != 1 || p(&[got[0].0, got[0].1]) != w {
            return Some("pairs of points".into());
        }
    }
    let mut g: Vec<ECPoint> = f.into_iter().map(ECPoint::Finite).collect();
    let at = v.first().map_or(0, |b| *b as usize) % (g.len() + 1);
    g.insert(at, ECPoint::Infinite);
    let got = p(&Vec::<Affine>::from(&ECPointVec(g)));
    // the coordinates of infinity are its own affair
    let infinity = got.get(at).map_or((Fp::from_bytes(&[0; 32]).unwrap(), Fp::from_bytes(&[0; 32]).unwrap(), true), |a| (a.0, a.1, true));
    w.insert(at, infinity);
    (got != w).then(|| "points".into())
}

fn damage(t: &mut Tape, k: Kind, v: &[u8], s: &str, last: &str) -> (&'static str, String) {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len() as u64;
    let odd = |t: &mut Tape| *t.pick(&['0', '1', '9', 'a', 'F', 'l', 'O', '.', '+', '-', '_', ' ', '\n', 'x', '=', 'é', '٣', '\0', 'z', ',']);
    let what = match t.draw(13) {
        // one character as JSON or an address writes it
        11 if n > 0 => {
            let at = t.draw(n) as usize;
            let x = c[at];
            let new = match t.draw(4) {
                0 => format!("\\{x}"),
                1 => format!("%{:02x}", x as u32),
                2 => format!("&#{};", x as u32),
                _ => format!("\\u{:04x}", x as u32),
            };
            c.splice(at..=at, new.chars());
            "escaped"
        }
        0 if n > 0 => {
            c[t.draw(n) as usize] = odd(t);
            "character-changed"
        }
        1 => {
            let x = odd(t);
            c.insert(t.draw(n + 1) as usize, x);
            "character-added"
        }
        2 if n > 0 => {
            c.remove(t.draw(n) as usize);
            "character-lost"
        }
        3 if n > 1 => {
            c.swap(t.draw(n) as usize, t.draw(n) as usize);
            "characters-swapped"
        }
        4 if n > 0 => {
            c.truncate(t.draw(n) as usize);
            "cut"
        }
        5 => {
            let sep = *t.pick(&["", "\n", " ", "0x"]);
            return ("twice", format!("{s}{sep}{s}"));
        }
        6 => {
            return (
                "wrapped",
                match t.draw(6) {
                    0 => format!("{s}\n"),
                    1 => format!(" {s}"),
                    2 => format!("\"{s}\""),
                    3 => format!("0x{s}"),
                    4 => format!("\\x{s}"),
                    _ => format!("0{s}"),
                },
            )
        }
        7 => return ("case-changed", if t.draw(2) == 0 { s.to_uppercase() } else { s.to_lowercase() }),
        8 => return ("another-text", last.to_string()),
        9 => {
            // another party's kind
            let o = *t.pick(&KINDS);
            let ov = o.make(t);
            return ("another-kind", o.text(&ov).unwrap_or_default());
        }
        _ => {
            // properly written, of something else
            let f = match k {
                Amount => {
                    let q = BigUint::from(u64::MAX / 1_000_000_000) + t.draw(3) - 1u8;
                    let d = t.draw(12) as usize;
                    let mut f: String = "709551615999".chars().take(d).collect();
                    if t.draw(2) == 1 {
                        f = f.replace('5', "6");
                    }
                    match t.draw(3) {
                        0 => format!("{q}"),
                        1 => format!("{q}.{f}"),
                        _ => format!("{q}{f}"),
                    }
                }
                Decimal | Hexadecimal | FpText => {
                    let n = match t.draw(4) {
                        0 => modulus() + t.draw(3) - 1u8,
                        1 => (BigUint::from(1u8) << 256u32) + t.draw(3) - 1u8,
                        2 => BigUint::from_bytes_le(v) + modulus(),
                        _ => BigUint::from_bytes_le(v) + (BigUint::from(1u8) << 256u32),
                    };
                    n.to_str_radix(if k == Hexadecimal { 16 } else { 10 })
                }
                _ => match k.version() {
                    Some(ver) => {
                        let ver = if t.draw(3) == 2 { *t.pick(&[ver ^ 1, 0, 5, 0x0c, 0xcb, 0x9a]) } else { ver };
                        let mut p = match k {
                            Key => [&[1, 1][..], v].concat(),
                            Aux | PendingAux | Memo => v.to_vec(),
                            Vrf58 => [&[v.len() as u8], v].concat(),
                            _ => [&[1][..], v].concat(),
                        };
                        match t.draw(6) {
                            0 => p.push(t.draw(256) as u8),
                            1 => drop(p.pop()),
                            2 if !p.is_empty() => p[0] = t.draw(256) as u8,
                            3 if !p.is_empty() => *p.last_mut().unwrap() = t.draw(256) as u8,
                            4 => {
                                let n = t.draw(40) as usize;
                                p = bytes(t, n)
                            }
                            _ => p.iter_mut().skip(2).for_each(|b| *b = 255),
                        }
                        b58(ver, &p)
                    }
                    None => s.chars().rev().collect(),
                },
            };
            return ("forged", f);
        }
    };
    (what, c.into_iter().collect())
}

pub fn c26(ctx: &mut Ctx) -> Outcome {
    let k = *ctx.tape.pick(&KINDS);
    let first = k.make(&mut ctx.tape);
    let mut v = first.clone();
    let mut last = k.text(&k.make(&mut ctx.tape)).unwrap_or_default();
    let parties = ctx.tape.range(2, 6);
    ctx.event(|| format!("{k:?} {}, {parties} parties", simcore::hex(&v)));
    ctx.nontrivial = true;
    if let (Element | Elements, true) = (k, v.chunks(32).all(|c| BigUint::from_bytes_le(c) < modulus())) {
        match guarded(|| points(&v)) {
            Ok(None) => ctx.probe("points"),
            Ok(Some(what)) => return Err(Violation::new("text-points", format!("{what} of {} are not what they were", simcore::hex(&v)))),
            Err(p) => return Err(Violation::new("text-panic", format!("points of {}: {p}", simcore::hex(&v)))),
        }
    }
    for hop in 1..parties {
        // ------------------------------------------------ shown
        let want = k.text(&v);
        let shown = match guarded(|| k.show(&v)) {
            Ok(s) => s,
            Err(p) => return Err(Violation::new("text-panic", format!("{k:?} {} shown: {p}", simcore::hex(&v)))),
        };
        ctx.event(|| format!("hop {hop}: shown as {shown:?}"));
        let s = match (shown, want) {
            (Ok(s), Some(w)) if s == w => s,
            (Err(_), None) => {
                ctx.probe("not-showable");
                return Ok(());
            }
            (s, w) => return Err(Violation::new("text-shown", format!("{k:?} {} is shown as {s:?} instead of {w:?}", simcore::hex(&v)))),
        };
        ctx.probe("shown");
        // ------------------------------------------------ carried; what is refused is asked for again
        let mut tries = 0;
        loop {
            let (what, text) = match ctx.tape.draw(3) {
                0 if tries < 3 => damage(&mut ctx.tape, k, &v, &s, &last),
                _ => ("none", s.clone()),
            };
            tries += 1;
            if what != "none" {
                ctx.fault(what);
                ctx.sched_event(hop as u64, what.len() as u64);
            }
            let says = k.says(&text);
            let read = match guarded(|| k.read(&text)) {
                Ok(r) => r,
                Err(p) => return Err(Violation::new("text-panic", format!("{k:?} {text:?} read: {p}"))),
            };
            ctx.event(|| format!("  {what}: {text:?} says {says:?}, read {:?}", read.as_ref().map(|r| simcore::hex(r))));
            match (says, read) {
                (Is(x), Ok(r)) if x == r => {
                    ctx.probe(if x == v { "read" } else { "read-as-another" });
                    last = s;
                    v = r;
                    break;
                }
                (Is(x), r) => return Err(Violation::new("text-read", format!("{k:?} {text:?} says {} and is read as {r:?}", simcore::hex(&x)))),
                (No, Ok(r)) => return Err(Violation::new("text-accepted", format!("{k:?} {text:?} says nothing and is read as {}", simcore::hex(&r)))),
                (No, Err(_)) => ctx.probe("refused"),
                (Free, _) if what != "none" => {}
                (Free, r) => {
                    if r.as_ref() != Ok(&v) {
                        return Err(Violation::new("text-read", format!("{k:?} {text:?} is read as {r:?} instead of {}", simcore::hex(&v))));
                    }
                    break;
                }
            }
        }
    }
    Ok(())
}
