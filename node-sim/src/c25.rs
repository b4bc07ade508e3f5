//! C25: a wallet file (secret box) opens with its password to the key in it, and in no other way; files
//! are stored, torn, damaged, exchanged and exported again. The reference makes wallets by itself.
use mina_secrets::secret_box::{Keypair, SecretBox};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use simcore::runner::guarded;
use simcore::{Ctx, Outcome, Tape, Violation};

/// what a wallet file says
#[derive(Clone, Debug, PartialEq)]
struct Wallet {
    nonce: Vec<u8>,
    salt: Vec<u8>,
    diff: [i64; 2],
    ciphertext: Vec<u8>,
}
/// what its owner knows
#[derive(Clone, Debug)]
struct Secret {
    password: Vec<u8>,
    plain: Vec<u8>,
}
const ALPHABET: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// base58 of version byte, data and checksum
fn b58(version: u8, data: &[u8]) -> String {
    let mut v = vec![version];
    v.extend_from_slice(data);
    let c = Sha256::digest(Sha256::digest(&v));
    v.extend_from_slice(&c[..4]);
    let mut n = num::BigUint::from_bytes_be(&v);
    let mut s = vec![];
    let z = num::BigUint::from(0u8);
    while n != z {
        s.push(ALPHABET[(&n % 58u8).to_u32_digits().first().copied().unwrap_or(0) as usize]);
        n /= 58u8;
    }
    s.extend(v.iter().take_while(|b| **b == 0).map(|_| b'1'));
    s.reverse();
    String::from_utf8(s).unwrap()
}
fn unb58(s: &str) -> Option<Vec<u8>> {
    let mut n = num::BigUint::from(0u8);
    for c in s.bytes() {
        n = n * 58u8 + ALPHABET.iter().position(|a| *a == c)? as u32;
    }
    let mut v = vec![0; s.bytes().take_while(|c| *c == b'1').count()];
    if n != num::BigUint::from(0u8) {
        v.extend(n.to_bytes_be());
    }
    if v.len() < 5 {
        return None;
    }
    let c = v.split_off(v.len() - 4);
    (Sha256::digest(Sha256::digest(&v))[..4] == c[..] && v[0] == 2).then(|| v[1..].to_vec())
}
fn bytes(t: &mut Tape, n: usize) -> Vec<u8> {
    (0..n).map(|_| t.draw(256) as u8).collect()
}
fn password(t: &mut Tape) -> Vec<u8> {
    match t.draw(5) {
        0 => b"mina".to_vec(),
        1 => vec![],
        2 => "contraseña ✓".as_bytes().to_vec(),
        _ => {
            let most = *t.pick(&[10, 40, 40, 300]);
            let n = t.draw(most) as usize;
            bytes(t, n)
        }
    }
}
fn make(t: &mut Tape) -> (Wallet, Secret) {
    let mut key = bytes(t, 32);
    // a scalar, little-endian; one in eight need not be below the order
    if t.draw(8) != 7 {
        key[31] &= 0x3f;
    }
    if t.draw(6) == 5 {
        key[31 - t.draw(4) as usize..].fill(0);
    }
    let plain = match t.draw(16) {
        12 => vec![],
        13 => vec![1],
        14 => [&[1], &key[..31]].concat(),
        15 => [&[1], &key[..], &[0]].concat(),
        _ => [&[1], &key[..]].concat(),
    };
    let password = password(t);
    let (nonce, salt) = (bytes(t, 24), bytes(t, 16));
    let diff = [(8 + t.draw(57)) as i64 * 1024 + if t.draw(2) == 1 { t.draw(1024) as i64 } else { 0 }, 1 + t.draw(4) as i64];
    let k = argon2::argon2i(&password, &salt, (diff[0] / 1024) as u32, diff[1] as u32);
    let ciphertext = xsalsa20poly1305::seal(&k, &nonce[..].try_into().unwrap(), &plain);
    (Wallet { nonce, salt, diff, ciphertext }, Secret { password, plain })
}
impl Wallet {
    fn json(&self) -> Value {
        json!({"box_primitive": "xsalsa20poly1305", "pw_primitive": "argon2i", "nonce": b58(2, &self.nonce), "pwsalt": b58(2, &self.salt), "pwdiff": self.diff, "ciphertext": b58(2, &self.ciphertext)})
    }
    /// what a file says, if it is a wallet
    fn read(v: &Value) -> Option<Wallet> {
        if v["box_primitive"] != "xsalsa20poly1305" || v["pw_primitive"] != "argon2i" {
            return None;
        }
        let b = |k: &str| unb58(v[k].as_str()?);
        let d = v["pwdiff"].as_array().filter(|d| d.len() == 2)?;
        Some(Wallet { nonce: b("nonce")?, salt: b("pwsalt")?, diff: [d[0].as_i64()?, d[1].as_i64()?], ciphertext: b("ciphertext")? })
    }
}
enum Sees {
    /// the file is a wallet and this password opens it
    Opens,
    /// it must be refused, when it is read or when it is opened
    Refuses,
    /// it must be refused when it is read
    Unreadable,
    /// either
    Free,
}

fn text(t: &mut Tape, v: &Value) -> String {
    // the order of members and white space are free
    let mut m: Vec<(String, Value)> = v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for i in (1..m.len()).rev() {
        m.swap(i, t.draw(i as u64 + 1) as usize);
    }
    let sep = *t.pick(&["", " ", "\n  ", "\t"]);
    let b: Vec<String> = m.iter().map(|(k, v)| format!("{sep}{}:{sep}{v}", Value::from(k.clone()))).collect();
    format!("{{{}{sep}}}{sep}", b.join(","))
}

pub fn c25(ctx: &mut Ctx) -> Outcome {
    argon2::sim::LIMIT.with(|l| l.set(1024));
    let (mut w, s) = if ctx.tape.draw(2500) == 2499 {
        // the recorded wallet of the repository's tests, made by Mina
        argon2::sim::LIMIT.with(|l| l.set(1 << 20));
        ctx.probe("recorded-wallet");
        let dir = "/repo/secrets/tests/data/test-wallet";
        let v: Value = serde_json::from_str(&std::fs::read_to_string(dir).unwrap()).unwrap();
        let w = Wallet::read(&v).unwrap();
        let password = std::fs::read(format!("{dir}.pswd")).unwrap();
        let k = argon2::argon2i(&password, &w.salt, (w.diff[0] / 1024) as u32, w.diff[1] as u32);
        let plain = xsalsa20poly1305::open(&k, &w.nonce[..].try_into().unwrap(), &w.ciphertext).expect("the reference opens the recorded wallet");
        (w, Secret { password, plain })
    } else {
        make(&mut ctx.tape)
    };
    let other = make(&mut ctx.tape);
    let original = w.clone();
    let mut v = w.json();
    let generations = ctx.tape.range(1, 3);
    for g in 0..generations {
        // ------------------------------------------------ the file as it lies there
        let mut file = text(&mut ctx.tape, &v);
        let mut pw = s.password.clone();
        let t = &mut ctx.tape;
        let mut same = true;
        let what = match t.draw(14) {
            0 | 1 | 2 => "none",
            3 => {
                // another password, near or far
                pw = match t.draw(7) {
                    0 => other.1.password.clone(),
                    1 => [&pw[..], b"\n"].concat(),
                    2 => [&pw[..], b"\0"].concat(),
                    3 => pw[..pw.len() - 1.min(pw.len())].to_vec(),
                    4 if !pw.is_empty() => {
                        let i = t.draw(pw.len() as u64) as usize;
                        pw[i] ^= 1 << t.draw(8);
                        pw
                    }
                    5 => pw.iter().rev().copied().collect(),
                    _ => String::from_utf8_lossy(&pw).to_uppercase().into_bytes(),
                };
                if pw == s.password { "none" } else { "wrong-password" }
            }
            4 | 5 => {
                // something else in a field, properly written
                let mut x = w.clone();
                let f = match t.draw(3) {
                    0 => &mut x.nonce,
                    1 => &mut x.salt,
                    _ => &mut x.ciphertext,
                };
                match t.draw(5) {
                    0 | 1 if !f.is_empty() => {
                        let i = t.draw(f.len() as u64) as usize;
                        f[i] ^= 1 << t.draw(8);
                    }
                    2 => f.truncate(t.draw(f.len() as u64 + 1) as usize),
                    3 => f.push(t.draw(256) as u8),
                    _ => {
                        let n = t.draw(80) as usize;
                        *f = bytes(t, n);
                    }
                }
                same = x == w;
                file = text(t, &x.json());
                w = x;
                "field-changed"
            }
            6 => {
                // other costs
                let far = t.draw(3) == 2;
                let k = t.draw(2) as usize;
                let unit = if k == 0 { 1 << 42 } else { 1 << 32 };
                w.diff[k] = match t.draw(6) {
                    0 => w.diff[k].wrapping_add(unit),
                    1 => w.diff[k].wrapping_sub(unit),
                    2 => w.diff[k].wrapping_neg(),
                    3 => 0,
                    4 => [i64::MIN, i64::MAX, -1, 1 << 53, u32::MAX as i64 + 1][t.draw(5) as usize],
                    _ if far => w.diff[k].wrapping_add(1),
                    _ => [(8 + t.draw(57)) as i64 * 1024, 1 + t.draw(4) as i64][k],
                };
                // more than anybody has is not tried out: it may be refused or use up the memory
                let (m, n) = (w.diff[0] / 1024, w.diff[1]);
                if (0..=u32::MAX as i64).contains(&m) && (0..=u32::MAX as i64).contains(&n) && m.saturating_mul(n) > 1024 {
                    w.diff = original.diff;
                }
                file = text(t, &w.json());
                "costs-changed"
            }
            7 => {
                // a character of a text
                let k = *t.pick(&["nonce", "pwsalt", "ciphertext"]);
                let mut x = v.clone();
                let mut c: Vec<char> = x[k].as_str().unwrap().chars().collect();
                let n = c.len() as u64;
                match t.draw(5) {
                    0 if n > 1 => c.swap(t.draw(n) as usize, t.draw(n) as usize),
                    1 => drop(c.insert(t.draw(n + 1) as usize, ALPHABET[t.draw(58) as usize] as char)),
                    2 if n > 0 => drop(c.remove(t.draw(n) as usize)),
                    3 if n > 0 => c[t.draw(n) as usize] = *t.pick(&['0', 'l', ' ', 'é', '\0', 'O']),
                    _ if n > 0 => c[t.draw(n) as usize] = ALPHABET[t.draw(58) as usize] as char,
                    _ => {}
                }
                x[k] = c.into_iter().collect::<String>().into();
                file = text(t, &x);
                "text-changed"
            }
            8 => {
                let k = *t.pick(&["nonce", "pwsalt", "ciphertext"]);
                let mut x = v.clone();
                let d = match k {
                    "nonce" => &w.nonce,
                    "pwsalt" => &w.salt,
                    _ => &w.ciphertext,
                };
                let ver = [0, 1, 3, 255, 0x5a][t.draw(5) as usize];
                x[k] = match t.draw(3) {
                    0 => b58(ver, d),
                    1 => b58(2, d)[1..].to_string(),
                    _ => ["".to_string(), "1".into(), "1111".into(), "3QJmnh".into()][t.draw(4) as usize].clone(),
                }
                .into();
                file = text(t, &x);
                "other-version"
            }
            9 => {
                let mut x = v.clone();
                let k = *t.pick(&["box_primitive", "pw_primitive"]);
                x[k] = (*t.pick(&["XSalsa20Poly1305", "xsalsa20poly1305 ", "argon2id", "argon2", "", "argon2i", "xsalsa20poly1305", "xchacha20poly1305"])).into();
                file = text(t, &x);
                "other-primitive"
            }
            10 => {
                let mut x = v.clone();
                let k = *t.pick(&["box_primitive", "pw_primitive", "nonce", "pwsalt", "pwdiff", "ciphertext"]);
                match t.draw(4) {
                    0 => drop(x.as_object_mut().unwrap().remove(k)),
                    1 => x[k] = Value::Null,
                    2 => x[k] = json!([134217728, "6"]),
                    _ => x[k] = json!(["C6ak"]),
                }
                file = text(t, &x);
                "field-misshaped"
            }
            11 => {
                file.truncate(t.draw(file.len() as u64) as usize);
                "torn"
            }
            12 => {
                let mut b = file.into_bytes();
                for _ in 0..=t.draw(2) {
                    let i = t.draw(b.len() as u64) as usize;
                    b[i] = if t.draw(2) == 1 { b[i] ^ 1 << t.draw(7) } else { t.draw(128) as u8 };
                }
                file = String::from_utf8(b).unwrap();
                "damaged"
            }
            _ => {
                // parts of two files
                let mut x = v.clone();
                let k = *t.pick(&["nonce", "pwsalt", "ciphertext"]);
                x[k] = other.0.json()[k].clone();
                file = text(t, &x);
                if t.draw(2) == 1 {
                    pw = other.1.password.clone();
                }
                "two-files-mixed"
            }
        };
        if what != "none" {
            ctx.fault(what);
        }
        // ------------------------------------------------ what is to happen
        let parsed: Option<Value> = serde_json::from_str::<Value>(&file).ok();
        let said = parsed.as_ref().and_then(Wallet::read);
        // members that come twice, a nonsense number: only what was meant to be read is compared
        let odd = what == "damaged";
        let _ = same;
        let sees = match &said {
            None if odd && parsed.is_some() => Sees::Refuses,
            None => Sees::Unreadable,
            Some(x) if *x == original && pw == s.password => Sees::Opens,
            Some(x) if Wallet { diff: original.diff, ..x.clone() } == original && x.diff[0] / 1024 == original.diff[0] / 1024 && x.diff[1] == original.diff[1] && pw == s.password => Sees::Free,
            // the other file as a whole
            Some(x) if *x == other.0 => Sees::Free,
            Some(_) => Sees::Refuses,
        };
        ctx.event(|| format!("generation {g}: {what}, costs {:?}, password {}, {file}", said.as_ref().map(|x| x.diff), simcore::hex(&pw)));
        ctx.nontrivial = true;
        let read = match guarded(|| SecretBox::try_from(file.as_str())) {
            Ok(r) => r,
            Err(p) => return Err(Violation::new("wallet-panic", format!("{what}: reading {file}: {p}"))),
        };
        let sb = match (read, &sees) {
            (Ok(_), Sees::Unreadable) => return Err(Violation::new("wallet-accepts", format!("{what}: {file} is no wallet file and is read"))),
            (Err(e), Sees::Opens) => return Err(Violation::new("wallet-refuses", format!("{file}: {e}"))),
            (Err(e), _) => {
                ctx.event(|| format!("not read: {e}"));
                ctx.probe("not-read");
                break;
            }
            (Ok(sb), _) => sb,
        };
        // ------------------------------------------------ opening
        for pair in [false, true] {
            let got: Result<Result<Vec<u8>, String>, String> = guarded(|| {
                if pair {
                    sb.get_keypair(&pw).map(|k| k.public.into_address().into_bytes()).map_err(|e| e.to_string())
                } else {
                    sb.get_private_key_bytes(&pw).map_err(|e| e.to_string())
                }
            });
            let got = match got {
                Ok(g) => g,
                Err(p) => return Err(Violation::new("wallet-panic", format!("{what}: opening {file}: {p}"))),
            };
            ctx.event(|| format!("  {}: {}", if pair { "pair" } else { "bytes" }, match &got {
                Ok(b) => simcore::hex(b),
                Err(e) => e.clone(),
            }));
            // 33 bytes, the first is the version of the format
            let whole = s.plain.len() == 33;
            let want = whole.then(|| {
                if !pair {
                    return Some(s.plain[1..].to_vec());
                }
                let be: Vec<u8> = s.plain[1..].iter().rev().copied().collect();
                Keypair::from_hex(&hex::encode(be)).ok().map(|k| k.public.into_address().into_bytes())
            });
            match (&sees, got, want) {
                (Sees::Opens, Ok(b), Some(Some(w))) => {
                    if b != w {
                        return Err(Violation::new("wallet-wrong-key", format!("{file} gives {} instead of {}", simcore::hex(&b), simcore::hex(&w))));
                    }
                    ctx.probe(if pair { "pair-opened" } else { "opened" });
                }
                (Sees::Opens, Err(e), Some(Some(_))) => return Err(Violation::new("wallet-refuses", format!("{file} with password {}: {e}", simcore::hex(&pw)))),
                (Sees::Opens, Ok(b), Some(None)) => return Err(Violation::new("wallet-wrong-key", format!("{file} holds no scalar and gives a pair {}", String::from_utf8_lossy(&b)))),
                (Sees::Opens, Err(_), Some(None)) => ctx.probe("no-scalar"),
                (Sees::Opens, Ok(b), None) if s.plain.len() < 33 && pair || s.plain.is_empty() => {
                    return Err(Violation::new("wallet-wrong-key", format!("{file} holds {} bytes and gives {}", s.plain.len(), simcore::hex(&b))))
                }
                (Sees::Opens, _, None) => ctx.probe("no-key-inside"),
                (Sees::Refuses, Ok(b), _) => return Err(Violation::new("wallet-accepts", format!("{what}: {file} with password {} gives {}", simcore::hex(&pw), simcore::hex(&b)))),
                (Sees::Refuses, Err(_), _) => ctx.probe("not-opened"),
                (Sees::Free, Ok(b), Some(Some(w))) => {
                    if said.as_ref() != Some(&other.0) && b != w {
                        return Err(Violation::new("wallet-wrong-key", format!("{what}: {file} gives {}", simcore::hex(&b))));
                    }
                }
                (Sees::Free, ..) | (Sees::Unreadable, ..) => {}
            }
        }
        // ------------------------------------------------ exported, and stored again
        let out = match guarded(|| -> Result<String, mina_secrets::secret_box::Error> { sb.clone().try_into() }) {
            Ok(o) => o,
            Err(p) => return Err(Violation::new("wallet-panic", format!("{what}: exporting {file}: {p}"))),
        };
        let as_value = match guarded(|| -> Result<Value, mina_secrets::secret_box::Error> { sb.try_into() }) {
            Ok(o) => o,
            Err(p) => return Err(Violation::new("wallet-panic", format!("{what}: exporting {file}: {p}"))),
        };
        let said = match said {
            Some(x) => x,
            None => break,
        };
        match (out, as_value) {
            (Ok(o), Ok(av)) => {
                let back: Value = serde_json::from_str(&o).unwrap_or(Value::Null);
                if Wallet::read(&back).as_ref() != Some(&said) || av != back {
                    return Err(Violation::new("wallet-export", format!("{file} is exported as {o} and {av}")));
                }
                ctx.probe("exported");
                v = back;
                w = said;
            }
            (Err(e), _) | (_, Err(e)) => {
                if said.salt.len() == 16 {
                    return Err(Violation::new("wallet-export", format!("{file} is not exported: {e}")));
                }
                ctx.probe("not-exported");
                break;
            }
        }
    }
    Ok(())
}
