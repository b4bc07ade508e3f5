//! C19: an account and its Merkle path, as a node's GraphQL service gives them, convince the holder of a ledger
//! root exactly if the account is in that ledger as it is shown.
use crate::account::{self, Acc, Key};
use crate::c16::{self, Kind};
use crate::json;
use mina_merkle::{MerklePath, MerkleProof, MinaPoseidonMerkleHasher, MinaPoseidonMerkleMerger};
use mina_rs_base::account::Account;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use num::BigUint;
use proof_systems::mina_hasher::Fp;
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Value};
use simcore::{Ctx, Outcome, Violation};
use std::panic::{catch_unwind, AssertUnwindSafe};

const RECEIPT: u8 = 0x0c;
const STATE: u8 = 0x10;
const PERMS: [&str; 6] = ["None", "Either", "Proof", "Signature", "Both", "Impossible"];
const ACTIONS: [&str; 11] = ["editState", "send", "receive", "setDelegate", "setPermissions", "setVerificationKey", "setZkappUri", "editSequenceState", "setTokenSymbol", "incrementNonce", "setVotingFor"];
const TIMING: [&str; 5] = ["initialMinimumBalance", "cliffTime", "cliffAmount", "vestingPeriod", "vestingIncrement"];
/// receipt chain hashes of accounts without receipts, as Berkeley and mainnet give them
const EMPTY_RECEIPTS: [&str; 2] = ["2mzbV7WevxLuchs2dAMY4vQBS6XttnCUF8Hvks4XNBQ5qiSGGBQe", "2n2K1aziimdYu5QCf8mU4gducZCB5u5s78sGnp56zT2tig4ugVHD"];

// ---------------------------------------------------------------- what the service says
fn key58(k: &Key) -> String {
    json::b58(0xcb, &[&[1, 1][..], &k.0, &[k.1 as u8]].concat())
}
fn hash58(v: u8, h: &[u8; 32]) -> String {
    json::b58(v, &[&[1][..], h].concat())
}
fn show(ctx: &mut Ctx, a: &Acc) -> Value {
    let mut o = json!({
        "publicKey": key58(&a.key),
        "token": a.token.to_string(),
        "balance": {"total": a.balance.to_string(), "liquid": "1", "locked": "2"},
        "isTokenOwner": a.owns_token,
        "isDisabled": a.disabled,
        "nonce": a.nonce.to_string(),
        "inferredNonce": "77",
        "receiptChainHash": hash58(RECEIPT, &a.receipt),
        "delegate": a.delegate.as_ref().map(key58),
        "votingFor": hash58(STATE, &a.voting),
        "zkappState": null,
    });
    let mut p = json!({});
    for (k, v) in ACTIONS.iter().zip(a.perms) {
        p[k] = PERMS[v as usize].into();
    }
    o["permissions"] = p;
    let mut t = json!({});
    match &a.timing {
        Some(x) => TIMING.iter().zip(x).for_each(|(k, v)| t[k] = v.to_string().into()),
        None => TIMING.iter().for_each(|k| t[k] = Value::Null),
    }
    o["timing"] = if a.timing.is_none() && ctx.tape.chance(1, 3) { Value::Null } else { t };
    for (k, b) in [("isTokenOwner", a.owns_token), ("isDisabled", a.disabled)] {
        if !b && ctx.tape.chance(1, 8) {
            o[k] = Value::Null;
        }
    }
    if a.delegate.is_none() && ctx.tape.chance(1, 8) {
        o.as_object_mut().unwrap().remove("delegate");
    }
    o
}
fn decimal(f: &Fp) -> String {
    BigUint::from_bytes_le(&f.to_bytes()).to_str_radix(10)
}

// ---------------------------------------------------------------- what it means
enum Is {
    Account(Box<Acc>),
    Unsure,
    Not,
}
struct Reader {
    unsure: bool,
}
impl Reader {
    fn number(&mut self, v: &Value, max: u64) -> Option<u64> {
        let s = v.as_str()?;
        let t = s.strip_prefix('+').unwrap_or(s);
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        self.unsure |= t != s || t.len() > 1 && t.starts_with('0');
        let t = t.trim_start_matches('0');
        if t.is_empty() {
            return Some(0);
        }
        t.parse::<u64>().ok().filter(|n| *n <= max)
    }
    fn flag(&mut self, v: &Value) -> bool {
        // the schema allows null
        self.unsure |= !v.is_boolean() && !v.is_null();
        v.as_bool().unwrap_or(false)
    }
    fn key(&mut self, v: &Value) -> Option<Key> {
        let s = v.as_str()?;
        let b = json::un58(s, 0xcb)?;
        if b.len() != 35 || b[..2] != [1, 1] || b[34] > 1 {
            return None;
        }
        let x: [u8; 32] = b[2..34].try_into().ok()?;
        Fp::from_bytes(&x).ok()?;
        Some((x, b[34] == 1))
    }
    fn hash(&mut self, v: &Value, version: u8) -> Option<[u8; 32]> {
        let b = json::un58(v.as_str()?, version)?;
        self.unsure |= b.first() != Some(&1);
        let x: [u8; 32] = b.get(1..)?.try_into().ok()?;
        Fp::from_bytes(&x).ok()?;
        Some(x)
    }
    fn account(&mut self, v: &Value) -> Option<Acc> {
        let mut a = Acc {
            key: self.key(&v["publicKey"])?,
            token: self.number(&v["token"], u64::MAX)?,
            balance: self.number(&v["balance"]["total"], u64::MAX)?,
            owns_token: self.flag(&v["isTokenOwner"]),
            disabled: self.flag(&v["isDisabled"]),
            nonce: self.number(&v["nonce"], u32::MAX as u64)?,
            receipt: self.hash(&v["receiptChainHash"], RECEIPT)?,
            voting: self.hash(&v["votingFor"], STATE)?,
            ..Acc::default()
        };
        match &v["delegate"] {
            Value::Null => {}
            d if d.is_string() => a.delegate = Some(self.key(d)?),
            _ => self.unsure = true,
        }
        for (k, x) in ACTIONS.iter().zip(&mut a.perms) {
            let s = v["permissions"][k].as_str()?;
            *x = PERMS.iter().position(|p| *p == s)? as u8;
        }
        let t = &v["timing"];
        if !t.is_null() && !(t.is_object() && TIMING.iter().all(|k| t[k].is_null())) {
            let mut x = [0; 5];
            for (i, k) in TIMING.iter().enumerate() {
                // slots are 32 bits
                x[i] = self.number(&t[k], if i == 1 || i == 3 { u32::MAX as u64 } else { u64::MAX })?;
            }
            a.timing = Some(x);
        }
        Some(a)
    }
}
fn is(v: &Value) -> Is {
    let mut r = Reader { unsure: false };
    match r.account(v) {
        None => Is::Not,
        Some(_) if r.unsure => Is::Unsure,
        Some(a) => Is::Account(Box::new(a)),
    }
}
/// the place a path claims and the root it leads to from this leaf
fn climb(v: &Value, leaf: Fp) -> Option<(usize, Fp)> {
    let v = v.as_array()?;
    if v.is_empty() || v.len() >= 63 {
        return None;
    }
    let (mut h, mut place) = (leaf, 0usize);
    for (k, n) in v.iter().enumerate() {
        n.as_object()?;
        let get = |f: &str| match &n[f] {
            Value::Null => Some(None),
            Value::String(s) if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) => {
                let b = BigUint::parse_bytes(s.as_bytes(), 10)?;
                let mut b = b.to_bytes_le();
                b.resize(b.len().max(32), 0);
                (b.len() == 32).then(|| Fp::from_bytes(&b).ok()).flatten().map(Some)
            }
            _ => None,
        };
        h = match (get("left")?, get("right")?) {
            (Some(x), None) => account::node(&h, &x, k as u32 + 1, "kimchi"),
            (None, Some(x)) => {
                place += 1 << k;
                account::node(&x, &h, k as u32 + 1, "kimchi")
            }
            _ => return None,
        };
    }
    Some((place, h))
}

// ---------------------------------------------------------------- the ledger and its history
struct Version {
    accounts: Vec<Acc>,
    /// rows of hashes from the leaves up
    rows: Vec<Vec<Fp>>,
    root: Fp,
}
fn version(accounts: Vec<Acc>, height: u32) -> Version {
    let mut rows: Vec<Vec<Fp>> = vec![accounts.iter().map(|a| account::leaf_hash(a, false).unwrap()).collect()];
    for h in 1..=height {
        let next = rows.last().unwrap().chunks(2).map(|c| account::node(&c[0], c.get(1).unwrap_or(&account::empty(h - 1, "kimchi")), h, "kimchi")).collect();
        rows.push(next);
    }
    let root = rows[height as usize][0];
    Version { accounts, rows, root }
}
fn path(v: &Version, i: usize, height: u32) -> Value {
    (0..height as usize)
        .map(|h| {
            let k = i >> h;
            let x = v.rows[h].get(k ^ 1).copied().unwrap_or_else(|| account::empty(h as u32, "kimchi"));
            if k & 1 == 0 {
                json!({"left": decimal(&x), "right": null})
            } else {
                json!({"left": null, "right": decimal(&x)})
            }
        })
        .collect::<Vec<_>>()
        .into()
}
fn small(ctx: &mut Ctx) -> u64 {
    [0, 1, 2, 999, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX][ctx.tape.draw(9) as usize]
}
fn new_account(ctx: &mut Ctx) -> Acc {
    let mut a = c16::random_account(ctx, false);
    // what the service does not say
    a.symbol = [0; 32];
    a.zkapp = false;
    a.uri = false;
    if let Some(t) = &mut a.timing {
        t[1] &= u32::MAX as u64;
        t[3] &= u32::MAX as u64;
    }
    if ctx.tape.chance(1, 4) {
        a.receipt = json::un58(EMPTY_RECEIPTS[ctx.tape.draw(2) as usize], RECEIPT).unwrap()[1..].try_into().unwrap();
    }
    a
}
/// one thing about the account is different
fn change(ctx: &mut Ctx, a: &mut Acc) -> &'static str {
    match ctx.tape.draw(14) {
        0 => {
            a.balance ^= 1 << ctx.tape.draw(64);
            "balance"
        }
        1 => {
            a.nonce ^= 1 << ctx.tape.draw(32);
            "nonce"
        }
        2 => {
            a.token ^= 1 << ctx.tape.draw(64);
            "token"
        }
        3 => {
            a.owns_token = !a.owns_token;
            "token owner"
        }
        4 => {
            a.disabled = !a.disabled;
            "disabled"
        }
        5 => {
            a.receipt[ctx.tape.draw(31) as usize] ^= 1;
            "receipt chain"
        }
        6 => {
            a.voting[ctx.tape.draw(31) as usize] ^= 1;
            "vote"
        }
        7 => {
            a.delegate = match a.delegate {
                Some(_) if ctx.tape.chance(1, 2) => None,
                Some((x, odd)) => Some((x, !odd)),
                None => Some(a.key),
            };
            "delegate"
        }
        8 | 9 => {
            let t = a.timing.get_or_insert([0, 0, 0, 1, 0]);
            let k = ctx.tape.draw(5) as usize;
            t[k] ^= 1 << ctx.tape.draw(if k % 2 == 1 { 32 } else { 64 });
            "timing"
        }
        10 => {
            a.timing = match a.timing {
                Some(_) => None,
                None => Some([small(ctx), 5, small(ctx), 1, 0]),
            };
            "whether timed"
        }
        11 => {
            a.key.1 = !a.key.1;
            "key"
        }
        _ => {
            let k = ctx.tape.draw(11) as usize;
            a.perms[k] = (a.perms[k] + 1 + ctx.tape.draw(5) as u8) % 6;
            "permission"
        }
    }
}

#[derive(Clone)]
struct Msg {
    to: usize,
    text: String,
    /// the version it was made of, if nobody touched it
    honest: Option<usize>,
}
fn garble(ctx: &mut Ctx, v: &mut Value, other: &Value) {
    let acc = &mut v["account"];
    let odd = |ctx: &mut Ctx| [Value::Null, "".into(), "x".into(), 7.into(), true.into(), json!([]), json!({}), "-1".into(), "18446744073709551616".into(), "4294967296".into(), "1.0".into(), "007".into(), "+7".into(), "None".into()][ctx.tape.draw(14) as usize].clone();
    const FIELDS: [&str; 10] = ["publicKey", "token", "balance", "isTokenOwner", "isDisabled", "nonce", "receiptChainHash", "delegate", "votingFor", "timing"];
    match ctx.tape.draw(12) {
        0 => {
            let k = FIELDS[ctx.tape.draw(10) as usize];
            acc[k] = odd(ctx);
        }
        1 => {
            let k = FIELDS[ctx.tape.draw(10) as usize];
            acc[k] = other["account"][k].clone();
        }
        2 => {
            let k = ACTIONS[ctx.tape.draw(11) as usize];
            acc["permissions"][k] = if ctx.tape.chance(2, 3) { PERMS[ctx.tape.draw(6) as usize].into() } else { [Value::Null, "".into(), "none".into(), "Any".into(), 3.into()][ctx.tape.draw(5) as usize].clone() };
        }
        3 => {
            // exchanged permissions
            let (j, k) = (ACTIONS[ctx.tape.draw(11) as usize], ACTIONS[ctx.tape.draw(11) as usize]);
            let p = &mut acc["permissions"];
            let (x, y) = (p[j].clone(), p[k].clone());
            p[j] = y;
            p[k] = x;
        }
        4 => {
            let k = TIMING[ctx.tape.draw(5) as usize];
            let x = odd(ctx);
            if !acc["timing"].is_object() {
                acc["timing"] = json!({});
            }
            acc["timing"][k] = x;
        }
        5 => {
            // the same modulo 2^32 or 2^64
            let p = ["/token", "/balance/total", "/nonce", "/timing/cliffTime", "/timing/vestingPeriod", "/timing/cliffAmount"][ctx.tape.draw(6) as usize];
            if let Some(x) = acc.pointer_mut(p) {
                if let Some(n) = x.as_str().and_then(|s| s.parse::<u128>().ok()) {
                    *x = (n + (1u128 << [32, 64][ctx.tape.draw(2) as usize])).to_string().into();
                }
            }
        }
        6 => {
            // a hash outside of the field, or the hash of something else
            let k = ["receiptChainHash", "votingFor"][ctx.tape.draw(2) as usize];
            let version = [RECEIPT, STATE, 5, 0x0d][ctx.tape.draw(4) as usize];
            let mut h = [0xff; 32];
            if ctx.tape.chance(3, 4) {
                h = [7; 32];
                h[31] = 1;
            }
            acc[k] = hash58(version, &h).into();
        }
        7 => {
            // a character
            let k = ["publicKey", "delegate", "receiptChainHash", "votingFor"][ctx.tape.draw(4) as usize];
            if let Some(s) = acc[k].as_str() {
                let mut s: Vec<char> = s.chars().collect();
                let i = ctx.tape.draw(s.len() as u64) as usize;
                s[i] = if s[i] == '2' { '3' } else { '2' };
                acc[k] = s.into_iter().collect::<String>().into();
            }
        }
        8 => v["merklePath"] = other["merklePath"].clone(),
        9 => {
            let p = v["merklePath"].as_array_mut().unwrap();
            let k = ctx.tape.draw(p.len() as u64) as usize;
            match ctx.tape.draw(6) {
                0 => {
                    let (l, r) = (p[k]["left"].clone(), p[k]["right"].clone());
                    p[k] = json!({"left": r, "right": l});
                }
                1 => drop(p.remove(k)),
                2 => p.clear(),
                3 => {
                    let x = p[k].clone();
                    p.insert(k, x)
                }
                4 => p[k] = json!({"left": null, "right": null}),
                _ => p[k] = json!({"left": (["5", "", "x", "-1"][ctx.tape.draw(4) as usize])}),
            }
        }
        10 => {
            let o = acc.as_object_mut().unwrap();
            let keys: Vec<String> = o.keys().cloned().collect();
            o.remove(&keys[ctx.tape.draw(keys.len() as u64) as usize]);
        }
        _ => *acc = odd(ctx),
    }
}

/// What the client learns: the account, its place, and whether the root vouches for it
fn consult(text: &str, root: &Fp) -> Option<(Account, usize, bool)> {
    let v: Value = serde_json::from_str(text).ok()?;
    let a = Account::from_graphql_json(&v["account"]).ok()?;
    let p: MerklePath = serde_json::from_value(v["merklePath"].clone()).ok()?;
    let n = p.0.len() as u32;
    let p = p.to_proof::<Account, MinaPoseidonMerkleHasher<Account>, MinaPoseidonMerkleMerger>(a.clone()).ok()?;
    let place = p.index + 1 - (1usize << n);
    Some((a, place, p.verify(root)))
}
/// Mina hashes no delegate as the empty key
fn undelegated(a: &Acc) -> Acc {
    let mut a = a.clone();
    a.delegate = a.delegate.filter(|d| *d != ([0; 32], false));
    a
}
fn differ(a: &Acc, b: &Acc) -> String {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    let k = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(0).saturating_sub(30);
    format!("...{:.120} and ...{:.120}", &x[k..], &y[k..])
}

struct Client {
    trusts: usize,
    asks: usize,
    done: bool,
}
fn deliver(ctx: &mut Ctx, m: &Msg, c: &mut Client, versions: &[Version]) -> Outcome {
    let fail = |class: &str, d: String| Err(Violation::new(class, d));
    let ledger = &versions[c.trusts];
    let v: Value = serde_json::from_str(&m.text).unwrap_or_default();
    let want = is(&v["account"]);
    let got = catch_unwind(AssertUnwindSafe(|| consult(&m.text, &ledger.root)));
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("client-panics", format!("{}: {:.600}", simcore::runner::panic_msg(&e), m.text)),
    };
    ctx.nontrivial = true;
    if let Some((a, place, true)) = &got {
        // it believes that this account is in the ledger, at this place
        let a = a.view();
        match ledger.accounts.get(*place) {
            None => return fail("account-of-nobody-accepted", format!("at {place}: {a:?}")),
            Some(b) if undelegated(b) != undelegated(&a) => {
                return fail("other-account-accepted", format!("at {place}: accepted and there: {}", differ(&a, b)));
            }
            _ => {}
        }
        ctx.probe("accepted");
        if *place == c.asks {
            c.done = true;
        }
    }
    match (&want, &got) {
        (Is::Not, Some((a, _, _))) => return fail("no-account-read", format!("{:.500} as {:?}", v["account"].to_string(), a.view())),
        (Is::Account(b), Some((a, place, ok))) => {
            let a = a.view();
            if a != **b {
                return fail("account-misread", format!("read and said: {}", differ(&a, b)));
            }
            let to = climb(&v["merklePath"], account::leaf_hash(b, false).unwrap());
            match to {
                Some((p, r)) => {
                    if p != *place {
                        return fail("wrong-place", format!("{place}, not {p}"));
                    }
                    if (r == ledger.root) != *ok {
                        return fail(if *ok { "bad-account-accepted" } else { "good-account-refused" }, format!("{:.500}", m.text));
                    }
                    if !ok {
                        ctx.probe("refused");
                    }
                }
                None => return fail("odd-path-read", v["merklePath"].to_string()),
            }
        }
        (Is::Account(b), None) => {
            if climb(&v["merklePath"], account::leaf_hash(b, false).unwrap()).is_some() {
                return fail("account-unreadable", format!("{:.500}", v["account"].to_string()));
            }
            ctx.probe("path-unreadable");
        }
        (Is::Not, None) => ctx.probe("account-unreadable"),
        _ => ctx.probe("unsure"),
    }
    if m.honest == Some(c.trusts) && !matches!(got, Some((_, _, true))) {
        return fail("honest-answer-refused", format!("{:.700}", m.text));
    }
    if m.honest.is_some_and(|v| v != c.trusts) {
        ctx.probe("stale-answer");
    }
    Ok(())
}

pub fn c19(ctx: &mut Ctx) -> Outcome {
    let height = [20, 1, 2, 3, 4, 6, 35][ctx.tape.draw(7) as usize];
    let n = ctx.tape.range(1, 12.min(1 << height)) as usize;
    let mut accounts: Vec<Acc> = vec![];
    for _ in 0..n {
        let a = if !accounts.is_empty() && ctx.tape.chance(1, 2) {
            // a twin of another account
            let mut a = accounts[ctx.tape.draw(accounts.len() as u64) as usize].clone();
            change(ctx, &mut a);
            a
        } else {
            new_account(ctx)
        };
        accounts.push(a);
    }
    let mut versions = vec![version(accounts, height)];
    let mut clients: Vec<Client> = (0..ctx.tape.range(1, 3)).map(|_| Client { trusts: 0, asks: 0, done: false }).collect();
    for c in &mut clients {
        c.asks = ctx.tape.draw(n as u64) as usize;
    }
    // what the service has; it may fall back to what it had stored
    let (mut serves, mut stored) = (0, 0);
    let mut flying: Vec<Msg> = vec![];
    let answer = |ctx: &mut Ctx, versions: &[Version], serves: usize, i: usize| -> Value {
        let v = &versions[serves];
        json!({"account": show(ctx, &v.accounts[i]), "merklePath": path(v, i, height)})
    };
    for _ in 0..ctx.tape.range(6, 40) {
        match ctx.tape.draw(12) {
            0 | 1 => {
                // a block: the ledger changes
                let mut a = versions.last().unwrap().accounts.clone();
                let k = ctx.tape.draw(a.len() as u64) as usize;
                let what = if a.len() < 1 << height.min(4) && ctx.tape.chance(1, 4) {
                    let x = new_account(ctx);
                    a.push(x);
                    "a new account"
                } else {
                    change(ctx, &mut a[k])
                };
                versions.push(version(a, height));
                if ctx.tape.chance(2, 3) {
                    serves = versions.len() - 1;
                }
                ctx.event(|| format!("version {}: {what} of {k}", versions.len() - 1));
            }
            2 => {
                let c = ctx.tape.draw(clients.len() as u64) as usize;
                clients[c].trusts = versions.len() - 1;
                clients[c].done = false;
                ctx.event(|| format!("client {c} trusts version {}", versions.len() - 1));
            }
            3 => stored = serves,
            4 => {
                ctx.fault("service-restart");
                serves = stored;
                ctx.event(|| format!("the service restarts with version {serves}"));
            }
            5..=8 => {
                let to = ctx.tape.draw(clients.len() as u64) as usize;
                let i = clients[to].asks.min(versions[serves].accounts.len() - 1);
                let mut v = answer(ctx, &versions, serves, i);
                let mut honest = Some(serves);
                if ctx.tape.chance(1, 2) {
                    ctx.fault("answer-tampered");
                    honest = None;
                    if ctx.tape.chance(1, 4) {
                        // a service that lies consistently about one thing
                        let mut a = versions[serves].accounts[i].clone();
                        let what = change(ctx, &mut a);
                        v["account"] = show(ctx, &a);
                        ctx.event(|| format!("lies about {what}"));
                    } else {
                        let j = ctx.tape.draw(versions[serves].accounts.len() as u64) as usize;
                        let other = answer(ctx, &versions, serves, j);
                        garble(ctx, &mut v, &other);
                    }
                }
                let mut text = v.to_string();
                if honest.is_none() && ctx.tape.chance(1, 12) {
                    ctx.fault("answer-cut");
                    text.truncate(ctx.tape.draw(text.len() as u64) as usize);
                }
                ctx.event(|| format!("answer of version {serves} about {i} to {to}{}", if honest.is_none() { format!(", tampered: {text:.400}") } else { String::new() }));
                flying.push(Msg { to, text, honest });
            }
            _ if !flying.is_empty() => {
                let k = ctx.tape.draw(flying.len() as u64) as usize;
                match ctx.tape.draw(6) {
                    0 => {
                        ctx.fault("message-lost");
                        flying.swap_remove(k);
                    }
                    1 => {
                        ctx.fault("message-duplicated");
                        let m = flying[k].clone();
                        deliver(ctx, &m, &mut clients[m.to], &versions)?;
                    }
                    2 => {
                        ctx.fault("message-misdirected");
                        let mut m = flying.swap_remove(k);
                        m.to = ctx.tape.draw(clients.len() as u64) as usize;
                        deliver(ctx, &m, &mut clients[m.to], &versions)?;
                    }
                    _ => {
                        let m = flying.swap_remove(k);
                        ctx.event(|| format!("arrives at {}", m.to));
                        deliver(ctx, &m, &mut clients[m.to], &versions)?;
                    }
                }
            }
            _ => {}
        }
    }
    // the faults stop: whoever asks is answered and convinced
    for c in 0..clients.len() {
        let last = versions.len() - 1;
        clients[c].trusts = last;
        clients[c].done = false;
        let i = clients[c].asks;
        let v = answer(ctx, &versions, last, i);
        deliver(ctx, &Msg { to: c, text: v.to_string(), honest: Some(last) }, &mut clients[c], &versions)?;
        if !clients[c].done {
            return Err(Violation::new("never-convinced", format!("client {c} about account {i}")));
        }
    }
    Ok(())
}
