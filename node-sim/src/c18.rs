//! C18: blocks as JSON, as a mainnet node gets them from the explorer service: every text is read as the block it
//! says, or refused; what is shown of a block is what it holds.
use crate::blocks;
use crate::c14::{self, *};
use crate::c15;
use crate::exec::*;
use crate::fork::Info;
use crate::json::{self, J};
use mina_rs_base::types::*;
use mina_serialization_types::json::ExternalTransitionJson;
use mina_serialization_types::staged_ledger_diff as wire;
use mina_serialization_types::v1::ExternalTransitionV1;
use proof_systems::mina_hasher::Fp;
use serde_json::Value;
use simcore::{Ctx, Outcome, Violation};
use std::cell::RefCell;
use std::rc::Rc;

const DIR: &str = "/repo/protocol/test-fixtures/src/data";
/// JSON, and the same block in bin_prot where there is one
const FIXTURES: &[(&str, Option<&str>)] = &[
    ("mainnet-77748-3NKaBJsN1SehD6iJwRwJSFmVzJg5DXSUQVgnMxtH4eer4aF5BrDK", Some("3NKaBJsN1SehD6iJwRwJSFmVzJg5DXSUQVgnMxtH4eer4aF5BrDK")),
    ("mainnet-77749-3NK3P5bJHhqR7xkZBquGGfq3sERUeXNYNma5YXRMjgCNsTJRZpgL", Some("3NK3P5bJHhqR7xkZBquGGfq3sERUeXNYNma5YXRMjgCNsTJRZpgL")),
    ("mainnet-113267-3NKtqqstB6h8SVNQCtspFisjUwCTqoQ6cC1KGvb6kx6n2dqKkiZS", None),
    ("mainnet-147571-3NKwrze6FvGQCCF6L7Q2JLvwgnsm56hwSny9kUyjbSUr8oqu1MGp", None),
    ("mainnet-149909-3NLCeY7UwgCryuvk3Wevm9ndMDvWAMjwGBfBJS12MqL1QoTQWEWt", None),
];
/// the one with proofs of work
const WORKS: usize = 4;

struct Template {
    block: ExternalTransitionV1,
    text: Vec<u8>,
    proof: String,
    works: Value,
}
thread_local! {
    static TEMPLATES: Vec<Rc<Template>> = FIXTURES.iter().map(|f| Rc::new(load(f.0))).collect();
    static BROKEN: RefCell<Option<Violation>> = const { RefCell::new(None) };
}
fn template(k: usize) -> Rc<Template> {
    TEMPLATES.with(|t| t[k].clone())
}
fn load(name: &str) -> Template {
    let p = format!("{DIR}/{name}.json");
    let text = std::fs::read(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
    let v: Value = serde_json::from_slice(&text).unwrap();
    let j: ExternalTransitionJson = serde_json::from_slice(&text).unwrap();
    let block = j.into();
    let proof = v["protocol_state_proof"].as_str().unwrap().to_string();
    let works = v["staged_ledger_diff"]["diff"][0]["completed_works"].clone();
    Template { block, text, proof, works }
}
fn broken(v: Violation) {
    BROKEN.with(|b| {
        b.borrow_mut().get_or_insert(v);
    })
}

/// What a text is, by the description of the format
enum Is {
    Block(Box<ExternalTransitionV1>),
    /// an unusual way to say this, may be refused
    Odd(Box<ExternalTransitionV1>),
    /// says something in the parts that are not described
    Opaque(Value),
    Unsure,
    Not,
}
fn is(text: &[u8], k: usize) -> Is {
    let Ok(mut v) = serde_json::from_slice::<Value>(text) else { return Is::Not };
    let t = template(k);
    let mut b = Box::new(t.block.clone());
    let mut j = J::reader(t.proof.clone(), t.works.clone());
    let whole = v.clone();
    match j.block(&mut v, &mut b) {
        None => Is::Not,
        _ if j.unsure || j.odd && j.opaque => Is::Unsure,
        _ if j.opaque => Is::Opaque(whole),
        _ if j.odd => Is::Odd(b),
        _ => Is::Block(b),
    }
}
fn write(b: &ExternalTransitionV1, k: usize) -> Value {
    let t = template(k);
    let mut v = Value::Null;
    J::writer(t.proof.clone(), t.works.clone()).block(&mut v, &mut b.clone()).unwrap();
    v
}
/// the first place where two JSON values differ
fn differ(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let mut keys: Vec<_> = x.keys().chain(y.keys()).collect();
            keys.sort();
            keys.dedup();
            keys.into_iter().find_map(|k| differ(x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), &format!("{at}/{k}")))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (a, b))| differ(a, b, &format!("{at}/{i}"))),
        // hex in either case
        (Value::String(x), Value::String(y)) if x.starts_with("0x") && x.eq_ignore_ascii_case(y) => None,
        _ if a == b => None,
        _ => Some(format!("{at}: {:.80} and {:.80}", a.to_string(), b.to_string())),
    }
}
fn known_members(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.retain(|k, _| ["protocol_state", "protocol_state_proof", "staged_ledger_diff", "delta_transition_chain_proof"].contains(&&k[..]));
    }
    v
}
/// does the code under test take the text for what it is?
fn exam(sim: &Sim, text: &[u8], k: usize) {
    let want = is(text, k);
    let got = serde_json::from_slice::<ExternalTransitionJson>(text);
    let say = |class: &str, d: String| broken(Violation::new(class, d));
    match (want, got) {
        (Is::Block(_), Err(e)) => say("readable-block-refused", format!("{e:.200}")),
        (Is::Not, Ok(j)) => {
            let shown = serde_json::to_value(&j).unwrap_or_default();
            let v: Value = serde_json::from_slice(text).unwrap_or_default();
            say("unreadable-block-taken", format!("said and understood: {}", differ(&v, &shown, "").unwrap_or_default()))
        }
        (Is::Not, Err(_)) => sim.probe("unreadable"),
        (Is::Odd(_) | Is::Opaque(_), Err(_)) => sim.probe("unusual-refused"),
        (Is::Unsure, _) => sim.probe("unsure"),
        (Is::Opaque(v), Ok(j)) => {
            sim.probe("proof-changed");
            match serde_json::to_value(&j) {
                Ok(shown) => {
                    if let Some(d) = differ(&known_members(v), &shown, "") {
                        say("block-misread", format!("said and understood: {d}"));
                    }
                }
                Err(e) => say("block-not-shown", e.to_string()),
            }
        }
        (Is::Block(b) | Is::Odd(b), Ok(j)) => {
            sim.probe("readable");
            let want = write(&b, k);
            let shown = match serde_json::to_value(&j) {
                Ok(s) => s,
                Err(e) => return say("block-not-shown", e.to_string()),
            };
            let w: ExternalTransitionV1 = j.clone().into();
            let same = |w: &ExternalTransitionV1| {
                let mut w = w.clone();
                // JSON does not carry the versions
                w.t.current_protocol_version = b.t.current_protocol_version.clone();
                w.t.proposed_protocol_version_opt = b.t.proposed_protocol_version_opt.clone();
                w == *b
            };
            if !same(&w) {
                return say("block-misread", format!("said and understood: {}", differ(&want, &write(&w, k), "").unwrap_or("a proof".into())));
            }
            if let Some(d) = differ(&want, &shown, "") {
                return say("block-shown-wrong", format!("held and shown: {d}"));
            }
            let inner: ExternalTransition = j.into();
            let back: ExternalTransitionV1 = inner.clone().into();
            if !same(&back) {
                return say("block-altered-inside", format!("given and given back: {}", differ(&want, &write(&back, k), "").unwrap_or("a proof or a version".into())));
            }
            let back: ExternalTransitionJson = inner.into();
            match serde_json::to_value(back) {
                Ok(v) => {
                    if let Some(d) = differ(&want, &v, "") {
                        say("block-shown-wrong", format!("held and shown: {d}"));
                    }
                }
                Err(e) => say("block-not-shown", e.to_string()),
            }
        }
    }
}
/// A block that came in bin_prot with any bytes in its proofs is shown as it is, or not shown.
fn show(sim: &Sim) {
    let t = template(WORKS);
    let mut b = t.block.clone();
    let works = &mut b.t.staged_ledger_diff.t.diff.t.0.t.t.completed_works;
    let Some(w) = works.first_mut() else { return };
    let any = |sim: &Sim| [0u8, 1, 0x41, 0x22, 0x7f, 0x80, 0xc3, 0xff][sim.draw(8) as usize];
    use mina_serialization_types::snark_work::OneORTwo::*;
    let p = match &mut w.t.proofs.t {
        One(p) => p,
        Two(p, q) => if sim.chance(1, 2) { p } else { q },
    };
    let p = &mut p.t.t;
    p.statement.t.t.sok_digest.t.0 = (0..sim.draw(5)).map(|_| any(sim)).collect();
    p.transaction_snark_proof.t.t.t.t.statement.t.t.proof_state.t.deferred_values.t.which_branch.t = any(sim);
    sim.fault("odd-bytes-in-proof");
    let j: ExternalTransitionJson = b.clone().into();
    match serde_json::to_string(&j) {
        Err(_) => sim.probe("not-shown"),
        Ok(s) => {
            let bytes = s.into_bytes();
            let Ok(s) = std::str::from_utf8(&bytes) else { return broken(Violation::new("shown-as-no-text", "the JSON of a block is not UTF-8".to_string())) };
            match serde_json::from_str::<ExternalTransitionJson>(s) {
                Err(e) => broken(Violation::new("shown-but-unreadable", e.to_string())),
                Ok(x) => {
                    sim.probe("shown");
                    let mut w: ExternalTransitionV1 = x.into();
                    w.t.current_protocol_version = b.t.current_protocol_version.clone();
                    w.t.proposed_protocol_version_opt = b.t.proposed_protocol_version_opt.clone();
                    if w != b {
                        broken(Violation::new("shown-as-another", "a block shown as JSON reads as another one".to_string()));
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- what the service says
fn escape(sim: &Sim, s: &str, out: &mut String) {
    let plain = serde_json::to_string(s).unwrap();
    if s.is_empty() || !sim.chance(1, 40) {
        out.push_str(&plain);
        return;
    }
    out.push('"');
    for c in s.chars() {
        let mut b = [0; 2];
        for u in c.encode_utf16(&mut b) {
            out.push_str(&format!("\\u{u:04x}"));
        }
    }
    out.push('"');
}
/// the same value in other words
fn render(sim: &Sim, v: &Value, out: &mut String) {
    let space = |sim: &Sim, out: &mut String| {
        if sim.chance(1, 30) {
            out.push_str([" ", "\n", "\t ", "\r\n"][sim.draw(4) as usize]);
        }
    };
    space(sim, out);
    match v {
        Value::Object(o) => {
            let mut keys: Vec<_> = o.iter().collect();
            if keys.len() > 1 && sim.chance(1, 3) {
                let k = sim.draw(keys.len() as u64) as usize;
                keys.rotate_left(k);
            }
            out.push('{');
            for (i, (k, v)) in keys.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                escape(sim, k, out);
                space(sim, out);
                out.push(':');
                render(sim, v, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                render(sim, v, out);
            }
            out.push(']');
        }
        Value::String(s) => escape(sim, s, out),
        v => out.push_str(&v.to_string()),
    }
    space(sim, out);
}
fn text(sim: &Sim, v: &Value) -> Vec<u8> {
    if sim.chance(1, 4) {
        sim.probe("other-words");
        let mut s = String::new();
        render(sim, v, &mut s);
        return s.into_bytes();
    }
    v.to_string().into_bytes()
}

/// every place in the value but the proofs of work
fn paths(v: &Value, at: &mut String, out: &mut Vec<String>) {
    out.push(at.clone());
    let n = at.len();
    let mut go = |k: &str, v: &Value, at: &mut String| {
        at.push('/');
        at.push_str(k);
        paths(v, at, out);
        at.truncate(n);
    };
    match v {
        Value::Object(o) => o.iter().filter(|(k, _)| *k != "completed_works").for_each(|(k, v)| go(k, v, at)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| go(&i.to_string(), v, at)),
        _ => {}
    }
}
const NUMBERS: [&str; 36] = [
    "0", "1", "7", "4294967295", "4294967296", "2147483648", "2147483647", "18446744073709551615", "18446744073709551616", "9223372036854775808", "9007199254740993",
    "-1", "+5", "007", "", "1.5", "0x10", "1e3", " 7", "7 ", "99999999999999999999999999", "0.1", "0.000000001", "0.0000000001", "1.0000000009", "1.10", "1.",
    "18446744073.709551615", "18446744073.709551616", "99999999999", "1.+5", "1.-5", "1.5.5", ".5", "1,5", "1.1000000000",
];
const VERSIONS: [u8; 10] = [0x05, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x14, 0x15, 0x9a, 0xcb];
/// a base58 text with its version byte and payload
fn parts58(s: &str) -> Option<(u8, Vec<u8>)> {
    let b = bs58::decode(s).with_check(None).into_vec().ok()?;
    Some((*b.first()?, b[1..].to_vec()))
}
fn garble(sim: &Sim, s: &str) -> Value {
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit() || b == b'.') {
        return NUMBERS[sim.draw(NUMBERS.len() as u64) as usize].into();
    }
    if let Some((ver, mut p)) = parts58(s) {
        match sim.draw(6) {
            0 => return json::b58(VERSIONS[sim.draw(10) as usize], &p).into(),
            1 => drop(p.pop()),
            2 => p.push(sim.draw(2) as u8),
            3 => p.clear(),
            _ => {
                // another value of the same kind
                let k = sim.draw(p.len().max(1) as u64) as usize;
                if let Some(x) = p.get_mut(k) {
                    *x ^= 1 << sim.draw(8);
                }
            }
        }
        return json::b58(ver, &p).into();
    }
    let mut c: Vec<char> = s.chars().collect();
    match sim.draw(5) {
        0 => drop(c.pop()),
        1 => c.push(['0', 'a', '=', 'é', ' '][sim.draw(5) as usize]),
        2 => c.clear(),
        _ => {
            let k = sim.draw(c.len().max(1) as u64) as usize;
            if let Some(x) = c.get_mut(k) {
                *x = if *x == '2' { '3' } else { '2' };
            }
        }
    }
    c.into_iter().collect::<String>().into()
}
const TAGS: [&str; 14] = ["Zero", "One", "Two", "Applied", "Failed", "Payment", "Stake_delegation", "Set_delegate", "Signed_command", "Coinbase", "Fee_transfer", "Predicate", "Incorrect_nonce", "?"];
/// one thing about the value changes
fn mangle(sim: &Sim, v: &mut Value, k: usize) {
    if k == WORKS && sim.chance(1, 2) {
        return mangle_works(sim, v);
    }
    let mut ps = vec![];
    paths(v, &mut String::new(), &mut ps);
    // half of the time a place within a command or the end of the block
    let some: Vec<&String> = if sim.chance(1, 2) { ps.iter().filter(|p| p.starts_with("/staged_ledger_diff")).collect() } else { ps.iter().collect() };
    if some.is_empty() {
        return;
    }
    let p = some[sim.draw(some.len() as u64) as usize].clone();
    let other = ps[sim.draw(ps.len() as u64) as usize].clone();
    let other = v.pointer(&other).cloned().unwrap_or_default();
    let Some(x) = v.pointer_mut(&p) else { return };
    let odd = |sim: &Sim| [Value::Null, 7.into(), true.into(), serde_json::json!([]), serde_json::json!({}), "".into(), serde_json::json!(["One"]), serde_json::json!([["One", null]]), (-1).into(), 1.5.into()][sim.draw(10) as usize].clone();
    match x {
        Value::String(s) if sim.chance(2, 3) => {
            *x = if TAGS.contains(&&s[..]) { TAGS[sim.draw(14) as usize].into() } else { garble(sim, s) };
        }
        Value::Bool(b) if sim.chance(1, 2) => *b = !*b,
        Value::Null if sim.chance(1, 2) => *x = NUMBERS[sim.draw(NUMBERS.len() as u64) as usize].into(),
        Value::Array(a) if sim.chance(4, 5) => {
            let n = a.len() as u64;
            match sim.draw(6) {
                0 if n > 0 => drop(a.remove(sim.draw(n) as usize)),
                1 if n > 0 => {
                    let k = sim.draw(n) as usize;
                    a.insert(k, a[k].clone())
                }
                2 => a.clear(),
                3 => a.push(odd(sim)),
                4 if n > 1 => {
                    let k = sim.draw(n - 1) as usize;
                    a.swap(k, k + 1)
                }
                _ if n > 0 => {
                    let k = sim.draw(n) as usize;
                    a[k] = odd(sim)
                }
                _ => a.push(Value::Null),
            }
        }
        Value::Object(o) if sim.chance(4, 5) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() || sim.chance(1, 4) {
                o.insert("unknown".into(), odd(sim));
            } else {
                let k = &keys[sim.draw(keys.len() as u64) as usize];
                let x = o.remove(k);
                if sim.chance(1, 2) {
                    o.insert(format!("{k}2"), x.unwrap());
                }
            }
        }
        _ if sim.chance(1, 2) => *x = other,
        _ => *x = odd(sim),
    }
}
/// one value in the proofs of work changes
fn mangle_works(sim: &Sim, v: &mut Value) {
    let Some(w) = v.pointer_mut("/staged_ledger_diff/diff/0/completed_works") else { return };
    let mut ps = vec![];
    paths(w, &mut String::new(), &mut ps);
    if ps.is_empty() {
        return;
    }
    // values that are rare among hundreds of coordinates
    const RARE: [&str; 6] = ["which_branch", "sok_digest", "/sgn", "/fee", "magnitude", "prechallenge"];
    let rare = RARE[sim.draw(6) as usize];
    if sim.chance(1, 2) && ps.iter().any(|p| p.contains(rare)) {
        ps.retain(|p| p.contains(rare));
    }
    let p = &ps[sim.draw(ps.len() as u64) as usize];
    let x = w.pointer_mut(p).unwrap();
    match x {
        Value::String(s) if s.starts_with("0x") => {
            let mut c = s.clone();
            match sim.draw(6) {
                0 => c.truncate(c.len() - 2),
                1 => c.push_str("00"),
                2 => c = "0x".into(),
                3 => c.push('0'),
                4 => c = "".into(),
                _ => {
                    let k = 2 + sim.draw(c.len() as u64 - 2) as usize;
                    c.replace_range(k..k + 1, if &c[k..k + 1] == "a" { "b" } else { "a" });
                }
            }
            *x = c.into();
        }
        Value::String(s) if TAGS.contains(&&s[..]) || ["Pos", "Neg", "Finite", "Infinite", "Shifted_value", "Scalar_challenge"].contains(&&s[..]) => {
            *x = ["Pos", "Neg", "Finite", "Infinite", "One", "Two", "?", ""][sim.draw(8) as usize].into()
        }
        Value::String(s) if s.chars().count() == 1 => *x = ["", "\u{2}", "ab", "é", "\u{7f}", "\"", "\u{80}"][sim.draw(7) as usize].into(),
        Value::String(s) => *x = garble(sim, s),
        Value::Number(n) => *x = n.as_i64().map(|n| Value::from(n.wrapping_add(1))).unwrap_or("x".into()),
        Value::Array(a) => match sim.draw(4) {
            0 => *x = Value::Null,
            1 => *x = "x".into(),
            2 => a.clear(),
            _ => drop(a.pop()),
        },
        Value::Object(_) => *x = [Value::Null, "x".into(), serde_json::json!([])][sim.draw(3) as usize].clone(),
        _ => *x = "x".into(),
    }
}

pub struct Explorer;
#[derive(Clone)]
pub struct Text(Rc<Vec<u8>>, usize);
impl TryFrom<Net<Explorer>> for ExternalTransition {
    type Error = String;
    fn try_from(m: Net<Explorer>) -> Result<Self, String> {
        m.begin();
        let j: ExternalTransitionJson = serde_json::from_slice(&m.msg.0).map_err(|e| m.unreadable(e))?;
        Ok(j.into())
    }
}
fn judge(sim: &Sim, t: &Text) -> Verdict {
    match is(&t.0, t.1) {
        Is::Block(mut b) => c15::judge(sim, &mut b),
        _ => BAD,
    }
}
fn n64(sim: &Sim) -> u64 {
    [0, 1, 999_999_999, 1_000_000_000, 1 << 31, u32::MAX as u64, 10_500_000_000, 1 << 53, i64::MAX as u64, 1 << 63, u64::MAX][sim.draw(11) as usize]
}
/// the numbers a block carries besides its commands
fn numbers(sim: &Sim, b: &mut ExternalTransitionV1) {
    let p = &mut b.t.protocol_state.t.t.body.t.t;
    if sim.chance(1, 2) {
        p.blockchain_state.t.t.timestamp = n64(sim).into();
        p.blockchain_state.t.t.snarked_next_available_token = n64(sim).into();
        p.consensus_state.t.t.total_currency = n64(sim).into();
        p.consensus_state.t.t.next_epoch_data.t.t.ledger.t.t.total_currency = n64(sim).into();
        p.consensus_state.t.t.staking_epoch_data.t.t.ledger.t.t.total_currency = n64(sim).into();
        p.consensus_state.t.t.supercharge_coinbase = sim.chance(1, 2);
        p.consensus_state.t.t.has_ancestor_in_same_checkpoint_window = sim.chance(1, 2);
        p.constants.t.t.delta = (n64(sim) as u32).into();
        p.constants.t.t.genesis_state_timestamp = n64(sim).into();
        p.blockchain_state.t.t.staged_ledger_hash.t.t.non_snark.t.aux_hash.t.0 = (0..sim.draw(4)).map(|i| i as u8 * 80).collect();
    }
    let d = &mut b.t.staged_ledger_diff.t.diff.t;
    let some = |sim: &Sim| sim.chance(1, 2).then(|| n64(sim));
    let pks: Vec<_> = (0..3).map(|_| p.consensus_state.t.t.block_creator.clone()).collect();
    for d in std::iter::once(&mut d.0).chain(d.1.iter_mut()) {
        let d = &mut d.t.t;
        for c in &mut d.commands {
            if sim.chance(1, 2) {
                let balances = wire::TransactionStatusBalanceData { fee_payer_balance: some(sim).map(|x| x.into()), source_balance: some(sim).map(|x| x.into()), receiver_balance: some(sim).map(|x| x.into()) };
                c.t.status = if sim.chance(1, 2) {
                    wire::TransactionStatus::Applied(
                        wire::TransactionStatusAuxiliaryData {
                            fee_payer_account_creation_fee_paid: some(sim).map(|x| x.into()),
                            receiver_account_creation_fee_paid: some(sim).map(|x| x.into()),
                            created_token: some(sim).map(|x| x.into()),
                        }
                        .into(),
                        balances.into(),
                    )
                } else {
                    wire::TransactionStatus::Failed((0..sim.draw(3)).map(|_| json::FAILURES[sim.draw(15) as usize].1.clone().into()).collect(), balances.into())
                }
                .into();
            }
        }
        let ft = |sim: &Sim| -> Option<wire::CoinBaseFeeTransferV1> {
            sim.chance(1, 2).then(|| wire::CoinBaseFeeTransfer { receiver_pk: pks[0].clone(), fee: n64(sim).into() }.into())
        };
        d.coinbase = match sim.draw(3) {
            0 => wire::CoinBase::Zero,
            1 => wire::CoinBase::One(ft(sim)),
            _ => wire::CoinBase::Two(ft(sim), ft(sim)),
        }
        .into();
        d.internal_command_balances = (0..sim.draw(3))
            .map(|_| {
                if sim.chance(1, 2) {
                    wire::InternalCommandBalanceData::CoinBase(wire::CoinBaseBalanceData { coinbase_receiver_balance: n64(sim).into(), fee_transfer_receiver_balance: some(sim).map(|x| x.into()) }.into())
                } else {
                    wire::InternalCommandBalanceData::FeeTransfer(wire::FeeTransferBalanceData { receiver1_balance: n64(sim).into(), receiver2_balance: some(sim).map(|x| x.into()) }.into())
                }
                .into()
            })
            .collect();
    }
    let h = &mut b.t.delta_transition_chain_proof;
    h.1 = (0..sim.draw(3)).map(|i| [i as u8; 32].into()).collect();
}
impl Flavor for Explorer {
    type Msg = Text;
    type Header = ProtocolStateLegacy;
    type Block = ExternalTransition;
    type Frontier = <Mainnet as Flavor>::Frontier;
    const NAME: &'static str = "explorer's";
    fn new_frontier() -> Self::Frontier {
        Mainnet::new_frontier()
    }
    fn chain(f: &Self::Frontier) -> &mina_consensus::common::ProtocolStateChain<ProtocolStateLegacy> {
        f.get_best_chain()
    }
    fn header(b: &ExternalTransition) -> ProtocolStateLegacy {
        b.protocol_state.clone()
    }
    fn extra(_: &Self::Frontier) -> String {
        String::new()
    }
    fn extra_of(_: &Text) -> String {
        String::new()
    }
    fn make(sim: &Sim, i: &mut Info, _: Option<&Info>, _: u64) -> (Text, Verdict) {
        let k = if sim.chance(1, 10) { WORKS } else { sim.draw(WORKS as u64) as usize };
        let mut v = template(k).block.clone();
        c15::compose(sim, &mut v);
        if v.t.staged_ledger_diff.t.diff.t.1.is_some() {
            v.t.staged_ledger_diff.t.diff.t.1.as_mut().unwrap().t.t.completed_works = vec![];
        }
        numbers(sim, &mut v);
        let mut p: ProtocolStateLegacy = v.t.protocol_state.clone().into();
        set_consensus(&mut p.body.consensus_state, i);
        p.previous_state_hash = (&Fp::from(sim.draw(4))).into();
        i.hash = hash_be(&p.state_hash_fp());
        v.t.protocol_state = p.into();
        let t = Text(Rc::new(text(sim, &write(&v, k))), k);
        exam(sim, &t.0, k);
        if sim.chance(1, 20) {
            show(sim);
        }
        let g = judge(sim, &t);
        (t, g)
    }
    fn spoil(sim: &Sim, m: &Text) -> (Text, Verdict) {
        let Is::Block(b) = is(&m.0, m.1) else { return (m.clone(), BAD) };
        let mut c: Vec<u8> = (*m.0).clone();
        match sim.draw(8) {
            0 => c.truncate(sim.draw(c.len() as u64) as usize),
            1 => c.extend([&b" "[..], b"x", b"{}", b"\0", b"]"][sim.draw(5) as usize]),
            2 => {
                let k = sim.draw(c.len() as u64) as usize;
                c[k] ^= 1 << sim.draw(8);
            }
            3 => {
                let mut w = *b.clone();
                c15::change(sim, &mut w);
                c = text(sim, &write(&w, m.1));
            }
            4 if sim.chance(1, 3) => c = [&b""[..], b"null", b"{}", b"[]", b"{", b"\xff", b"[[[[[[[[[[[["][sim.draw(7) as usize].into(),
            _ => {
                let mut v: Value = serde_json::from_slice(&c).unwrap();
                mangle(sim, &mut v, m.1);
                c = text(sim, &v);
            }
        }
        exam(sim, &c, m.1);
        let t = Text(Rc::new(c), m.1);
        match is(&t.0, t.1) {
            // the same header: what the node has to do is settled
            Is::Block(n) if n.t.protocol_state == b.t.protocol_state => {
                let g = judge(sim, &t);
                (t, g)
            }
            Is::Not => (t, BAD),
            _ => {
                let g = judge(sim, m);
                (m.clone(), g)
            }
        }
    }
    fn again(sim: &Sim, m: &Text) -> Text {
        let v: Value = serde_json::from_slice(&m.0).unwrap();
        Text(Rc::new(text(sim, &v)), m.1)
    }
}

pub fn c18(ctx: &mut Ctx) -> Outcome {
    BROKEN.with(|b| *b.borrow_mut() = None);
    let r = startup().and_then(|_| c14::simulate::<Explorer>(ctx));
    match BROKEN.with(|b| b.borrow_mut().take()) {
        Some(v) => Err(v),
        None => r,
    }
}
/// The recorded answers of the service say what the description and the recorded blocks in bin_prot say.
fn startup() -> Outcome {
    thread_local!(static ONCE: std::cell::OnceCell<Outcome> = const { std::cell::OnceCell::new() });
    ONCE.with(|o| {
        o.get_or_init(|| {
            for (k, (name, bin)) in FIXTURES.iter().enumerate() {
                let t = template(k);
                let v: Value = serde_json::from_slice(&t.text).unwrap();
                if let Some(d) = differ(&known_members(v), &write(&t.block, k), "") {
                    return Err(Violation::new("recorded-block-misread", format!("{name}: said and understood: {d}")));
                }
                let Some(bin) = bin else { continue };
                let mut b = blocks::decode(&blocks::fixture_bytes(bin)).unwrap();
                b.t.current_protocol_version = t.block.t.current_protocol_version.clone();
                b.t.proposed_protocol_version_opt = t.block.t.proposed_protocol_version_opt.clone();
                // the service and the recorder had different proofs of one of the blocks
                b.t.protocol_state_proof = t.block.t.protocol_state_proof.clone();
                if b != t.block {
                    return Err(Violation::new("recorded-block-misread", format!("{name}: in bin_prot and in JSON: {}", differ(&write(&b, k), &write(&t.block, k), "").unwrap_or("a proof".into()))));
                }
            }
            Ok(())
        })
        .clone()
    })
}
