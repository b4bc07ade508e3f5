//! C22: what a page asks of the web node is what the services are asked, and what they answer is what the page gets.
use crate::blocks;
use crate::c14::{self, Berkeley, Flavor};
use crate::exec::*;
use crate::fork::{select, Info};
use crate::graphql;
use crate::scope::Scoped;
use mina_berkeley::js_exports as berkeley;
use mina_rs_base::types::*;
use mina_rs_wasm_mvp as mvp;
use mina_serialization_types::json::ExternalTransitionJson;
use mina_serialization_types::v1::ExternalTransitionV1;
use serde_json::{json, Value};
use simcore::{Ctx, Outcome, Violation};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::rc::Rc;
use wasm_bindgen::{JsError, JsValue};

const MVP_ENDPOINT: &str = "http://localhost:3085/graphql";

/// What a value of the page stands for as a whole number below `max`.
#[derive(Clone, Debug, PartialEq)]
enum Asked {
    Is(u64),
    /// left out
    Not,
    /// if it is taken for a number at all, for one of these
    Maybe(Vec<u64>),
    Never,
}
/// `${v}`
fn js_to_string(v: &JsValue) -> String {
    match v {
        JsValue::Undefined => "undefined".into(),
        JsValue::Null => "null".into(),
        JsValue::Bool(b) => b.to_string(),
        JsValue::BigInt(s) | JsValue::String(s) => s.clone(),
        JsValue::Number(n) if n.is_nan() => "NaN".into(),
        JsValue::Number(n) if n.is_infinite() => if *n > 0.0 { "Infinity" } else { "-Infinity" }.into(),
        JsValue::Number(n) if *n == 0.0 => "0".into(),
        JsValue::Number(n) if n.abs() >= 1e21 || n.abs() < 1e-6 => {
            let s = format!("{n:e}");
            let (m, e) = s.split_once('e').unwrap();
            format!("{m}e{}{e}", if e.starts_with('-') { "" } else { "+" })
        }
        JsValue::Number(n) => format!("{n}"),
        JsValue::Array(a) => a.iter().map(js_to_string).collect::<Vec<_>>().join(","),
        _ => "[object Object]".into(),
    }
}
fn asked(v: &JsValue, max: u64, optional: bool) -> Asked {
    let fits = |s: &str| s.parse::<u64>().ok().filter(|x| *x <= max);
    match v {
        JsValue::Undefined | JsValue::Null if optional => Asked::Not,
        JsValue::Number(n) if n.fract() == 0.0 && *n >= 0.0 && *n <= 9007199254740991.0 => fits(&js_to_string(v)).map_or(Asked::Never, Asked::Is),
        JsValue::Number(n) if n.fract() == 0.0 && *n > 0.0 && *n < 18446744073709551616.0 => {
            let l: Vec<u64> = [Some(*n as u64), fits(&js_to_string(v))].into_iter().flatten().filter(|x| *x <= max).collect();
            if l.is_empty() { Asked::Never } else { Asked::Maybe(l) }
        }
        JsValue::BigInt(s) => fits(s).map_or(Asked::Never, Asked::Is),
        JsValue::String(s) if s.is_empty() && optional => Asked::Not,
        JsValue::String(s) if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) => fits(s).map_or(Asked::Never, Asked::Is),
        JsValue::String(s) => {
            // other ways to write a whole number
            let t = s.trim();
            let n = match t.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16).ok().map(|x| x as f64),
                None if t.is_empty() || t.contains(['i', 'n', 'N']) => None,
                None => t.parse::<f64>().ok(),
            };
            match n {
                Some(n) if n.fract() == 0.0 && n >= 0.0 && n <= max as f64 => Asked::Maybe(vec![n as u64]),
                _ => Asked::Never,
            }
        }
        _ => Asked::Never,
    }
}

#[derive(Clone, Debug)]
enum What {
    Info(String),
    Lock(String),
    Unlock(String, String),
    Pay { to: String, from: String, memo: Option<String>, numbers: BTreeMap<&'static str, (JsValue, Asked)> },
    /// asked of the explorer
    Previous,
    Poll,
    Other,
}
#[derive(Clone, Debug)]
enum Got {
    Json(u16, Value),
    Bad,
}
struct Op {
    what: What,
    endpoint: String,
    requests: u64,
    /// requests to the explorer or the API
    asked: Vec<String>,
    answer: Option<Got>,
    failed: bool,
    /// the listing, or an endpoint, did not answer properly
    stopped: bool,
}
struct Known {
    height: usize,
    hash: String,
    text: Rc<String>,
    previous: String,
    /// None: a block that must be refused
    info: Option<Info>,
    state: Value,
}
#[derive(Default)]
struct Log {
    ops: Vec<Op>,
    broken: Option<Violation>,
    /// blocks given to the node, as they would be tips: the hash and how many account proofs come with it
    given: Vec<(Info, String, usize, Value)>,
    next: u64,
    /// the best tip that a page has been shown
    seen: Option<Info>,
}
struct World {
    sim: Sim,
    mvp: bool,
    log: RefCell<Log>,
    chain: RefCell<Vec<Known>>,
    current: Rc<Cell<Option<usize>>>,
    p_fail: u64,
    endpoints: RefCell<BTreeSet<String>>,
    tracked: RefCell<BTreeSet<String>>,
    made: Cell<u64>,
}
thread_local!(static WORLD: RefCell<Option<Rc<World>>> = const { RefCell::new(None) });
fn world() -> Rc<World> {
    WORLD.with(|w| w.borrow().clone().unwrap())
}
impl World {
    fn broken(&self, class: &str, detail: String) {
        let mut l = self.log.borrow_mut();
        if l.broken.is_none() {
            l.broken = Some(Violation::new(class, detail));
        }
    }
    fn fails(&self) -> bool {
        self.sim.chance(self.p_fail, 16)
    }
}

fn draw_text(sim: &Sim) -> String {
    const PARTS: [&str; 25] = [
        "B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg", "a", "7", " ", "\"", "\\", "\n", "\r", "\t", "\u{1}", "\u{7f}", "é", "猫", "🦀", "\u{2028}", "\\u0041", "\\\"", "\"}) { x } other(a: {b: \"", "{}", "{0}", "${v}", "#", "\0", "%s", "\u{feff}",
    ];
    match sim.draw(4) {
        0 => PARTS[0].into(),
        1 => String::new(),
        _ => (0..sim.range(1, 6)).map(|_| PARTS[sim.draw(25) as usize]).collect(),
    }
}
fn draw_number(sim: &Sim, max: u64) -> JsValue {
    let n = match sim.draw(8) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - 1,
        4 => max / 2 + 1,
        5 => sim.draw(1 << 53),
        6 => 1_000_000_000 + sim.draw(1_000_000_000),
        _ => sim.draw(100),
    };
    let n = n.min(max);
    match sim.draw(12) {
        0 | 1 | 2 => JsValue::Number(n as f64),
        3 | 4 => JsValue::BigInt(n.to_string()),
        5 | 6 | 7 => JsValue::String(n.to_string()),
        8 => JsValue::Number([-1.0, 0.5, 1e21, f64::NAN, f64::INFINITY, 18446744073709551616.0, 4294967296.0, -0.0, 1e-7, 1.5e300, 9007199254740993.0, 1152921504606846976.0][sim.draw(12) as usize]),
        9 => JsValue::BigInt(["-1", "18446744073709551616", "4294967296", "340282366920938463463374607431768211455"][sim.draw(4) as usize].into()),
        10 => JsValue::String(["", "-1", "1.5", "1e3", "+5", " 5", "5 ", "0x10", "abc", "18446744073709551616", "4294967296", "007", "٣", "5n", "1_000"][sim.draw(15) as usize].into()),
        _ => [JsValue::Bool(true), JsValue::Null, JsValue::Undefined, JsValue::Map(vec![])][sim.draw(4) as usize].clone(),
    }
}

/// the service: what it is asked must be what the page asked
fn serve(w: &Rc<World>, r: reqwest::sim::Request) -> reqwest::sim::Pending {
    let sim = w.sim.clone();
    let Some(k) = w.current.get() else {
        w.broken("request-of-nobody", format!("{r:?}"));
        return Box::pin(async { Err("refused".into()) });
    };
    let body = String::from_utf8_lossy(r.body.as_deref().unwrap_or_default()).into_owned();
    sim.event(|| format!("call {k} sends {} {} {body:?}", r.method, r.url));
    {
        let mut l = w.log.borrow_mut();
        let op = &mut l.ops[k];
        op.requests += 1;
        let bad = if op.requests > 1 {
            Some(("asked-again", format!("{:?} was sent {} times", op.what, op.requests)))
        } else if r.method != "POST" || r.url != op.endpoint || !r.headers.iter().any(|(a, b)| a == "content-type" && b.starts_with("application/json")) {
            Some(("wrong-request", format!("{:?} for {}: {} {} with {:?}", op.what, op.endpoint, r.method, r.url, r.headers)))
        } else {
            match graphql::parse(r.body.as_deref().unwrap_or_default()) {
                Err(e) => Some(("unreadable-request", format!("{:?}: {e}: {body}", op.what))),
                Ok(a) => compare(&op.what, &a).err().map(|e| ("wrong-request", format!("{:?}: {e}: {body}", op.what))),
            }
        };
        if let Some((class, d)) = bad {
            if l.broken.is_none() {
                l.broken = Some(Violation::new(class, d));
            }
        }
    }
    let w = w.clone();
    Box::pin(async move {
        sim.pause().await;
        let set = |g: Got| w.log.borrow_mut().ops[k].answer = Some(g);
        let id = {
            let mut l = w.log.borrow_mut();
            l.next += 1;
            l.next
        };
        let odd = [json!(null), json!("5"), json!(true), json!(18446744073709551615u64), json!(-7), json!([1, "é\"\\\n", {"a": {}}]), json!({"locked": false, "publicKey": "B62"})][sim.draw(7) as usize].clone();
        let v = match sim.draw(4) {
            0 => json!({"data": {"account": {"balance": {"total": id.to_string()}, "inferredNonce": odd, "locked": true}}}),
            1 => json!({"data": null, "errors": [{"message": format!("no {odd} «{id}»"), "path": ["sendPayment"]}]}),
            2 => json!({"data": {"sendPayment": {"payment": {"id": format!("Av{id}")}}, "x": odd}}),
            _ => [json!(id), json!([id, odd]), json!(format!("{id}\"")), json!(null)][sim.draw(4) as usize].clone(),
        };
        let text = if sim.chance(1, 3) { serde_json::to_string_pretty(&v).unwrap() + "\n" } else { v.to_string() };
        if !w.fails() {
            let status = [200, 200, 200, 200, 200, 201, 400, 500][sim.draw(8) as usize];
            sim.event(|| format!("call {k} is answered {status} {text:?}"));
            set(Got::Json(status, v));
            let s2 = sim.clone();
            return Ok(reqwest::sim::Answer {
                status,
                body: Box::pin(async move {
                    s2.pause().await;
                    Ok(text.into_bytes())
                }),
            });
        }
        set(Got::Bad);
        let how = sim.draw(6);
        let name = ["connection-refused", "connection-refused", "body-broken", "answer-cut", "answer-not-json", "answer-not-json"][how as usize];
        sim.fault(name);
        sim.event(|| format!("call {k}: {name}"));
        let mut body = text.clone().into_bytes();
        match how {
            0 | 1 => return Err("error trying to connect".into()),
            2 => {}
            3 => {
                body.truncate(sim.draw(body.len() as u64) as usize);
                if serde_json::from_slice::<Value>(&body).is_ok() {
                    body.clear();
                }
            }
            4 => body = b"<html>502 Bad Gateway</html>".to_vec(),
            _ => body = [&b""[..], b"{}}", b"undefined", b"{'a': 1}", b"\xff\xfe", b"NaN"][sim.draw(6) as usize].to_vec(),
        }
        let status = [200, 200, 502, 404][sim.draw(4) as usize];
        let s2 = sim.clone();
        Ok(reqwest::sim::Answer {
            status,
            body: Box::pin(async move {
                s2.pause().await;
                if how == 2 { Err("connection reset".into()) } else { Ok(body) }
            }),
        })
    })
}

fn compare(what: &What, a: &graphql::Asked) -> Result<(), String> {
    let (field, mutation, wanted, want_args): (&str, bool, &[&str], bool) = match what {
        What::Info(_) => ("account", false, &["balance.total", "inferredNonce", "locked"], false),
        What::Lock(_) => ("lockAccount", true, &["account.locked"], true),
        What::Unlock(..) => ("unlockAccount", true, &["account.locked"], true),
        What::Pay { .. } => ("sendPayment", true, &["payment.id"], true),
        _ => return Err("nothing has to be asked".into()),
    };
    if a.field != field || a.mutation != mutation {
        return Err(format!("{} is asked for", a.field));
    }
    for x in wanted {
        if !a.wanted.iter().any(|y| x == y) {
            return Err(format!("{x} is not asked for, only {:?}", a.wanted));
        }
    }
    let args = if want_args {
        if a.args.len() != 1 {
            return Err(format!("arguments {:?}", a.args.keys()));
        }
        a.args.get("input").and_then(|x| x.as_object()).ok_or("no input")?.clone()
    } else {
        a.args.clone()
    };
    let mut expect: BTreeMap<&str, &str> = BTreeMap::new();
    let none = BTreeMap::new();
    let mut numbers = &none;
    match what {
        What::Info(k) | What::Lock(k) => drop(expect.insert("publicKey", k)),
        What::Unlock(k, p) => {
            expect.insert("publicKey", k);
            expect.insert("password", p);
        }
        What::Pay { to, from, memo, numbers: n } => {
            expect.insert("to", to);
            expect.insert("from", from);
            match memo {
                Some(m) if !m.is_empty() || args.contains_key("memo") => drop(expect.insert("memo", m)),
                _ => {}
            }
            numbers = n;
        }
        _ => {}
    }
    for (k, v) in &expect {
        if args.get(*k).and_then(|x| x.as_str()) != Some(v) {
            return Err(format!("{k} is {v:?}, the service is told {:?}", args.get(*k)));
        }
    }
    for (k, (_, v)) in numbers {
        let said = match args.get(*k) {
            None | Some(Value::Null) => None,
            Some(Value::String(s)) => Some(s.parse::<u64>().map_err(|_| format!("{k} is {s:?}"))?),
            Some(Value::Number(n)) => Some(n.as_u64().ok_or(format!("{k} is {n}"))?),
            Some(x) => return Err(format!("{k} is {x}")),
        };
        let right = match (v, said) {
            (Asked::Is(a), Some(b)) => *a == b,
            (Asked::Not, None) => true,
            (Asked::Maybe(l), Some(b)) => l.contains(&b),
            _ => false,
        };
        if !right {
            return Err(format!("{k} is {v:?}, the service is told {said:?}"));
        }
    }
    if let Some(k) = args.keys().find(|k| !expect.contains_key(k.as_str()) && !numbers.contains_key(k.as_str())) {
        return Err(format!("{k} was never given"));
    }
    Ok(())
}

fn lock_hash(k: u64) -> String {
    mina_crypto::hash::StateHash::from(&proof_systems::mina_hasher::Fp::from(k)).to_string()
}
fn draw_info(w: &World) -> Info {
    let sim = &w.sim;
    let n = w.made.get();
    w.made.set(n + 1);
    Info {
        len: 8 + n as u32 + sim.draw(4) as u32 - sim.draw(4) as u32,
        epoch: 1,
        slot: 7140 + 100 + n as u32,
        spe: 7140,
        staking_lock: lock_hash(1000),
        next_lock: lock_hash(2000),
        vrf: vec![sim.draw(4) as u8; 32],
        mwd: 40,
        swd: vec![1, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7],
        hash: vec![],
    }
}
thread_local! {
    /// a block without commands and one with, and the latter with a command that is not signed
    static TEMPLATES: Vec<ExternalTransitionV1> = {
        let get = |k: usize| { let mut b = blocks::decode(&blocks::fixture_bytes(blocks::FIXTURES[k])).unwrap(); blocks::resign(&mut b); b };
        let mut v: Vec<_> = (0..6).map(get).collect();
        v.sort_by_key(|b| (blocks::commands(b), blocks::encode(b).len()));
        let some = v.iter().position(|b| blocks::commands(b) > 0).unwrap();
        let mut bad = v[some].clone();
        blocks::tamper(&mut bad, 0, 0);
        vec![v[0].clone(), v[some].clone(), bad]
    };
}
fn mint(w: &World) {
    let sim = &w.sim;
    let mut i = draw_info(w);
    let k = [0, 0, 0, 0, 0, 0, 1, 2][sim.draw(8) as usize];
    let mut v = TEMPLATES.with(|t| t[k].clone());
    let mut p: ProtocolStateLegacy = v.t.protocol_state.clone().into();
    c14::set_consensus(&mut p.body.consensus_state, &i);
    let previous = lock_hash(5000 + w.made.get());
    p.previous_state_hash = previous.parse().unwrap();
    i.hash = c14::hash_be(&p.state_hash_fp());
    let hash = p.state_hash().to_string();
    v.t.protocol_state = p.into();
    let j: ExternalTransitionJson = v.into();
    let j = serde_json::to_value(&j).unwrap();
    sim.event(|| format!("the explorer learns of block {} {hash}{}", i.len, if k == 2 { ", which is not valid" } else { "" }));
    w.chain.borrow_mut().push(Known { height: i.len as usize, hash, text: Rc::new(j.to_string()), previous, info: (k < 2).then_some(i), state: j["protocol_state"].clone() });
}

fn improper(sim: &Sim, proper: &str) -> Result<JsValue, JsValue> {
    let k = sim.draw(6);
    sim.fault(["call-rejected", "call-rejected", "answer-not-a-string", "answer-empty", "answer-cut", "answer-not-json"][k as usize]);
    match k {
        0 => Err("TypeError: fetch failed".into()),
        1 => Err(JsValue::UNDEFINED),
        2 => Ok([JsValue::UNDEFINED, JsValue::NULL, JsValue::Number(1.0)][sim.draw(3) as usize].clone()),
        3 => Ok("".into()),
        4 => {
            let mut k = sim.draw(proper.len() as u64) as usize;
            while !proper.is_char_boundary(k) {
                k -= 1;
            }
            Ok(proper[..k].into())
        }
        _ => Ok("<html>502 Bad Gateway</html>".into()),
    }
}
/// the JavaScript helpers of the backends, and the services behind them
fn js(name: &str, args: Vec<JsValue>) -> wasm_bindgen::sim::Answer {
    let w = world();
    let sim = w.sim.clone();
    let op = w.current.get();
    let stops = name != "fetch_block_json_str";
    let fail = move |w: &World| {
        if let Some(k) = op {
            let o = &mut w.log.borrow_mut().ops[k];
            o.failed = true;
            o.stopped |= stops;
        }
    };
    let note = |what: String| {
        sim.event(|| format!("call {op:?}: {what}"));
        if let Some(k) = op {
            w.log.borrow_mut().ops[k].asked.push(what);
        }
    };
    match (name, &args[..], w.mvp) {
        ("query_latest_blocks_json_str", [JsValue::Number(n)], true) => {
            let n = *n as usize;
            note("the listing is asked for".into());
            let w = w.clone();
            Box::pin(async move {
                sim.pause().await;
                let v: Vec<Value> = w.chain.borrow().iter().rev().take(n).map(|b| json!({"blockHeight": b.height, "stateHash": b.hash})).collect();
                if w.fails() {
                    fail(&w);
                    return improper(&sim, &Value::from(v).to_string());
                }
                Ok(Value::from(v).to_string().into())
            })
        }
        ("fetch_block_json_str", [JsValue::Number(h), JsValue::String(s)], true) => {
            let (h, s) = (*h as usize, s.clone());
            note(format!("{h} {s}"));
            let w = w.clone();
            Box::pin(async move {
                sim.pause().await;
                let c = w.chain.borrow();
                let Some(b) = c.iter().find(|b| b.height == h && b.hash == s) else {
                    sim.fault("no-such-block");
                    fail(&w);
                    return Err(JsValue::Error("responded with status 404".into()));
                };
                if w.fails() {
                    fail(&w);
                    return improper(&sim, &b.text);
                }
                let poll = op.is_none_or(|k| matches!(w.log.borrow().ops[k].what, What::Poll));
                if let (true, Some(i)) = (poll, &b.info) {
                    w.log.borrow_mut().given.push((i.clone(), b.hash.clone(), 0, b.state.clone()));
                }
                let r = Ok(JsValue::from((*b.text).clone()));
                drop(c);
                sim.event(|| format!("block {h} {s} is given"));
                r
            })
        }
        ("fetch_best_chain_json_str", [JsValue::String(e), JsValue::Array(a)], false) => {
            let e = e.clone();
            note(e.clone());
            let l: Vec<String> = a.iter().map(|x| x.as_string().unwrap_or("?".into())).collect();
            let set: BTreeSet<String> = l.iter().cloned().collect();
            if !w.endpoints.borrow().contains(&e) {
                w.broken("wrong-endpoint-asked", format!("{e} was asked, the list is {:?}", w.endpoints.borrow()));
            }
            if set != *w.tracked.borrow() || set.len() != l.len() {
                w.broken("wrong-accounts-asked", format!("{l:?} were asked for, {:?} are tracked", w.tracked.borrow()));
            }
            let w = w.clone();
            Box::pin(async move {
                sim.pause().await;
                if w.fails() {
                    fail(&w);
                    return improper(&sim, "{\"bestChain\":[{\"protocolState\":{}}]}");
                }
                let mut i = draw_info(&w);
                let (m, _) = Berkeley::make(&sim, &mut i, None, 0);
                let n = Berkeley::extra_of(&m).split_whitespace().count();
                let mut be = i.hash.clone();
                be.reverse();
                let hash = mina_crypto::hash::StateHash::from(&<proof_systems::mina_hasher::Fp as proof_systems::o1_utils::FieldHelpers<_>>::from_bytes(&be).unwrap()).to_string();
                sim.event(|| format!("{e} gives block {} {hash}", i.len));
                w.log.borrow_mut().given.push((i, hash, n, Value::Null));
                Ok(m.0.to_string().into())
            })
        }
        _ => {
            w.broken("wrong-call", format!("{name} was called with {args:?}"));
            Box::pin(async { Err(JsValue::UNDEFINED) })
        }
    }
}

async fn call<F: Future>(w: &Rc<World>, what: What, endpoint: &str, f: F) -> (usize, F::Output) {
    let op = {
        let mut l = w.log.borrow_mut();
        l.ops.push(Op { what, endpoint: endpoint.into(), requests: 0, asked: vec![], answer: None, failed: false, stopped: false });
        l.ops.len() - 1
    };
    w.sim.event(|| format!("call {op}: {:?}", w.log.borrow().ops[op].what));
    w.sim.nontrivial();
    let r = Scoped { op, current: w.current.clone(), f: Box::pin(f) }.await;
    (op, r)
}

/// a call of the wallet has ended
fn judge(w: &World, op: usize, r: Result<String, JsError>) {
    let text = match &r {
        Ok(t) => format!("resolves with {t:?}"),
        Err(e) => format!("rejects with {:?}", e.0),
    };
    w.sim.event(|| format!("call {op} {text}"));
    let l = w.log.borrow();
    let o = &l.ops[op];
    let what = format!("{:?} {text}, the answer was {:?}", o.what, o.answer);
    let (mut never, mut maybe) = (false, false);
    if let What::Pay { numbers, .. } = &o.what {
        never = numbers.values().any(|x| x.1 == Asked::Never);
        maybe = numbers.values().any(|x| matches!(x.1, Asked::Maybe(_)));
    }
    let bad = if never && o.requests > 0 {
        Some("nonsense-sent")
    } else {
        match (&r, &o.answer) {
            (Ok(_), None) => Some("answer-out-of-nothing"),
            (Ok(t), Some(Got::Json(_, v))) => (serde_json::from_str::<Value>(t).ok().as_ref() != Some(v)).then_some("answer-changed"),
            (Ok(_), Some(Got::Bad)) => Some("failure-not-reported"),
            (Err(_), Some(Got::Json(s, _))) => (*s < 400).then_some("good-answer-rejected"),
            (Err(_), Some(Got::Bad)) => None,
            (Err(_), None) => (o.requests == 0 && !never && !maybe).then_some("valid-call-rejected"),
        }
    };
    w.sim.probe(match (&r, never) {
        (_, true) => "nonsense-refused",
        (Ok(_), _) => "call-answered",
        _ => "call-rejected-to-page",
    });
    drop(l);
    if let Some(class) = bad {
        w.broken(class, what);
    }
}

async fn wallet(w: &Rc<World>) {
    let sim = &w.sim;
    let endpoint = if w.mvp { MVP_ENDPOINT.to_string() } else { format!("http{}://{}.example/graphql", ["", "s"][sim.draw(2) as usize], ["a", "b", "localhost:3085"][sim.draw(3) as usize]) };
    let key = draw_text(sim);
    let e = endpoint.clone();
    let (op, r) = match sim.draw(if w.mvp { 4 } else { 3 }) {
        0 => {
            let what = What::Lock(key.clone());
            if w.mvp { call(w, what, &endpoint, mvp::lock_account(key)).await } else { call(w, what, &endpoint, berkeley::lock_account(e, key)).await }
        }
        1 => {
            let p = draw_text(sim);
            let what = What::Unlock(key.clone(), p.clone());
            if w.mvp { call(w, what, &endpoint, mvp::unlock_account(key, p)).await } else { call(w, what, &endpoint, berkeley::unlock_account(e, key, p)).await }
        }
        2 => {
            let to = draw_text(sim);
            let mut v: Vec<(String, JsValue)> = vec![("to".into(), to.clone().into()), ("from".into(), key.clone().into())];
            let mut numbers = BTreeMap::new();
            for (k, max, optional) in [("fee", u64::MAX, false), ("amount", u64::MAX, false), ("nonce", u32::MAX as u64, true), ("validUntil", u32::MAX as u64, true)] {
                let x = if optional && sim.chance(1, 3) { None } else if sim.chance(1, 2) { Some(JsValue::String(sim.draw(1000).to_string())) } else { Some(draw_number(sim, max)) };
                let a = asked(x.as_ref().unwrap_or(&JsValue::Undefined), max, optional);
                if let Some(x) = &x {
                    v.push((k.into(), x.clone()));
                }
                numbers.insert(k, (x.unwrap_or(JsValue::Undefined), a));
            }
            let memo = sim.chance(1, 2).then(|| draw_text(sim));
            match &memo {
                Some(m) => v.push(("memo".into(), m.clone().into())),
                None if sim.chance(1, 3) => v.push(("memo".into(), JsValue::Null)),
                _ => {}
            }
            let what = What::Pay { to, from: key, memo, numbers };
            let v = JsValue::Map(v);
            if w.mvp { call(w, what, &endpoint, mvp::send_payment(v.into())).await } else { call(w, what, &endpoint, berkeley::send_payment(e, v.into())).await }
        }
        _ => call(w, What::Info(key.clone()), &endpoint, mvp::account_info(key)).await,
    };
    judge(w, op, r);
}

async fn previous(w: &Rc<World>) {
    let sim = &w.sim;
    let (h, s) = {
        let c = w.chain.borrow();
        if c.is_empty() || sim.chance(1, 8) { (sim.draw(30) as usize, "3NK".to_string()) } else { let b = &c[sim.draw(c.len() as u64) as usize]; (b.height, b.hash.clone()) }
    };
    let (op, r) = call(w, What::Previous, "", mvp::js_exports::fetch_block_previous_state_hash(h, s.clone())).await;
    sim.event(|| format!("call {op} ends with {r:?}"));
    let failed = w.log.borrow().ops[op].failed;
    let asked = w.log.borrow().ops[op].asked.clone();
    if asked != [format!("{h} {s}")] {
        w.broken("wrong-request", format!("the block before {h} {s}: {asked:?} was asked for"));
    }
    let c = w.chain.borrow();
    let right = c.iter().find(|b| b.height == h && b.hash == s).map(|b| b.previous.clone());
    let (d, class) = (format!("the block before {h} {s} is {right:?}, the call gives {r:?}"), match &r {
        Ok(x) if failed => (Some(x) != right.as_ref()).then_some("answer-out-of-nothing"),
        Ok(x) => (Some(x) != right.as_ref()).then_some("wrong-previous-hash"),
        Err(_) => (!failed).then_some("good-answer-rejected"),
    });
    drop(c);
    sim.probe(if r.is_ok() { "previous-hash" } else { "no-previous-hash" });
    if let Some(class) = class {
        w.broken(class, d);
    }
}

async fn settings(w: &Rc<World>) {
    let sim = &w.sim;
    let mut l: Vec<JsValue> = (0..sim.draw(4)).map(|_| format!("http://{}.example/graphql", ["a", "b", "c", "d"][sim.draw(4) as usize]).into()).collect();
    let which = sim.draw(2);
    let bad = sim.chance(1, 5) && !l.is_empty();
    if bad {
        let k = sim.draw(l.len() as u64) as usize;
        l[k] = [JsValue::Null, JsValue::Undefined, JsValue::Number(5.0), JsValue::Array(vec![])][sim.draw(4) as usize].clone();
        sim.fault("list-with-odd-entries");
    }
    let a: js_sys::Array = l.iter().cloned().collect();
    // the setting holds from when it is made, which is before the call ends
    let w2 = w.clone();
    let set: BTreeSet<String> = l.iter().filter_map(|x| x.as_string()).collect();
    let apply = move || {
        let w = &w2;
        if !bad {
            *(if which == 0 { &w.endpoints } else { &w.tracked }).borrow_mut() = set;
        }
    };
    let (op, r) = call(w, What::Other, "", async move {
        let r = if which == 0 { berkeley::set_api_list(a).await } else { berkeley::set_tracking_accounts(a).await };
        apply();
        r
    })
    .await;
    sim.event(|| format!("call {op}: {} {l:?}: {r:?}", ["endpoints", "accounts"][which as usize]));
    match (r, bad) {
        (Ok(true), false) | (Err(_), true) => {}
        (r, _) => w.broken("wrong-setting-result", format!("{l:?}: {r:?}")),
    }
}

async fn poll(w: &Rc<World>) {
    let want: Vec<String> = w.endpoints.borrow().iter().cloned().collect();
    let _ = &want;
    let (op, r) = if w.mvp { call(w, What::Poll, "", mvp::js_exports::poll_latest_blocks_once()).await } else { call(w, What::Poll, "", berkeley::poll_latest_blocks_once()).await };
    w.sim.event(|| format!("call {op} ends with {r:?}"));
    let failed = w.log.borrow().ops[op].failed;
    if r.is_err() && !failed {
        w.broken("poll-fails", format!("{r:?}"));
    }
    if r.is_ok() && w.log.borrow().ops[op].stopped {
        w.broken("failure-not-reported", format!("call {op}: a poll that got no proper answer ends as if it had"));
    }
    w.sim.probe(if r.is_ok() { "polled" } else { "poll-failed" });
}

/// what the pages show of the node
async fn view(w: &Rc<World>, last: bool) {
    let sim = &w.sim;
    let hash = if w.mvp { mvp::js_exports::get_best_chain_state_hash().await } else { berkeley::get_best_chain_state_hash().await };
    sim.event(|| format!("the page is shown {hash:?}"));
    let l = w.log.borrow();
    let best = l.given.iter().fold(None, |b: Option<&(Info, String, usize, Value)>, x| match b {
        Some(y) if select(&y.0, &x.0) != Ok(true) => b,
        _ => Some(x),
    });
    let found = match &hash {
        None => None,
        Some(h) => l.given.iter().find(|x| x.1 == *h),
    };
    let (h, seen, b) = (found.map(|x| x.0.clone()), l.seen.clone(), best.map(|x| x.1.clone()));
    drop(l);
    if hash.is_some() && h.is_none() {
        return w.broken("unknown-tip-shown", format!("{hash:?} was never given, or is no valid block"));
    }
    if let Some(s) = &seen {
        if h.as_ref().is_none_or(|h| h != s && select(s, h) != Ok(true)) {
            return w.broken("worse-tip-shown", format!("after a block of length {}, {hash:?} of {:?} is shown", s.len, h.map(|h| h.len)));
        }
    }
    if last && hash != b {
        return w.broken("wrong-tip-shown", format!("{hash:?} is shown, {b:?} is the best block that was given"));
    }
    if h.is_some() {
        sim.probe("tip-shown");
        w.log.borrow_mut().seen = h;
    }
    if w.mvp {
        let t = mvp::js_exports::get_best_chain_state_json().await;
        if last {
            let v: Option<Value> = t.as_ref().map(|t| serde_json::from_str(t).unwrap_or(Value::Null));
            let l = w.log.borrow();
            let expect = l.given.iter().find(|x| Some(&x.1) == b.as_ref()).map(|x| x.3.clone());
            drop(l);
            if v != expect {
                w.broken("wrong-state-shown", format!("{v:?} instead of {expect:?}"));
            }
        }
    } else {
        let s = berkeley::get_best_chain_state().await;
        let n = berkeley::get_sparse_merkle_ledger().await.length() as usize;
        if last {
            let l = w.log.borrow();
            let expect = l.given.iter().find(|x| Some(&x.1) == b.as_ref()).map(|x| x.2);
            drop(l);
            if s.is_some() != expect.is_some() {
                w.broken("wrong-state-shown", format!("a state is {}shown", if s.is_some() { "" } else { "not " }));
            }
            if n != expect.unwrap_or(0) {
                w.broken("wrong-ledger-shown", format!("{n} accounts are shown, {expect:?} came with the tip"));
            }
        }
    }
}

pub fn c22(ctx: &mut Ctx) -> Outcome {
    let sim = Sim::new(ctx);
    lazy_static::reset();
    let w = Rc::new(World {
        sim: sim.clone(),
        mvp: sim.draw(2) == 0,
        log: RefCell::default(),
        chain: RefCell::default(),
        current: Rc::default(),
        p_fail: [0, 1, 4, 8, 14][sim.draw(5) as usize],
        endpoints: RefCell::default(),
        tracked: RefCell::default(),
        made: Cell::new(1),
    });
    WORLD.with(|x| *x.borrow_mut() = Some(w.clone()));
    wasm_bindgen::sim::set_host(|_, name, args| js(name, args));
    wasm_bindgen::sim::set_now(|name, args| match name {
        "js_to_string" => js_to_string(&args[0]).into(),
        _ => JsValue::Undefined,
    });
    reqwest::sim::set(|r| serve(&world(), r));
    let r = simulate(&w);
    WORLD.with(|x| *x.borrow_mut() = None);
    r
}

fn simulate(w: &Rc<World>) -> Outcome {
    let sim = w.sim.clone();
    let mut ex = Exec::new(&sim, 60_000);
    if w.mvp {
        for _ in 0..[0, 1, 3, 6][sim.draw(4) as usize] {
            mint(w);
        }
        let (w, n) = (w.clone(), sim.draw(4));
        sim.spawn("miner", async move {
            for _ in 0..n {
                w.sim.pause().await;
                mint(&w);
            }
        });
    }
    let w2 = w.clone();
    sim.spawn("idle run", async move {
        if w2.mvp {
            mvp::js_exports::run_processor().await
        } else {
            berkeley::run_processor().await
        }
    });
    for k in 0..sim.range(1, 3) {
        let (w, n) = (w.clone(), sim.range(1, 5));
        sim.spawn(format!("page {k}"), async move {
            for _ in 0..n {
                w.sim.pause().await;
                match w.sim.draw(8) {
                    0 | 1 => poll(&w).await,
                    2 => view(&w, false).await,
                    3 if w.mvp => previous(&w).await,
                    3 => settings(&w).await,
                    _ => wallet(&w).await,
                }
            }
        });
    }
    let mut end = ex.run(|| w.log.borrow().broken.is_some());
    if w.log.borrow().broken.is_none() && matches!(end, End::Done) {
        let w2 = w.clone();
        sim.spawn("last view", async move { view(&w2, true).await });
        end = ex.run(|| w.log.borrow().broken.is_some());
    }
    if let Some(v) = &w.log.borrow().broken {
        return Err(v.clone());
    }
    match end {
        End::Done => Ok(()),
        End::Panic(t, m) => Err(Violation::new("panic", format!("{t} panicked: {m}"))),
        End::Stuck(t) => Err(Violation::new("stuck", format!("{t:?} wait for ever"))),
        End::TooLong => Err(Violation::new("no-progress", "60000 steps were not enough")),
    }
}
