//! C21: the GraphQL backends of a browser node: what the services answer reaches the frontier, whatever fails.
use crate::blocks;
use crate::c14::{self, info_of, Berkeley, Flavor, Mainnet};
use crate::exec::*;
use crate::fork::{select, Info};
use mina_network::processor::js::graphql_api_berkeley::NonConsensusGraphQLBerkeleyBackend;
use mina_network::processor::js::graphql_api_v1::NonConsensusGraphQLV1Backend;
use mina_network::processor::*;
use mina_rs_base::types::*;
use mina_serialization_types::json::ExternalTransitionJson;
use mina_serialization_types::v1::ExternalTransitionV1;
use serde_json::{json, Value};
use simcore::{Ctx, Outcome, Violation};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::rc::Rc;
use tokio::sync::mpsc;
use wasm_bindgen::JsValue;

const NEWEST: usize = 10;
const MARK: u64 = 7_000_000_000_000;

/// One thing the node does of its own accord that asks a service.
#[derive(Default)]
struct Op {
    /// polls only: the endpoints and accounts set while the poll runs
    endpoints: BTreeSet<String>,
    calls: Vec<Call>,
    abandoned: bool,
    result: Option<bool>,
}
#[derive(Clone, Debug)]
struct Call {
    what: What,
    version: u64,
    /// the answer's number, if it is one that must be handed over; None while it is not given, or if it is not proper
    answer: Option<u64>,
    /// the blocks of the listing, if it was given properly
    list: Option<Vec<(usize, String)>>,
}
#[derive(Clone, Debug, PartialEq)]
enum What {
    List,
    Block(usize, String),
    Best(String),
}
struct Known {
    height: usize,
    hash: String,
    text: Rc<String>,
    json: Rc<ExternalTransitionJson>,
}
#[derive(Default)]
struct Log {
    ops: Vec<Op>,
    /// what was asked while a query of the frontier was served
    queries: Vec<Call>,
    requests: Vec<(usize, String)>,
    handed: Vec<u64>,
    good: BTreeMap<u64, Good>,
    broken: Option<Violation>,
}
enum Good {
    Block(Rc<ExternalTransitionJson>),
    Json(Value),
}
struct World {
    sim: Sim,
    log: RefCell<Log>,
    chain: RefCell<Vec<Known>>,
    next: Cell<u64>,
    /// the op whose task is being polled
    current: Cell<Option<usize>>,
    version: Cell<u64>,
    endpoints: RefCell<BTreeSet<String>>,
    tracked: RefCell<BTreeSet<String>>,
    p_fail: u64,
    berkeley: bool,
    requester: RefCell<Option<mpsc::Sender<QueryBlockRequest>>>,
    requests_left: Cell<u64>,
    made: Cell<u64>,
}
thread_local!(static WORLD: RefCell<Option<Rc<World>>> = const { RefCell::new(None) });
fn world() -> Rc<World> {
    WORLD.with(|w| w.borrow().clone().unwrap())
}
impl World {
    fn broken(&self, class: &str, detail: String) {
        let mut l = self.log.borrow_mut();
        if l.broken.is_none() {
            l.broken = Some(Violation::new(class, detail));
        }
    }
    fn fails(&self) -> bool {
        self.sim.chance(self.p_fail, 16)
    }
    fn note(&self, what: What) -> Box<dyn Fn(Option<u64>, Option<Vec<(usize, String)>>)> {
        let c = Call { what, version: self.version.get(), answer: None, list: None };
        let op = self.current.get();
        let mut l = self.log.borrow_mut();
        let v = match op {
            Some(i) => &mut l.ops[i].calls,
            None => &mut l.queries,
        };
        v.push(c);
        let k = v.len() - 1;
        Box::new(move |answer, list| {
            let w = world();
            let mut l = w.log.borrow_mut();
            let c = match op {
                Some(i) => &mut l.ops[i].calls[k],
                None => &mut l.queries[k],
            };
            c.answer = answer;
            c.list = list;
        })
    }
}

/// an answer that is none: the service is not there, or talks nonsense
fn improper(sim: &Sim, proper: &str) -> Result<JsValue, JsValue> {
    let k = sim.draw(8);
    sim.fault(["call-rejected", "call-rejected", "call-rejected", "answer-not-a-string", "answer-empty", "answer-cut", "answer-not-json", "answer-not-json"][k as usize]);
    match k {
        0 => Err("TypeError: fetch failed".into()),
        1 => Err(JsValue::UNDEFINED),
        2 => Err(JsValue::Error("ETIMEDOUT".into())),
        3 => Ok([JsValue::UNDEFINED, JsValue::NULL, JsValue::Number(1.0)][sim.draw(3) as usize].clone()),
        4 => Ok("".into()),
        5 => {
            let mut k = sim.draw(proper.len() as u64) as usize;
            while !proper.is_char_boundary(k) {
                k -= 1;
            }
            Ok(proper[..k].into())
        }
        6 => Ok("<html>502 Bad Gateway</html>".into()),
        _ => Ok(format!("{proper}}}").into()),
    }
}

fn js(name: &str, args: Vec<JsValue>) -> wasm_bindgen::sim::Answer {
    let w = world();
    let sim = w.sim.clone();
    let bad_call = |w: &World| {
        w.broken("wrong-call", format!("{name} was called with {args:?}"));
        Box::pin(async { Err(JsValue::UNDEFINED) }) as wasm_bindgen::sim::Answer
    };
    match (name, &args[..], w.berkeley) {
        ("query_latest_blocks_json_str", [JsValue::Number(n)], false) => {
            let (n, done) = (*n as usize, w.note(What::List));
            sim.event(|| format!("{:?} asks for the latest {n} blocks", w.current.get()));
            Box::pin(async move {
                sim.pause().await;
                // the list as it is now
                let l: Vec<(usize, String)> = w.chain.borrow().iter().rev().take(n).map(|b| (b.height, b.hash.clone())).collect();
                let full: Vec<(usize, String)> = w.chain.borrow().iter().rev().take(NEWEST).map(|b| (b.height, b.hash.clone())).collect();
                let odd = sim.chance(1, 3);
                let v: Vec<Value> = l.iter().map(|(h, s)| if odd { json!({"stateHash": s, "canonical": true, "blockHeight": h}) } else { json!({"blockHeight": h, "stateHash": s}) }).collect();
                let r = if w.fails() {
                    sim.event(|| "the listing fails".into());
                    if sim.chance(1, 4) && !v.is_empty() {
                        sim.fault("listing-misshaped");
                        let mut v = v.clone();
                        let k = sim.draw(v.len() as u64) as usize;
                        match sim.draw(5) {
                            0 => v[k]["blockHeight"] = json!(-1),
                            1 => v[k]["blockHeight"] = Value::Null,
                            2 => v[k]["stateHash"] = json!(7),
                            3 => v[k] = Value::Null,
                            _ => drop(v[k].as_object_mut().unwrap().remove("stateHash")),
                        }
                        Ok(Value::from(v).to_string().into())
                    } else if sim.chance(1, 6) {
                        sim.fault("listing-misshaped");
                        Ok(["null", "{}", "7", "[7]"][sim.draw(4) as usize].into())
                    } else {
                        improper(&sim, &Value::from(v.clone()).to_string())
                    }
                } else {
                    sim.event(|| format!("{} blocks are listed", v.len()));
                    done(None, Some(full));
                    Ok(Value::from(v).to_string().into())
                };
                sim.pause().await;
                r
            })
        }
        ("fetch_block_json_str", [JsValue::Number(h), JsValue::String(s)], false) => {
            let (h, s) = (*h as usize, s.clone());
            let done = w.note(What::Block(h, s.clone()));
            sim.event(|| format!("{:?} asks for block {h} {s}", w.current.get()));
            Box::pin(async move {
                sim.pause().await;
                let found = w.chain.borrow().iter().find(|b| b.height == h && b.hash == s).map(|b| (b.text.clone(), b.json.clone()));
                let r = match found {
                    None => {
                        sim.fault("no-such-block");
                        Err(JsValue::Error(format!("responded with status 404")))
                    }
                    Some((t, _)) if w.fails() => {
                        sim.event(|| format!("block {h} {s} is not answered properly"));
                        match sim.draw(6) {
                            0 => {
                                sim.fault("answer-not-a-block");
                                Ok(["null", "{}", "{\"errors\":[]}", "[]", "7"][sim.draw(5) as usize].into())
                            }
                            _ => improper(&sim, &t),
                        }
                    }
                    Some((t, j)) => {
                        let id = w.next.get();
                        w.next.set(id + 1);
                        sim.event(|| format!("block {h} {s} is answer {id}"));
                        let t = t.replace(&MARK.to_string(), &(MARK + id).to_string());
                        w.log.borrow_mut().good.insert(id, Good::Block(j));
                        done(Some(id), None);
                        Ok(t.into())
                    }
                };
                sim.pause().await;
                r
            })
        }
        ("fetch_best_chain_json_str", [JsValue::String(e), JsValue::Array(a)], true) => {
            let e = e.clone();
            let asked: Vec<String> = a.iter().map(|x| x.as_string().unwrap_or("?".into())).collect();
            let done = w.note(What::Best(e.clone()));
            let set: BTreeSet<String> = asked.iter().cloned().collect();
            if set != *w.tracked.borrow() || set.len() != asked.len() {
                w.broken("wrong-accounts-asked", format!("{asked:?} were asked for, {:?} are tracked", w.tracked.borrow()));
            }
            if !w.endpoints.borrow().contains(&e) {
                w.broken("wrong-endpoint-asked", format!("{e} was asked, the list is {:?}", w.endpoints.borrow()));
            }
            sim.event(|| format!("{:?} asks {e}", w.current.get()));
            Box::pin(async move {
                sim.pause().await;
                let id = w.next.get();
                let r = if w.fails() {
                    sim.event(|| format!("{e} does not answer properly"));
                    improper(&sim, "{\"bestChain\":[{\"protocolState\":{}}]}")
                } else {
                    w.next.set(id + 1);
                    let v = if sim.chance(1, 8) {
                        // JSON, but no chain: the frontier has to refuse it
                        sim.fault("answer-not-a-chain");
                        [json!({"bestChain": [], "simId": id}), json!({"errors": [], "simId": id}), json!({"bestChain": null, "simId": id})][sim.draw(3) as usize].clone()
                    } else {
                        let mut i = draw_info(&w);
                        let (m, _) = Berkeley::make(&sim, &mut i, None, 0);
                        let mut v = (*m.0).clone();
                        v["simId"] = id.into();
                        v
                    };
                    sim.event(|| format!("{e} gives answer {id}"));
                    let t = v.to_string();
                    w.log.borrow_mut().good.insert(id, Good::Json(v));
                    done(Some(id), None);
                    Ok(t.into())
                };
                sim.pause().await;
                r
            })
        }
        _ => bad_call(&w),
    }
}

fn draw_info(w: &World) -> Info {
    let sim = &w.sim;
    let n = w.made.get();
    w.made.set(n + 1);
    let lock = |k: u64| mina_crypto::hash::StateHash::from(&proof_systems::mina_hasher::Fp::from(k)).to_string();
    Info {
        len: 5 + n as u32 + sim.draw(4) as u32 - sim.draw(4) as u32,
        epoch: 1,
        slot: 7140 + 100 + n as u32,
        spe: 7140,
        staking_lock: lock(1000),
        next_lock: lock(2000),
        vrf: vec![sim.draw(4) as u8; 32],
        mwd: 40,
        swd: vec![1, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7],
        hash: vec![],
    }
}

thread_local! {
    /// a block without commands and one with, and the latter with a command that is not signed
    static TEMPLATES: Vec<ExternalTransitionV1> = {
        let get = |k: usize| { let mut b = blocks::decode(&blocks::fixture_bytes(blocks::FIXTURES[k])).unwrap(); blocks::resign(&mut b); b };
        let mut v: Vec<_> = (0..6).map(get).collect();
        v.sort_by_key(|b| (blocks::commands(b), blocks::encode(b).len()));
        let some = v.iter().position(|b| blocks::commands(b) > 0).unwrap();
        let mut bad = v[some].clone();
        blocks::tamper(&mut bad, 0, 0);
        vec![v[0].clone(), v[some].clone(), bad]
    };
}
fn mint(w: &World) {
    let sim = &w.sim;
    let mut i = draw_info(w);
    let k = [0, 0, 0, 0, 0, 0, 1, 2][sim.draw(8) as usize];
    let mut v = TEMPLATES.with(|t| t[k].clone());
    let mut p: ProtocolStateLegacy = v.t.protocol_state.clone().into();
    c14::set_consensus(&mut p.body.consensus_state, &i);
    i.hash = c14::hash_be(&p.state_hash_fp());
    v.t.protocol_state = p.into();
    v.t.protocol_state.t.t.body.t.t.blockchain_state.t.t.timestamp = MARK.into();
    let json: ExternalTransitionJson = v.into();
    let text = serde_json::to_string(&json).unwrap();
    assert_eq!(text.matches(&MARK.to_string()).count(), 1);
    // what a reader makes of it, as it leaves out some of the block
    let json: ExternalTransitionJson = serde_json::from_str(&text).unwrap();
    let n = w.made.get();
    let hash = format!("3N{}{n}", ["K", "L", "/../", "ü"][sim.draw(4) as usize]);
    sim.event(|| format!("the explorer learns of block {} {hash}", i.len));
    w.chain.borrow_mut().push(Known { height: i.len as usize, hash, text: Rc::new(text), json: Rc::new(json) });
}

/// attributes what is asked to the poll in whose task it is asked
struct Scoped<F> {
    op: usize,
    w: Rc<World>,
    f: std::pin::Pin<Box<F>>,
}
impl<F: Future> Future for Scoped<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        let op = self.op;
        let w = self.w.clone();
        w.current.set(Some(op));
        let r = self.f.as_mut().poll(cx);
        w.current.set(None);
        r
    }
}

pub struct GotV1(ExternalTransition);
pub struct GotBerkeley(ProtocolStateWithSparseMerkleLedger);
impl TryFrom<ExternalTransitionJson> for GotV1 {
    type Error = String;
    fn try_from(mut j: ExternalTransitionJson) -> Result<Self, String> {
        let w = world();
        let b: ExternalTransition = j.clone().into();
        let id = b.protocol_state.body.blockchain_state.timestamp.epoch_millis().wrapping_sub(MARK);
        let known = match w.log.borrow().good.get(&id) {
            Some(Good::Block(k)) => Some(k.clone()),
            _ => None,
        };
        match known {
            None => w.broken("unknown-block-handed-over", format!("a block with timestamp {} was never given", id.wrapping_add(MARK))),
            Some(k) => {
                j.protocol_state.body.blockchain_state.timestamp = k.protocol_state.body.blockchain_state.timestamp.clone();
                if j != *k {
                    w.broken("block-changed", format!("answer {id} differs from the block it is made of"));
                }
                w.log.borrow_mut().handed.push(id);
            }
        }
        w.sim.event(|| format!("answer {id} reaches the frontier"));
        Ok(GotV1(b))
    }
}
impl TryFrom<Value> for GotBerkeley {
    type Error = String;
    fn try_from(v: Value) -> Result<Self, String> {
        let w = world();
        let id = v["simId"].as_u64().unwrap_or(u64::MAX);
        let same = match w.log.borrow().good.get(&id) {
            Some(Good::Json(k)) => Some(*k == v),
            _ => None,
        };
        match same {
            None => w.broken("unknown-block-handed-over", format!("{v:.200} was never given")),
            Some(false) => w.broken("block-changed", format!("answer {id} became {v:.200}")),
            Some(true) => w.log.borrow_mut().handed.push(id),
        }
        w.sim.event(|| format!("answer {id} reaches the frontier"));
        ProtocolStateWithSparseMerkleLedger::try_from(v).map(GotBerkeley).map_err(|e| e.to_string())
    }
}

pub struct Watch<F: Flavor> {
    inner: F::Frontier,
    best: Option<Info>,
}
impl<F: Flavor> Watch<F> {
    async fn offer(&mut self, b: F::Block) -> anyhow::Result<()> {
        let w = world();
        let cand = info_of(&F::header(&b));
        let r = self.inner.add_block(b).await;
        if r.is_ok() && self.best.as_ref().is_none_or(|o| select(o, &cand) == Ok(true)) {
            self.best = Some(cand);
            w.sim.probe("tip-changed");
        }
        let tip = F::chain(&self.inner).top().map(info_of);
        if tip != self.best {
            w.broken("wrong-tip", format!("the tip is {tip:?}, the blocks offered give {:?}", self.best));
        }
        if w.requests_left.get() > 0 && w.sim.chance(1, 4) {
            w.requests_left.set(w.requests_left.get() - 1);
            let c = w.chain.borrow();
            let q = if c.is_empty() || w.sim.chance(1, 6) { (w.sim.draw(9) as usize, "3Nx".to_string()) } else { let b = &c[w.sim.draw(c.len() as u64) as usize]; (b.height, b.hash.clone()) };
            drop(c);
            w.sim.event(|| format!("the frontier asks for block {} {}", q.0, q.1));
            w.sim.probe("query");
            w.log.borrow_mut().requests.push(q.clone());
            let tx = w.requester.borrow().clone().unwrap();
            if tx.send(QueryBlockRequest { height: q.0, state_hash: q.1 }).await.is_err() {
                w.broken("request-channel-closed", String::new());
            }
        }
        r
    }
}
impl TransitionFrontier for Watch<Mainnet> {
    type Block = GotV1;
    async fn add_block(&mut self, b: GotV1) -> anyhow::Result<()> {
        self.offer(b.0).await
    }
    fn set_block_requester(&mut self, s: mpsc::Sender<QueryBlockRequest>) {
        *world().requester.borrow_mut() = Some(s);
    }
}
impl TransitionFrontier for Watch<Berkeley> {
    type Block = GotBerkeley;
    async fn add_block(&mut self, b: GotBerkeley) -> anyhow::Result<()> {
        self.offer(b.0).await
    }
    fn set_block_requester(&mut self, s: mpsc::Sender<QueryBlockRequest>) {
        *world().requester.borrow_mut() = Some(s);
    }
}

type PV1 = NetworkMessageProcessor<ExternalTransitionJson, GotV1, Watch<Mainnet>, NonConsensusGraphQLV1Backend>;
type PBerkeley = NetworkMessageProcessor<Value, GotBerkeley, Watch<Berkeley>, NonConsensusGraphQLBerkeleyBackend>;

/// a poll, possibly one that is given up half-way
async fn polled<F: Future<Output = anyhow::Result<()>>>(w: &Rc<World>, f: F) {
    let op = {
        let mut l = w.log.borrow_mut();
        l.ops.push(Op { endpoints: w.endpoints.borrow().clone(), ..Default::default() });
        l.ops.len() - 1
    };
    w.sim.event(|| format!("poll {op} begins"));
    let mut f = Box::pin(Scoped { op, w: w.clone(), f: Box::pin(f) });
    let mut left = if w.sim.chance(1, 10) { w.sim.range(1, 12) } else { 0 };
    let limited = left > 0;
    let r = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(r) => std::task::Poll::Ready(Some(r.is_ok())),
        _ if limited && left == 0 => std::task::Poll::Ready(None),
        _ => {
            if limited {
                left -= 1;
                cx.waker().wake_by_ref();
            }
            std::task::Poll::Pending
        }
    })
    .await;
    drop(f);
    w.sim.event(|| format!("poll {op} ends: {r:?}"));
    let mut l = w.log.borrow_mut();
    l.ops[op].result = r;
    if r.is_none() {
        l.ops[op].abandoned = true;
        w.sim.fault("poll-given-up");
    }
}

const ACCOUNTS: [&str; 3] = ["B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg", "B62qknCv9QdyAvt4Te58oo3nrZTacpEcjpJg1MV61r94h5rDPDUyPP8", "B62qrPN5Y5yq8kGE3FbVKbGTdTAJNdtNtB5sNVpxyRwWGcDEhpMzc8g"];

pub fn c21(ctx: &mut Ctx) -> Outcome {
    let sim = Sim::new(ctx);
    let w = Rc::new(World {
        sim: sim.clone(),
        log: RefCell::default(),
        chain: RefCell::default(),
        next: Cell::new(1),
        current: Cell::new(None),
        version: Cell::new(0),
        endpoints: RefCell::default(),
        tracked: RefCell::default(),
        p_fail: [0, 1, 4, 8, 14][sim.draw(5) as usize],
        berkeley: sim.draw(2) == 1,
        requester: RefCell::default(),
        requests_left: Cell::new(sim.draw(6)),
        made: Cell::new(3),
    });
    WORLD.with(|x| *x.borrow_mut() = Some(w.clone()));
    wasm_bindgen::sim::set_host(|_, name, args| js(name, args));
    let r = simulate(&w);
    WORLD.with(|x| *x.borrow_mut() = None);
    r
}

fn simulate(w: &Rc<World>) -> Outcome {
    let sim = w.sim.clone();
    let mut ex = Exec::new(&sim, 60_000);
    let npoll = sim.range(1, 2);
    let late = sim.chance(1, 4);
    if w.berkeley {
        let p: Rc<PBerkeley> = Rc::new(NetworkMessageProcessor::new(Watch { inner: Berkeley::new_frontier(), best: None }, NonConsensusGraphQLBerkeleyBackend::new()));
        for k in 0..npoll {
            let (p, w) = (p.clone(), w.clone());
            let n = sim.range(1, 4);
            sim.spawn(format!("poller {k}"), async move {
                for _ in 0..n {
                    w.sim.pause().await;
                    let g = p.nonconsensus_ops().await;
                    polled(&w, g.poll_latest_once()).await;
                    drop(g);
                }
            });
        }
        let settings = |w: &Rc<World>, b: &mut NonConsensusGraphQLBerkeleyBackend| {
            let sim = &w.sim;
            w.version.set(w.version.get() + 1);
            if sim.chance(3, 4) {
                let l: Vec<String> = (0..sim.draw(6)).map(|_| format!("http://{}.example/graphql", ["a", "b", "c", "d", "e"][sim.draw(5) as usize])).collect();
                sim.event(|| format!("endpoints {l:?}"));
                *w.endpoints.borrow_mut() = l.iter().cloned().collect();
                b.set_api_list(l.into_iter());
            }
            if sim.chance(1, 2) {
                let l: Vec<String> = (0..sim.draw(4)).map(|_| ACCOUNTS[sim.draw(3) as usize].to_string()).collect();
                sim.event(|| format!("tracked accounts {l:?}"));
                *w.tracked.borrow_mut() = l.iter().cloned().collect();
                b.set_tracking_accounts(l.into_iter());
            }
        };
        {
            let (p, w) = (p.clone(), w.clone());
            let n = sim.range(1, 3);
            sim.spawn("settings", async move {
                for k in 0..n {
                    if k > 0 {
                        w.sim.pause().await;
                        w.sim.probe("settings-changed");
                    }
                    let mut g = p.nonconsensus_ops_mut().await;
                    settings(&w, &mut g);
                }
            });
        }
        let w2 = w.clone();
        sim.spawn("idle run", async move {
            if late {
                w2.sim.pause().await;
            }
            p.run().await
        });
    } else {
        let p: Rc<PV1> = Rc::new(NetworkMessageProcessor::new(Watch { inner: Mainnet::new_frontier(), best: None }, NonConsensusGraphQLV1Backend::new()));
        for _ in 0..[0, 1, 3, 11][sim.draw(4) as usize] {
            mint(w);
        }
        {
            let w = w.clone();
            let n = sim.draw(5);
            sim.spawn("miner", async move {
                for _ in 0..n {
                    w.sim.pause().await;
                    mint(&w);
                }
            });
        }
        for k in 0..npoll {
            let (p, w) = (p.clone(), w.clone());
            let n = sim.range(1, 3);
            sim.spawn(format!("poller {k}"), async move {
                for _ in 0..n {
                    w.sim.pause().await;
                    let g = p.nonconsensus_ops().await;
                    polled(&w, g.poll_latest_once()).await;
                    drop(g);
                }
            });
        }
        let w2 = w.clone();
        sim.spawn("idle run", async move {
            if late {
                w2.sim.pause().await;
            }
            p.run().await
        });
    }
    let end = ex.run(|| false);
    let l = w.log.borrow();
    if let Some(v) = &l.broken {
        return Err(v.clone());
    }
    match end {
        End::Done => {}
        End::Panic(t, m) => return Err(Violation::new("panic", format!("{t} panicked: {m}"))),
        End::Stuck(t) => return Err(Violation::new("stuck", format!("{t:?} wait for ever"))),
        End::TooLong => return Err(Violation::new("no-progress", "60000 steps were not enough")),
    }
    let err = |class: &str, d: String| Err(Violation::new(class, d));
    // every answer reaches the frontier once, those of a poll that was given up at most once
    let mut must: BTreeMap<u64, bool> = BTreeMap::new();
    for (n, o) in l.ops.iter().enumerate() {
        if let Some(c) = o.calls.iter().find(|c| matches!(c.what, What::Best(_)) != w.berkeley) {
            return err("wrong-call", format!("{c:?}"));
        }
        let ok = o.result;
        let mut whole = true;
        for c in &o.calls {
            if let Some(a) = c.answer {
                must.insert(a, !o.abandoned);
            }
        }
        if o.abandoned {
            continue;
        }
        if w.berkeley {
            let mut asked: Vec<&str> = o.calls.iter().map(|c| match &c.what { What::Best(e) => e.as_str(), _ => "" }).collect();
            asked.sort();
            let expect: Vec<&str> = o.endpoints.iter().map(|x| x.as_str()).collect();
            if asked != expect {
                return err(if asked.len() < expect.len() { "endpoint-not-asked" } else { "endpoint-asked-again" }, format!("poll {n}: the list is {expect:?}, asked were {asked:?}"));
            }
            whole = o.calls.iter().all(|c| c.answer.is_some());
            if !whole {
                sim.probe(if o.calls.iter().any(|c| c.answer.is_some()) { "some-endpoints-fail" } else { "all-endpoints-fail" });
            }
            if ok != Some(whole) {
                return err(if whole { "poll-fails" } else { "failure-not-reported" }, format!("poll {n} ended with {ok:?}"));
            }
        } else {
            let Some((first, rest)) = o.calls.split_first() else { return err("listing-not-asked", format!("poll {n}")) };
            if first.what != What::List {
                return err("listing-not-asked", format!("poll {n} began with {:?}", first.what));
            }
            let asked: Vec<(usize, String)> = rest.iter().filter_map(|c| match &c.what { What::Block(h, s) => Some((*h, s.clone())), _ => None }).collect();
            let listed = first.list.clone().unwrap_or_default();
            if asked != listed || asked.len() != rest.len() {
                return err(if asked.len() < listed.len() { "listed-block-not-asked" } else { "other-blocks-asked" }, format!("poll {n}: listed {listed:?}, asked {asked:?}"));
            }
            whole &= rest.iter().all(|c| c.answer.is_some());
            if !whole {
                sim.probe("some-blocks-fail");
            }
            if first.list.is_none() && ok != Some(false) {
                return err("failure-not-reported", format!("poll {n} ended with {ok:?}"));
            }
            if first.list.is_some() && whole && ok != Some(true) {
                return err("poll-fails", format!("poll {n} ended with {ok:?}"));
            }
            // in the order listed
            let order: Vec<u64> = rest.iter().filter_map(|c| c.answer).collect();
            let got: Vec<u64> = l.handed.iter().copied().filter(|x| order.contains(x)).collect();
            if got.len() == order.len() && got != order {
                return err("listed-order-changed", format!("poll {n}: listed {order:?}, handed over {got:?}"));
            }
        }
        sim.nontrivial();
    }
    for c in &l.queries {
        if let Some(a) = c.answer {
            must.insert(a, true);
        }
    }
    for (id, required) in &must {
        let n = l.handed.iter().filter(|x| *x == id).count();
        if n > 1 {
            return err("block-handed-over-twice", format!("answer {id}"));
        }
        if n == 0 && *required {
            return err("block-not-handed-over", format!("answer {id} of {:?} never reached the frontier, {:?} did", l.good.keys(), l.handed));
        }
    }
    // each query of the frontier is asked once
    if w.berkeley {
        let mut rest = &l.queries[..];
        let mut served = 0;
        while let Some(c) = rest.first() {
            let what: BTreeSet<String> = rest.iter().take_while(|x| x.version == c.version).map(|x| match &x.what { What::Best(e) => e.clone(), _ => String::new() }).collect();
            let n = what.len();
            // one query: as many different endpoints as the list has
            let one: BTreeSet<String> = rest[..n.min(rest.len())].iter().map(|x| match &x.what { What::Best(e) => e.clone(), _ => String::new() }).collect();
            if one != what {
                return err("endpoint-asked-again", format!("{:?}", l.queries));
            }
            served += 1;
            rest = &rest[n..];
        }
        if served > l.requests.len() {
            return err("query-twice", format!("{} requests, {served} queries", l.requests.len()));
        }
    } else {
        let asked: Vec<(usize, String)> = l.queries.iter().filter_map(|c| match &c.what { What::Block(h, s) => Some((*h, s.clone())), _ => None }).collect();
        if asked != l.requests {
            return err(if asked.len() < l.requests.len() { "query-lost" } else { "wrong-query" }, format!("requested {:?}, asked {asked:?}", l.requests));
        }
    }
    Ok(())
}
