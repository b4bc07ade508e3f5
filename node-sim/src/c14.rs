//! C14: nodes that hear of blocks through a lossy network choose by the fork-choice rule and agree in the end.
use crate::blocks;
use crate::exec::*;
use crate::fork::{select, Info};
use mina_consensus::common::ProtocolStateChain;
use mina_network::processor::*;
use mina_rs_base::consensus_state::{ConsensusState, VrfOutputTruncated};
use mina_crypto::hash::StateHash;
use mina_rs_base::types::*;
use mina_serialization_types::v1::ExternalTransitionV1;
use mina_merkle::MerkleProof;
use proof_systems::mina_hasher::{hash_of, Fp, ROInput};
use proof_systems::o1_utils::FieldHelpers;
use simcore::{Ctx, Outcome, Violation};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tokio::sync::mpsc;

pub fn hash_be(f: &Fp) -> Vec<u8> {
    let mut v = f.to_bytes();
    v.reverse();
    v
}

pub fn info_of<T: ProtocolStateHeader>(p: &T) -> Info {
    let c: &ConsensusState = p.consensus_state();
    Info {
        len: c.blockchain_length.0,
        epoch: c.epoch_count.0,
        slot: c.curr_global_slot.slot_number.0,
        spe: c.curr_global_slot.slots_per_epoch.0,
        staking_lock: c.staking_epoch_data.lock_checkpoint.to_string(),
        next_lock: c.next_epoch_data.lock_checkpoint.to_string(),
        vrf: c.last_vrf_output.0.clone(),
        mwd: c.min_window_density.0,
        swd: c.sub_window_densities.iter().map(|x| x.0).collect(),
        hash: hash_be(&p.state_hash_fp()),
    }
}

/// One block of a run, as its producer made it.
pub struct Made<F: Flavor> {
    pub info: Info,
    pub msg: F::Msg,
    pub tag: String,
    pub verdict: Verdict,
}

/// What differs between the mainnet node (blocks in bin_prot) and the berkeley node (GraphQL answers).
pub trait Flavor: Sized + 'static {
    type Msg: Clone + 'static;
    type Header: ProtocolStateHeader + Default + Clone + PartialEq + 'static;
    type Block: TryFrom<Net<Self>, Error = String> + 'static;
    type Frontier: TransitionFrontier<Block = Self::Block> + 'static;
    const NAME: &'static str;
    fn new_frontier() -> Self::Frontier;
    fn chain(f: &Self::Frontier) -> &ProtocolStateChain<Self::Header>;
    fn header(b: &Self::Block) -> Self::Header;
    /// what else the frontier keeps of the tip
    fn extra(f: &Self::Frontier) -> String;
    fn extra_of(m: &Self::Msg) -> String;
    /// a block with these properties; its hash is filled in
    fn make(sim: &Sim, i: &mut Info, prev: Option<&Info>, n: u64) -> (Self::Msg, Verdict);
    /// what a reader of an adopted block does with it
    fn read(_: &Self::Block) {}
    /// a changed copy, and whether it must be refused (and how to name it if it is not)
    fn spoil(sim: &Sim, m: &Self::Msg) -> (Self::Msg, Verdict);
    /// another copy of the same block, that may carry other extra data
    fn again(sim: &Sim, m: &Self::Msg) -> Self::Msg;
}

/// Err: the message must be refused
pub type Verdict = Result<(), &'static str>;
pub const BAD: Verdict = Err("invalid-block-adopted");

/// A message as the network hands it to a node.
pub struct Net<F: Flavor> {
    pub msg: F::Msg,
    good: Verdict,
    made: Info,
    node: Rc<NodeState>,
    sim: Sim,
}
unsafe impl<F: Flavor> Send for Net<F> {}
unsafe impl<F: Flavor> Sync for Net<F> {}
impl<F: Flavor> Net<F> {
    /// called by the conversion before it does anything
    pub fn unreadable(&self, e: impl std::fmt::Display) -> String {
        self.sim.event(|| format!("not understood: {e:.80}"));
        e.to_string()
    }
    pub fn begin(&self) {
        self.node.refused_unread();
        *self.node.current.borrow_mut() = Some((self.good, self.made.clone()));
        *self.node.extra.borrow_mut() = if self.good.is_ok() { F::extra_of(&self.msg) } else { String::new() };
        self.sim.probe("offered");
    }
}

#[derive(Default)]
pub struct NodeState {
    current: RefCell<Option<(Verdict, Info)>>,
    extra: RefCell<String>,
    tip: RefCell<Option<Info>>,
    tip_extra: RefCell<String>,
    broken: RefCell<Option<Violation>>,
    steps: Cell<u64>,
}

impl NodeState {
    /// a block that never reached the frontier must have been a bad one
    fn refused_unread(&self) {
        if let Some((Ok(()), i)) = self.current.take() {
            let mut b = self.broken.borrow_mut();
            if b.is_none() {
                *b = Some(Violation::new("good-block-refused", format!("{} was not understood", brief(&Some(i)))));
            }
        }
    }
}

/// The real frontier with an observer around it.
pub struct Observed<F: Flavor> {
    inner: F::Frontier,
    node: Rc<NodeState>,
    sim: Sim,
    name: u64,
}
fn brief(i: &Option<Info>) -> String {
    match i {
        None => "nothing".into(),
        Some(i) => format!("len {} epoch {} slot {} hash {:02x}{:02x}", i.len, i.epoch, i.slot, i.hash[0], i.hash[1]),
    }
}
impl<F: Flavor> TransitionFrontier for Observed<F> {
    type Block = F::Block;
    async fn add_block(&mut self, block: F::Block) -> anyhow::Result<()> {
        let header = F::header(&block);
        let before = F::chain(&self.inner).top().cloned();
        let old = before.as_ref().map(info_of);
        let current = self.node.current.take();
        let good = current.as_ref().map(|c| c.0);
        let n = self.name;
        self.node.steps.set(self.node.steps.get() + 1);
        if let Some(Err(class)) = good {
            // the state hash of a bad block may not exist
            *self.node.current.borrow_mut() = current;
            let r = self.inner.add_block(block).await;
            self.node.current.take();
            let same = F::chain(&self.inner).top() == before.as_ref();
            self.sim.event(|| format!("node {n}: tip {} offered a bad block: {}", brief(&old), if r.is_ok() { "taken" } else { "refused" }));
            if r.is_ok() || !same || F::extra(&self.inner) != *self.node.tip_extra.borrow() {
                let mut b = self.node.broken.borrow_mut();
                if b.is_none() {
                    *b = Some(Violation::new(class, format!("node {n} with tip {} was offered a block that must be refused: add_block returned {}, the tip {}", brief(&old), if r.is_ok() { "Ok" } else { "Err" }, if same { "stayed" } else { "changed" })));
                }
            }
            return r;
        }
        F::read(&block);
        let cand = info_of(&header);
        let r = self.inner.add_block(block).await;
        let after = F::chain(&self.inner).top().cloned();
        let new = after.as_ref().map(info_of);
        let fail = |class: &str, what: String| {
            let mut b = self.node.broken.borrow_mut();
            if b.is_none() {
                *b = Some(Violation::new(class, format!("node {n} with tip {} was offered {}: {what}", brief(&old), brief(&Some(cand.clone())))));
            }
        };
        let sel = match &old {
            None => Ok(true),
            Some(o) => select(o, &cand),
        };
        let expect = if sel == Ok(true) { Some(header.clone()) } else { before.clone() };
        self.sim.event(|| format!("node {n}: tip {} offered {} -> {}", brief(&old), brief(&Some(cand.clone())), brief(&new)));
        if let Some(o) = &old {
            let sr = crate::fork::short_range(o, &cand);
            self.sim.probe(match (sr, sel) {
                (true, Ok(true)) => "short-range-adopted",
                (true, _) => "short-range-kept",
                (false, Ok(true)) => "long-range-adopted",
                (false, Ok(false)) => "long-range-kept",
                (false, Err(())) => "long-range-undecidable",
            });
            if o.len == cand.len && o.hash != cand.hash {
                self.sim.probe(if o.vrf == cand.vrf { "tie-on-state-hash" } else { "tie-on-vrf" });
            }
        }
        if good == Some(Ok(())) && current.as_ref().map(|c| &c.1) != Some(&cand) {
            fail("block-misread", format!("its producer made {:?}, the node read {cand:?}", current.unwrap().1));
        } else if after != expect {
            let class = if new == old { "better-block-refused" } else if new == Some(cand.clone()) { "worse-block-adopted" } else { "wrong-tip" };
            fail(class, format!("the tip became {}, the rule gives {}", brief(&new), brief(&expect.as_ref().map(info_of))));
        } else if good == Some(Ok(())) && sel.is_ok() && r.is_err() {
            fail("good-block-refused", format!("add_block failed: {}", r.as_ref().unwrap_err()));
        }
        // what the frontier reports of its tip
        let ch = F::chain(&self.inner);
        if let Some(t) = &new {
            let vrf = hex::encode(crate::fork::blake2b(&t.vrf));
            let es = (t.spe != 0).then(|| t.slot % t.spe);
            if ch.length() != t.len as usize || ch.global_slot().map(|g| g.slot_number.0) != Some(t.slot) || ch.epoch_slot() != es || ch.state_hash().map(|h| hash_be(&h)) != Some(t.hash.clone()) || ch.last_vrf_hash_digest() != Ok(vrf) {
                fail("tip-misreported", format!("length {} slot {:?} epoch slot {:?}", ch.length(), ch.global_slot(), ch.epoch_slot()));
            }
        }
        if new == Some(cand.clone()) {
            *self.node.tip_extra.borrow_mut() = self.node.extra.borrow().clone();
        }
        let ex = F::extra(&self.inner);
        if ex != *self.node.tip_extra.borrow() {
            fail("ledger-not-of-tip", format!("the frontier's ledger is {ex}, the tip came with {}", self.node.tip_extra.borrow()));
        }
        *self.node.tip.borrow_mut() = new;
        r
    }
    fn set_block_requester(&mut self, s: mpsc::Sender<QueryBlockRequest>) {
        self.inner.set_block_requester(s)
    }
}
pub struct Ops<F: Flavor> {
    tx: Option<mpsc::Sender<Net<F>>>,
}
impl<F: Flavor> NonConsensusNetworkingOps for Ops<F> {
    type Block = Net<F>;
    fn set_block_responder(&mut self, s: mpsc::Sender<Net<F>>) {
        self.tx = Some(s);
    }
    async fn query_block(&mut self, _: &QueryBlockRequest) -> anyhow::Result<()> {
        Ok(())
    }
}
type Proc<F> = NetworkMessageProcessor<Net<F>, <F as Flavor>::Block, Observed<F>, Ops<F>>;

struct Node<F: Flavor> {
    proc_: Rc<Proc<F>>,
    state: Rc<NodeState>,
    up: bool,
    side: u64,
}
struct World<F: Flavor> {
    sim: Sim,
    nodes: RefCell<Vec<Node<F>>>,
    made: RefCell<Vec<Rc<Made<F>>>>,
    lossy: Cell<bool>,
    p_loss: u64,
    p_dup: u64,
    p_spoil: u64,
    hostile: bool,
    family: u64,
    base: u32,
    locks: Vec<String>,
}
type W<F> = Rc<World<F>>;

fn new_node<F: Flavor>(sim: &Sim, name: u64) -> (Rc<Proc<F>>, Rc<NodeState>) {
    let state: Rc<NodeState> = Rc::default();
    let f = Observed::<F> { inner: F::new_frontier(), node: state.clone(), sim: sim.clone(), name };
    (Rc::new(NetworkMessageProcessor::new(f, Ops { tx: None })), state)
}

fn send<F: Flavor>(w: &W<F>, from: u64, to: u64, m: &Rc<Made<F>>) {
    let sim = w.sim.clone();
    let local = from == to;
    {
        let n = w.nodes.borrow();
        if n[from as usize].side != n[to as usize].side {
            sim.fault("message-into-partition");
            return;
        }
    }
    let mut copies = 1;
    let mut good = m.verdict;
    let mut msg = m.msg.clone();
    if w.lossy.get() && !local {
        if sim.chance(w.p_loss, 16) {
            sim.fault("message-lost");
            return;
        }
        if sim.chance(w.p_dup, 16) {
            sim.fault("message-duplicated");
            copies = 2;
        }
        if sim.chance(w.p_spoil, 16) {
            sim.fault("message-tampered");
            (msg, good) = F::spoil(&sim, &m.msg);
        } else if sim.chance(1, 4) {
            msg = F::again(&sim, &m.msg);
        }
    }
    for c in 0..copies {
        let (w2, sim2, msg) = (w.clone(), sim.clone(), msg.clone());
        let (p, state) = {
            let n = w.nodes.borrow();
            let n = &n[to as usize];
            (n.proc_.clone(), n.state.clone())
        };
        let (tag, made) = (m.tag.clone(), m.info.clone());
        sim.spawn(format!("message {tag} {from}->{to}.{c}"), async move {
            let d = if local { 0 } else { sim2.range(1, if w2.lossy.get() { 3000 } else { 200 }) };
            sim2.sleep(d).await;
            if !w2.nodes.borrow()[to as usize].up {
                sim2.fault("message-to-dead-node");
                return;
            }
            if !Rc::ptr_eq(&w2.nodes.borrow()[to as usize].proc_, &p) {
                sim2.fault("message-to-earlier-life");
                return;
            }
            let tx = p.nonconsensus_ops().await.tx.as_ref().unwrap().clone();
            drop(p);
            sim2.event(|| format!("{tag} arrives at node {to}{}", if good.is_ok() { "" } else { " (tampered)" }));
            let _ = tx.send(Net { msg, good, made, node: state, sim: sim2.clone() }).await;
        });
    }
}
fn broadcast<F: Flavor>(w: &W<F>, from: u64, m: &Rc<Made<F>>) {
    let n = w.nodes.borrow().len() as u64;
    for to in 0..n {
        if to != from {
            send(w, from, to, m);
        }
    }
}

/// the successor of a block in its producer's view, or an arbitrary block of the run's family
fn draw_block<F: Flavor>(w: &W<F>, tip: Option<Info>, n: u64) -> Made<F> {
    let sim = &w.sim;
    let small = [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 20, 100, 1000, 2379, 2380, 2381, 4760, 7139, 7140];
    let swd_pools: [[u32; 11]; 5] = [[1, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7], [7; 11], [3, 2, 4, 1, 5, 0, 6, 2, 3, 4, 1], [2, 7, 4, 5, 5, 4, 1, 5, 6, 3, 6], [0; 11]];
    let vrfs = || -> Vec<u8> {
        let k = sim.draw(6);
        let mut v = vec![k as u8; 32];
        v[31] &= 0x1f;
        v
    };
    let lock = |k: u64| w.locks[k as usize % w.locks.len()].clone();
    let mut i = match (&tip, w.family) {
        (Some(t), 0 | 1) | (Some(t), 3) if sim.chance(3, 4) => {
            // extend the own tip
            let mut i = t.clone();
            i.len = t.len.saturating_add(1);
            i.slot = t.slot.saturating_add(1 + *sim_pick(sim, &small));
            if w.family == 0 {
                i.slot = t.slot.saturating_add(1 + sim.draw(3) as u32);
            }
            i.spe = 7140;
            let e = i.slot / 7140;
            if e > t.slot / 7140 && w.family != 0 {
                i.epoch = t.epoch.saturating_add(1);
                i.staking_lock = t.next_lock.clone();
                i.next_lock = lock(sim.draw(3));
            } else if i.slot % 7140 < 4760 && sim.chance(1, 3) && w.family != 0 {
                i.next_lock = lock(sim.draw(3));
            }
            if w.family != 0 {
                i.mwd = i.mwd.min(sim.range(0, 77) as u32);
                if sim.chance(1, 2) {
                    i.swd = swd_pools[sim.draw(5) as usize].to_vec();
                }
            }
            i.vrf = vrfs();
            i
        }
        _ => {
            let short = w.family == 0;
            let epoch = if short { 1 } else { sim.draw(3) as u32 };
            let off = [0u32, 1, 100, 1439, 1440, 4759, 4760, 4761, 5000, 7139][sim.draw(10) as usize];
            let slot = if short { 7140 + 100 + sim.draw(30) as u32 } else { epoch * 7140 + off };
            Info {
                len: w.base + sim.draw(4) as u32,
                epoch,
                slot,
                spe: 7140,
                staking_lock: if short { lock(0) } else { lock(sim.draw(2)) },
                next_lock: if short { lock(1) } else { lock(sim.draw(2)) },
                vrf: vrfs(),
                mwd: if short { 40 } else { sim.range(0, 77) as u32 },
                swd: swd_pools[if short { 0 } else { sim.draw(5) as usize }].to_vec(),
                hash: vec![],
            }
        }
    };
    if w.hostile && sim.chance(1, 4) {
        sim.fault("odd-block");
        match sim.draw(9) {
            0 => i.spe = 0,
            1 => i.spe = 1,
            2 => i.epoch = u32::MAX,
            3 => i.slot = u32::MAX,
            4 => i.len = u32::MAX,
            5 => i.len = 0,
            6 => i.swd = vec![1; sim_pick(sim, &[0usize, 3, 10, 12]).to_owned()],
            7 => i.swd = { let mut s = vec![7; 11]; s[sim.draw(11) as usize] = 8; s },
            _ => i.swd = vec![u32::MAX; 11],
        }
    }
    let (msg, verdict) = F::make(sim, &mut i, tip.as_ref(), n);
    Made { info: i, msg, tag: format!("b{n}"), verdict }
}
pub fn sim_pick<'a, T>(sim: &Sim, xs: &'a [T]) -> &'a T {
    &xs[sim.draw(xs.len() as u64) as usize]
}

pub fn simulate<F: Flavor>(ctx: &mut Ctx) -> Outcome {
    let sim = Sim::new(ctx);
    let n = sim.range(2, 4);
    let hostile = sim.chance(1, 4);
    let locks: Vec<String> = (1..4u64).map(|k| StateHash::from(&Fp::from(k * 1000)).to_string()).collect();
    let w: W<F> = Rc::new(World {
        sim: sim.clone(),
        nodes: RefCell::default(),
        made: RefCell::default(),
        lossy: Cell::new(true),
        p_loss: [0, 2, 6, 10][sim.draw(4) as usize],
        p_dup: [0, 2, 8][sim.draw(3) as usize],
        p_spoil: [0, 0, 2, 5][sim.draw(4) as usize],
        hostile,
        family: sim.draw(3),
        base: [1, 1, 5, 1000][sim.draw(4) as usize],
        locks,
    });
    sim.event(|| format!("{} network of {n} nodes, family {}", F::NAME, w.family));
    for i in 0..n {
        let (p, state) = new_node::<F>(&sim, i);
        w.nodes.borrow_mut().push(Node { proc_: p, state, up: true, side: 0 });
    }
    let mut ex = Exec::new(&sim, 200_000);
    let start = |w: &W<F>, i: u64| {
        let p = w.nodes.borrow()[i as usize].proc_.clone();
        w.sim.spawn(format!("idle node {i}"), async move { p.run().await });
    };
    for i in 0..n {
        start(&w, i);
    }
    let total = Rc::new(Cell::new(0u64));
    for i in 0..n {
        let (w2, sim2, total) = (w.clone(), sim.clone(), total.clone());
        let k = sim.range(1, 4);
        sim.spawn(format!("producer {i}"), async move {
            for _ in 0..k {
                sim2.sleep(1 + sim2.draw(4000)).await;
                if !w2.nodes.borrow()[i as usize].up {
                    continue;
                }
                let tip = w2.nodes.borrow()[i as usize].state.tip.borrow().clone();
                let nr = total.get();
                total.set(nr + 1);
                let m = Rc::new(draw_block::<F>(&w2, tip, nr));
                sim2.event(|| format!("node {i} makes {} {}", m.tag, brief(&Some(m.info.clone()))));
                w2.made.borrow_mut().push(m.clone());
                send(&w2, i, i, &m);
                broadcast(&w2, i, &m);
            }
        });
        // status gossip: now and then a node tells the others of its tip
        let (w2, sim2) = (w.clone(), sim.clone());
        let rounds = sim.draw(3);
        sim.spawn(format!("gossip {i}"), async move {
            for _ in 0..rounds {
                sim2.sleep(1 + sim2.draw(8000)).await;
                tell(&w2, i);
            }
        });
    }
    let check = |w: &W<F>, ex_idle: bool| -> Outcome {
        for nd in w.nodes.borrow().iter() {
            if ex_idle {
                nd.state.refused_unread();
            }
            if let Some(v) = nd.state.broken.borrow().as_ref() {
                return Err(v.clone());
            }
        }
        Ok(())
    };
    let ended = |e: End| -> Outcome {
        if let End::Panic(..) = e {
            check(&w, false)?;
        }
        match e {
            End::Done => Ok(()),
            End::Panic(t, m) => {
                let odd = w.nodes.borrow().iter().find_map(|n| match &*n.state.current.borrow() {
                    Some((Err(class), _)) if Err(*class) != BAD => Some(*class),
                    _ => None,
                });
                Err(Violation::new(odd.unwrap_or("panic"), format!("{t} panicked: {m}")))
            }
            End::Stuck(t) => Err(Violation::new("stuck", format!("{t:?} wait for ever"))),
            End::TooLong => Err(Violation::new("no-progress", "200000 steps were not enough")),
        }
    };
    // the world while faults happen
    let disasters = sim.draw(5);
    for _ in 0..disasters {
        let until = sim.now() + sim.range(1, 6000);
        let s2 = sim.clone();
        ended(ex.run(|| s2.now() >= until))?;
        check(&w, false)?;
        match sim.draw(4) {
            0 => {
                let a = sim.draw(1 << n);
                sim.fault("partition");
                sim.event(|| format!("the network splits: {a:b}"));
                for (i, nd) in w.nodes.borrow_mut().iter_mut().enumerate() {
                    nd.side = a >> i & 1;
                }
            }
            1 => {
                sim.event(|| "the network heals".into());
                for nd in w.nodes.borrow_mut().iter_mut() {
                    nd.side = 0;
                }
            }
            _ => {
                let i = sim.draw(n);
                if w.nodes.borrow()[i as usize].up {
                    sim.fault("node-crash");
                    sim.event(|| format!("node {i} crashes"));
                    ex.kill(&format!("idle node {i}"));
                    w.nodes.borrow()[i as usize].state.current.take();
                    w.nodes.borrow_mut()[i as usize].up = false;
                    if sim.chance(1, 2) {
                        restart(&w, i);
                        start(&w, i);
                    }
                } else {
                    restart(&w, i);
                    start(&w, i);
                }
            }
        }
    }
    ended(ex.run(|| false))?;
    check(&w, true)?;
    // faults stop
    sim.event(|| "faults stop".into());
    w.lossy.set(false);
    for i in 0..n {
        if !w.nodes.borrow()[i as usize].up {
            restart(&w, i);
            start(&w, i);
        }
        w.nodes.borrow_mut()[i as usize].side = 0;
    }
    let tip = |i: u64| w.nodes.borrow()[i as usize].state.tip.borrow().clone();
    let held: Vec<Info> = (0..n).filter_map(tip).collect();
    // a link may have turned a bad block into a good one: nobody can tell of that
    let told = |h: &[u8]| w.made.borrow().iter().any(|m| m.info.hash == h && m.verdict.is_ok());
    let best = held
        .iter()
        .filter(|_| held.iter().all(|x| told(&x.hash)))
        .find(|m| held.iter().all(|x| x.hash == m.hash || (select(x, m) == Ok(true) && select(m, x) != Ok(true))))
        .cloned();
    for _ in 0..2 {
        for i in 0..n {
            tell(&w, i);
        }
        ended(ex.run(|| false))?;
        check(&w, true)?;
    }
    for i in 0..n {
        if !ex.alive(&format!("idle node {i}")) {
            return Err(Violation::new("loops-ended", format!("node {i}")));
        }
    }
    if let Some(b) = best {
        sim.probe(if held.iter().all(|x| x.hash == b.hash) { "agreed-already" } else { "agreed-after-heal" });
        for i in 0..n {
            if tip(i).map(|t| t.hash) != Some(b.hash.clone()) {
                return Err(Violation::new("nodes-disagree", format!("after two rounds of gossip without faults node {i} holds {}, the best block held was {}", brief(&tip(i)), brief(&Some(b)))));
            }
        }
    } else if !held.is_empty() {
        sim.probe("no-best-block");
    }
    Ok(())
}
fn tell<F: Flavor>(w: &W<F>, i: u64) {
    if !w.nodes.borrow()[i as usize].up {
        return;
    }
    let tip = w.nodes.borrow()[i as usize].state.tip.borrow().clone();
    if let Some(t) = tip {
        let m = w.made.borrow().iter().find(|m| m.info.hash == t.hash && m.verdict.is_ok()).cloned();
        if let Some(m) = m {
            broadcast(w, i, &m);
        }
    }
}
fn restart<F: Flavor>(w: &W<F>, i: u64) {
    w.sim.event(|| format!("node {i} restarts"));
    w.sim.fault("node-restart");
    let (p, state) = new_node::<F>(&w.sim, i);
    let nd = &mut w.nodes.borrow_mut()[i as usize];
    nd.proc_ = p;
    nd.state = state;
    nd.up = true;
}

// ---------------------------------------------------------------- mainnet
pub struct Mainnet;
#[derive(Clone)]
pub struct Bytes(pub Rc<Vec<u8>>);
impl TryFrom<Net<Mainnet>> for ExternalTransition {
    type Error = String;
    fn try_from(m: Net<Mainnet>) -> Result<Self, String> {
        m.begin();
        let v = blocks::decode(&m.msg.0).map_err(|e| m.unreadable(e))?;
        Ok(v.into())
    }
}
thread_local! {
    static TEMPLATES: Vec<ExternalTransitionV1> = blocks::FIXTURES[..6].iter().map(|n| { let mut b = blocks::decode(&blocks::fixture_bytes(n)).unwrap(); blocks::resign(&mut b); b }).collect();
}
impl Flavor for Mainnet {
    type Msg = Bytes;
    type Header = ProtocolStateLegacy;
    type Block = ExternalTransition;
    type Frontier = NaiveTransitionFrontier<ProtocolStateLegacy, MerkleProofMainnet>;
    const NAME: &'static str = "mainnet";
    fn new_frontier() -> Self::Frontier {
        NaiveTransitionFrontier::<ProtocolStateLegacy, MerkleProofMainnet>::new()
    }
    fn chain(f: &Self::Frontier) -> &ProtocolStateChain<ProtocolStateLegacy> {
        f.get_best_chain()
    }
    fn header(b: &ExternalTransition) -> ProtocolStateLegacy {
        b.protocol_state.clone()
    }
    fn extra(_: &Self::Frontier) -> String {
        String::new()
    }
    fn extra_of(_: &Bytes) -> String {
        String::new()
    }
    fn make(sim: &Sim, i: &mut Info, _: Option<&Info>, _n: u64) -> (Bytes, Verdict) {
        let k = sim.draw(6) as usize;
        let mut v = TEMPLATES.with(|t| t[k].clone());
        let mut p: ProtocolStateLegacy = v.t.protocol_state.clone().into();
        set_consensus(&mut p.body.consensus_state, i);
        // two blocks of a run differ in nothing but this, now and then
        p.previous_state_hash = (&Fp::from(sim.draw(4))).into();
        i.hash = hash_be(&p.state_hash_fp());
        v.t.protocol_state = p.into();
        (Bytes(Rc::new(blocks::encode(&v))), Ok(()))
    }
    fn spoil(sim: &Sim, m: &Bytes) -> (Bytes, Verdict) {
        let mut v = blocks::decode(&m.0).unwrap();
        let n = blocks::commands(&v) as u64;
        if n == 0 || sim.chance(1, 2) {
            // cut short
            let k = sim.draw(m.0.len() as u64) as usize;
            return (Bytes(Rc::new(m.0[..k].to_vec())), BAD);
        }
        sim.probe("command-tampered");
        let k = sim.draw(n) as usize;
        let how = sim.draw(3);
        blocks::tamper(&mut v, k, how);
        (Bytes(Rc::new(blocks::encode(&v))), BAD)
    }
    fn again(_: &Sim, m: &Bytes) -> Bytes {
        m.clone()
    }
}
pub fn set_consensus(c: &mut ConsensusState, i: &Info) {
    c.blockchain_length = i.len.into();
    c.epoch_count = i.epoch.into();
    c.curr_global_slot.slot_number = i.slot.into();
    c.curr_global_slot.slots_per_epoch = i.spe.into();
    c.staking_epoch_data.lock_checkpoint = i.staking_lock.parse().unwrap();
    c.next_epoch_data.lock_checkpoint = i.next_lock.parse().unwrap();
    c.last_vrf_output = VrfOutputTruncated(i.vrf.clone());
    c.min_window_density = i.mwd.into();
    c.sub_window_densities = i.swd.iter().map(|x| (*x).into()).collect();
}

// ---------------------------------------------------------------- berkeley
pub struct Berkeley;
thread_local! {
    /// what a ledger's proofs lead to, by the ledger's content
    static ROOTS: RefCell<std::collections::HashMap<u64, String>> = RefCell::default();
}
type Json = serde_json::Value;
#[derive(Clone)]
pub struct Answer(pub Rc<Json>, Rc<String>);
impl TryFrom<Net<Berkeley>> for ProtocolStateWithSparseMerkleLedger {
    type Error = String;
    fn try_from(m: Net<Berkeley>) -> Result<Self, String> {
        m.begin();
        (&*m.msg.0).try_into().map_err(|e: anyhow::Error| m.unreadable(e))
    }
}
const KEYS: [&str; 4] = [
    "B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg",
    "B62qknCv9QdyAvt4Te58oo3nrZTacpEcjpJg1MV61r94h5rDPDUyPP8",
    "B62qrPN5Y5yq8kGE3FbVKbGTdTAJNdtNtB5sNVpxyRwWGcDEhpMzc8g",
    "B62qre3erTHfzQckNuibViWQGyyKwZseztqrjPZBv6SQF384Rg6ESAy",
];
const TEMPLATE: &str = include_str!("berkeley.json");
/// the value a path of siblings leads to, by its definition
fn root_of(leaf: &Fp, path: &[(bool, Fp)]) -> Fp {
    let mut cur = *leaf;
    for (i, (left, h)) in path.iter().enumerate() {
        let (l, r) = if *left { (cur, *h) } else { (*h, cur) };
        cur = hash_of("kimchi", Some(format!("CodaMklTree{i:03}")), &ROInput::new().append_field(l).append_field(r));
    }
    cur
}
fn dec(f: &Fp) -> String {
    num::BigUint::from_bytes_le(&f.to_bytes()).to_string()
}
fn draw_field(sim: &Sim) -> Fp {
    let mut b = [0u8; 32];
    for x in b[..8].iter_mut() {
        *x = sim.draw(3) as u8;
    }
    b[31] = sim.draw(0x40) as u8;
    Fp::from_bytes(&b).unwrap()
}
/// gives the answer other accounts; the roots of their paths
fn put_accounts(sim: &Sim, j: &mut Json) -> Rc<String> {
    let mut roots = std::collections::BTreeMap::new();
    for k in KEYS {
        j.as_object_mut().unwrap().remove(k);
    }
    for _ in 0..sim.draw(3) {
        let n = [1, 2, 3, 5, 20, 27, 28, 29, 30, 35, 62, 63][sim.draw(12) as usize];
        let bias = sim.draw(3);
        let path: Vec<(bool, Fp)> = (0..n)
            .map(|_| {
                let left = match bias {
                    0 => sim.draw(2) == 0,
                    1 => true,
                    _ => false,
                };
                (left, draw_field(sim))
            })
            .collect();
        let leaf = draw_field(sim);
        let nodes: Vec<Json> = path
            .iter()
            .map(|(left, h)| if *left { serde_json::json!({"left": dec(h), "right": null}) } else { serde_json::json!({"left": null, "right": dec(h)}) })
            .collect();
        let k = KEYS[sim.draw(4) as usize];
        j[k] = serde_json::json!({"merklePath": nodes, "leafHash": dec(&leaf)});
        roots.insert(k, dec(&root_of(&leaf, &path)));
    }
    let mut v: Vec<String> = roots.into_values().collect();
    v.sort();
    Rc::new(v.join(" "))
}
const REQUIRED: &[&str] = &[
    "consensusState/blockHeight", "consensusState/epochCount", "consensusState/minWindowDensity", "consensusState/lastVrfOutput",
    "consensusState/totalCurrency", "consensusState/epoch", "consensusState/slot", "consensusState/slotSinceGenesis", "consensusState/blockCreator",
    "consensusState/blockStakeWinner", "consensusState/coinbaseReceiever", "consensusState/stakingEpochData/lockCheckpoint",
    "consensusState/stakingEpochData/seed", "consensusState/stakingEpochData/epochLength", "consensusState/stakingEpochData/ledger/hash",
    "consensusState/nextEpochData/lockCheckpoint", "consensusState/nextEpochData/startCheckpoint", "consensusState/nextEpochData/ledger/totalCurrency",
    "blockchainState/bodyReference", "blockchainState/utcDate", "blockchainState/stagedLedgerHash", "blockchainState/stagedLedgerAuxHash",
    "blockchainState/stagedLedgerPendingCoinbaseHash", "blockchainState/stagedLedgerPendingCoinbaseAux", "blockchainState/snarkedLedgerHash",
    "previousStateHash",
];
fn at<'a>(j: &'a mut Json, path: &str) -> &'a mut Json {
    j.pointer_mut(&format!("/bestChain/0/protocolState/{path}")).unwrap()
}
impl Flavor for Berkeley {
    type Msg = Answer;
    type Header = ProtocolState;
    type Block = ProtocolStateWithSparseMerkleLedger;
    type Frontier = NaiveTransitionFrontier<ProtocolState, MerkleProofBerkeleyNet>;
    const NAME: &'static str = "berkeley";
    fn new_frontier() -> Self::Frontier {
        NaiveTransitionFrontier::<ProtocolState, MerkleProofBerkeleyNet>::new()
    }
    fn chain(f: &Self::Frontier) -> &ProtocolStateChain<ProtocolState> {
        f.get_best_chain()
    }
    fn header(b: &Self::Block) -> ProtocolState {
        b.0.clone()
    }
    fn extra(f: &Self::Frontier) -> String {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for p in f.get_sparse_merkle_ledger() {
            (p.index, &p.peer_indices, format!("{:?}", p.item)).hash(&mut h);
            for x in &p.peer_hashes {
                x.map(|x| x.to_bytes()).hash(&mut h);
            }
        }
        let key = h.finish();
        ROOTS.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 10_000 {
                c.clear();
            }
            c.entry(key)
                .or_insert_with(|| {
                    let mut v: Vec<String> = f.get_sparse_merkle_ledger().iter().map(|p| p.root_hash().map(|h| dec(&h)).unwrap_or_else(|e| e.to_string())).collect();
                    v.sort();
                    v.join(" ")
                })
                .clone()
        })
    }
    fn extra_of(m: &Answer) -> String {
        (*m.1).clone()
    }
    fn make(sim: &Sim, i: &mut Info, _: Option<&Info>, _: u64) -> (Answer, Verdict) {
        let mut j: Json = serde_json::from_str(TEMPLATE).unwrap();
        // the answer carries neither the sub-window densities nor the epoch length
        i.swd = [vec![1], vec![7; 10]].concat();
        i.spe = 7140;
        let mut c = ConsensusState::default();
        set_consensus(&mut c, i);
        for (p, v) in [
            ("consensusState/blockHeight", i.len.to_string()),
            ("consensusState/blockchainLength", i.len.to_string()),
            ("consensusState/epochCount", i.epoch.to_string()),
            ("consensusState/epoch", (i.slot / 7140).to_string()),
            ("consensusState/slot", (i.slot % 7140).to_string()),
            ("consensusState/slotSinceGenesis", i.slot.to_string()),
            ("consensusState/minWindowDensity", i.mwd.to_string()),
            ("consensusState/lastVrfOutput", c.last_vrf_output.to_base58_string().unwrap()),
            ("consensusState/stakingEpochData/lockCheckpoint", i.staking_lock.clone()),
            ("consensusState/nextEpochData/lockCheckpoint", i.next_lock.clone()),
            ("previousStateHash", StateHash::from(&Fp::from(sim.draw(4))).to_string()),
        ] {
            *at(&mut j, p) = v.into();
        }
        i.hash = hash_be(&ProtocolStateWithSparseMerkleLedger::try_from(&j).unwrap().0.state_hash_fp());
        let x = put_accounts(sim, &mut j);
        (Answer(Rc::new(j), x), Ok(()))
    }
    fn spoil(sim: &Sim, m: &Answer) -> (Answer, Verdict) {
        let mut j = (*m.0).clone();
        let p = REQUIRED[sim.draw(REQUIRED.len() as u64) as usize];
        let account = |j: &mut Json, a: Json| j[KEYS[sim.draw(4) as usize]] = a;
        let one = || serde_json::json!({"left": "5", "right": null});
        let big = || [(num::BigUint::from_bytes_le(&Fp::from(0u64).to_bytes()) + modulus()).to_string(), (num::BigUint::from(1u8) << 255usize).to_string(), (num::BigUint::from(1u8) << 256usize).to_string(), "9".repeat(400)][sim.draw(4) as usize].clone();
        match sim.draw(12) {
            0 => *at(&mut j, p) = Json::Null,
            1 => *at(&mut j, p) = [Json::from(7), Json::from("?"), Json::from(""), Json::from("-1"), Json::from("99999999999999999999"), serde_json::json!([]), serde_json::json!({})][sim.draw(7) as usize].clone(),
            2 => account(&mut j, serde_json::json!({"merklePath": [{"left": "1", "right": "2"}], "leafHash": "1"})),
            3 => account(&mut j, serde_json::json!({"merklePath": [one(), {"left": null, "right": null}], "leafHash": "1"})),
            4 => account(&mut j, serde_json::json!({"merklePath": [one()], "leafHash": null})),
            5 => account(&mut j, serde_json::json!({"merklePath": [], "leafHash": "1"})),
            6 => account(&mut j, serde_json::json!({"merklePath": [one()], "leafHash": big()})),
            7 => account(&mut j, serde_json::json!({"merklePath": [{"left": null, "right": big()}], "leafHash": "1"})),
            8 => account(&mut j, serde_json::json!({"merklePath": vec![one(); 64 + sim.draw(10) as usize], "leafHash": "1"})),
            9 => account(&mut j, serde_json::json!({"merklePath": [one()], "leafHash": (["x", "-1", "1.5", "", "0x10"][sim.draw(5) as usize])})),
            10 => j = [Json::Null, Json::from("x"), serde_json::json!({"bestChain": []}), serde_json::json!({"bestChain": null}), serde_json::json!([])][sim.draw(5) as usize].clone(),
            _ => {
                // one character of an encoded value is wrong
                let q = ["previousStateHash", "consensusState/blockCreator", "consensusState/nextEpochData/lockCheckpoint", "blockchainState/snarkedLedgerHash", "consensusState/lastVrfOutput"][sim.draw(5) as usize];
                let v = at(&mut j, q);
                let mut s: Vec<u8> = v.as_str().unwrap().into();
                let k = sim.draw(s.len() as u64) as usize;
                s[k] = if s[k] == b'2' { b'3' } else { b'2' };
                *v = String::from_utf8(s).unwrap().into();
            }
        }
        (Answer(Rc::new(j), Rc::default()), BAD)
    }
    fn again(sim: &Sim, m: &Answer) -> Answer {
        let mut j = (*m.0).clone();
        let x = put_accounts(sim, &mut j);
        Answer(Rc::new(j), x)
    }
}
fn modulus() -> num::BigUint {
    (Fp::from(0u64) - Fp::from(1u64)).to_bytes().iter().rev().fold(num::BigUint::from(0u8), |a, b| a * 256u32 + *b) + 1u32
}

pub fn c14(ctx: &mut Ctx) -> Outcome {
    if ctx.tape.draw(2) == 0 {
        simulate::<Mainnet>(ctx)
    } else {
        simulate::<Berkeley>(ctx)
    }
}
