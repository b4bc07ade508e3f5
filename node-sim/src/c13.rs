//! C13: the message processor between the network and the transition frontier.
use crate::exec::*;
use mina_network::processor::*;
use simcore::{Ctx, Outcome, Violation};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::rc::Rc;
use tokio::sync::mpsc;

#[derive(Default)]
struct Log {
    /// blocks handed over by a sender (send completed), by sender
    sent: BTreeMap<u64, Vec<u64>>,
    /// blocks whose hand-over was abandoned half-way by the sender
    abandoned: Vec<u64>,
    converted: Vec<u64>,
    refused: Vec<u64>,
    added: Vec<u64>,
    interrupted: Vec<u64>,
    requested: Vec<u64>,
    queried: Vec<u64>,
    query_interrupted: Vec<u64>,
    answers_sent: Vec<u64>,
    broken: Option<Violation>,
}
type L = Rc<RefCell<Log>>;

fn broken(l: &L, class: &str, detail: String) {
    let mut l = l.borrow_mut();
    if l.broken.is_none() {
        l.broken = Some(Violation::new(class, detail));
    }
}

struct Shared {
    log: L,
    next: Cell<u64>,
    max_req: u64,
    p_refuse: u64,
    p_fail: u64,
    p_qfail: u64,
    max_answers: u64,
    /// the networking side keeps no way to send blocks: they end when the senders do
    closing: bool,
    /// the frontier may stop asking for blocks for good
    quits: bool,
    quit: Cell<bool>,
}
type S = Rc<Shared>;

pub struct NetBlock {
    id: u64,
    gen: u64,
    sh: S,
    sim: Sim,
}
// the simulation runs on one thread
unsafe impl Send for NetBlock {}
unsafe impl Sync for NetBlock {}
pub struct FrontierBlock {
    id: u64,
    gen: u64,
}
impl TryFrom<NetBlock> for FrontierBlock {
    type Error = String;
    fn try_from(b: NetBlock) -> Result<Self, String> {
        let sh = b.sh.clone();
        sh.log.borrow_mut().converted.push(b.id);
        let refuse = b.sim.chance(sh.p_refuse, 16);
        b.sim.event(|| format!("block {} {}", b.id, if refuse { "cannot be converted" } else { "converted" }));
        if refuse {
            b.sim.fault("unconvertible-block");
            sh.log.borrow_mut().refused.push(b.id);
            return Err("not a block".into());
        }
        Ok(FrontierBlock { id: b.id, gen: b.gen })
    }
}

pub struct Frontier {
    sim: Sim,
    sh: S,
    requester: Option<mpsc::Sender<QueryBlockRequest>>,
    busy: Rc<Cell<Option<u64>>>,
    version: u64,
}
/// notices when the processing of a block is dropped half-way
struct Busy {
    id: u64,
    busy: Rc<Cell<Option<u64>>>,
    log: L,
    done: bool,
}
impl Drop for Busy {
    fn drop(&mut self) {
        self.busy.set(None);
        let mut l = self.log.borrow_mut();
        if self.done { l.added.push(self.id) } else { l.interrupted.push(self.id) }
    }
}
impl TransitionFrontier for Frontier {
    type Block = FrontierBlock;
    async fn add_block(&mut self, block: FrontierBlock) -> anyhow::Result<()> {
        let (sim, sh) = (self.sim.clone(), self.sh.clone());
        if let Some(b) = self.busy.get() {
            broken(&sh.log, "overlapping-add-block", format!("block {} is added while block {b} is", block.id));
        }
        self.busy.set(Some(block.id));
        let mut g = Busy { id: block.id, busy: self.busy.clone(), log: sh.log.clone(), done: false };
        self.version += 1;
        sim.event(|| format!("add_block {} begins", block.id));
        sim.pause().await;
        let nreq = if block.gen >= 2 || sh.next.get() > 60 || self.requester.is_none() { 0 } else { sim.draw(sh.max_req + 1) };
        for _ in 0..nreq {
            let id = sh.next.get();
            sh.next.set(id + 1);
            let r = QueryBlockRequest { height: id as usize, state_hash: format!("{}", block.gen) };
            sim.event(|| format!("add_block {} requests {id}", block.id));
            if self.requester.as_ref().unwrap().send(r).await.is_err() {
                broken(&sh.log, "request-channel-closed", format!("request {id} cannot be sent"));
            } else {
                sh.log.borrow_mut().requested.push(id);
            }
            sim.pause().await;
        }
        if sh.quits && self.requester.is_some() && sim.chance(1, 4) {
            sim.event(|| "the frontier will ask no more".into());
            sim.fault("requester-gone");
            sh.quit.set(true);
            self.requester = None;
        }
        if nreq > 0 {
            sim.probe(if nreq > 2 { "many-requests" } else { "requests" });
        }
        self.version += 1;
        g.done = true;
        drop(g);
        sim.event(|| format!("add_block {} ends", block.id));
        if sim.chance(sh.p_fail, 16) {
            sim.fault("block-refused-by-frontier");
            anyhow::bail!("refused")
        }
        Ok(())
    }
    fn set_block_requester(&mut self, sender: mpsc::Sender<QueryBlockRequest>) {
        self.requester = Some(sender);
    }
}

pub struct Ops {
    sim: Sim,
    sh: S,
    responder: Option<mpsc::Sender<NetBlock>>,
    kept: Rc<RefCell<Option<mpsc::Sender<NetBlock>>>>,
    busy: Rc<Cell<Option<u64>>>,
    setting: u64,
}
struct QBusy {
    id: u64,
    busy: Rc<Cell<Option<u64>>>,
    log: L,
    done: bool,
}
impl Drop for QBusy {
    fn drop(&mut self) {
        self.busy.set(None);
        if !self.done {
            self.log.borrow_mut().query_interrupted.push(self.id);
        }
    }
}
impl NonConsensusNetworkingOps for Ops {
    type Block = NetBlock;
    fn set_block_responder(&mut self, sender: mpsc::Sender<NetBlock>) {
        if self.sh.closing {
            *self.kept.borrow_mut() = Some(sender);
        } else {
            self.responder = Some(sender);
        }
    }
    async fn query_block(&mut self, r: &QueryBlockRequest) -> anyhow::Result<()> {
        let (sim, sh) = (self.sim.clone(), self.sh.clone());
        let id = r.height as u64;
        if let Some(b) = self.busy.get() {
            broken(&sh.log, "overlapping-query", format!("request {id} is served while request {b} is"));
        }
        self.busy.set(Some(id));
        sh.log.borrow_mut().queried.push(id);
        let mut g = QBusy { id, busy: self.busy.clone(), log: sh.log.clone(), done: false };
        sim.event(|| format!("query {id} begins"));
        sim.pause().await;
        let fails = sim.chance(sh.p_qfail, 16);
        let gen: u64 = r.state_hash.parse().unwrap();
        if !fails {
            for _ in 0..sim.draw(sh.max_answers + 1) {
                let b = NetBlock { id: sh.next.get(), gen: gen + 1, sh: sh.clone(), sim: sim.clone() };
                let bid = b.id;
                sh.next.set(bid + 1);
                let Some(tx) = self.responder.clone() else { break };
                if sim.chance(1, 4) {
                    // the answer arrives later, on its own
                    let (sim2, sh2) = (sim.clone(), sh.clone());
                    sim.probe("late-answer");
                    sim.spawn(format!("answer {bid}"), async move {
                        sim2.pause().await;
                        if tx.send(b).await.is_ok() {
                            sh2.log.borrow_mut().answers_sent.push(bid);
                        }
                    });
                } else {
                    sim.probe("inline-answer");
                    let sim2 = sim.clone();
                    if tx.send(b).await.is_err() {
                        broken(&sh.log, "block-channel-closed", format!("block {bid} cannot be sent"));
                    } else {
                        sh.log.borrow_mut().answers_sent.push(bid);
                    }
                    sim2.pause().await;
                }
            }
        }
        sim.event(|| format!("query {id} ends"));
        g.done = true;
        drop(g);
        if fails {
            sim.fault("query-fails");
            anyhow::bail!("no such block")
        }
        Ok(())
    }
}

type P = NetworkMessageProcessor<NetBlock, FrontierBlock, Frontier, Ops>;

fn subsequence_eq(what: &str, class: &str, expect: &[u64], got: &[u64]) -> Outcome {
    let set: std::collections::BTreeSet<u64> = expect.iter().copied().collect();
    let g: Vec<u64> = got.iter().copied().filter(|x| set.contains(x)).collect();
    if g != expect {
        let missing: Vec<_> = expect.iter().filter(|x| !g.contains(x)).collect();
        let class = if !missing.is_empty() { format!("{class}-lost") } else if g.len() > expect.len() { format!("{class}-twice") } else { format!("{class}-order") };
        return Err(Violation::new(class, format!("{what}: expected {expect:?}, saw {g:?}")));
    }
    Ok(())
}

pub fn c13(ctx: &mut Ctx) -> Outcome {
    let sim = Sim::new(ctx);
    let log: L = Rc::default();
    let sh: S = Rc::new(Shared {
        log: log.clone(),
        next: Cell::new(1),
        max_req: [0, 1, 1, 2, 5][sim.draw(5) as usize],
        p_refuse: [0, 0, 2, 6][sim.draw(4) as usize],
        p_fail: [0, 0, 2, 8][sim.draw(4) as usize],
        p_qfail: [0, 0, 2, 8][sim.draw(4) as usize],
        max_answers: sim.draw(3),
        closing: sim.chance(1, 5),
        quits: sim.chance(1, 6),
        quit: Cell::new(false),
    });
    let kept: Rc<RefCell<Option<mpsc::Sender<NetBlock>>>> = Rc::default();
    let fbusy: Rc<Cell<Option<u64>>> = Rc::default();
    let obusy: Rc<Cell<Option<u64>>> = Rc::default();
    let p: Rc<P> = Rc::new(NetworkMessageProcessor::new(
        Frontier { sim: sim.clone(), sh: sh.clone(), requester: None, busy: fbusy.clone(), version: 0 },
        Ops { sim: sim.clone(), sh: sh.clone(), responder: None, kept: kept.clone(), busy: obusy.clone(), setting: 0 },
    ));
    let mut ex = Exec::new(&sim, 60_000);
    // one sender's handle is obtained the way a polling application does: through the ops
    let (nsend, nread, nmut) = (sim.range(1, 4), sim.draw(3), sim.draw(2));
    for s in 0..nsend {
        let (sim2, sh2, p2) = (sim.clone(), sh.clone(), p.clone());
        let n = sim.range(1, 6);
        let polling = sim.chance(1, 3);
        let slow = sim.chance(1, 2);
        let own = kept.borrow().clone();
        sim.spawn(format!("sender {s}"), async move {
            for _ in 0..n {
                if slow {
                    sim2.pause().await;
                }
                // a polling application keeps the read guard of the ops while it sends
                let guard = p2.nonconsensus_ops().await;
                let tx = own.as_ref().or(guard.responder.as_ref()).unwrap().clone();
                let guard = if polling { Some(guard) } else { drop(guard); None };
                let id = sh2.next.get();
                sh2.next.set(id + 1);
                let b = NetBlock { id, gen: 0, sh: sh2.clone(), sim: sim2.clone() };
                sim2.event(|| format!("sender {s} sends block {id}"));
                if polling {
                    sim2.probe("send-under-read-guard");
                }
                if sim2.chance(1, 12) {
                    // the sender gives up after a while
                    let mut f = Box::pin(tx.send(b));
                    let mut left = sim2.range(1, 4);
                    let r = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
                        std::task::Poll::Ready(r) => std::task::Poll::Ready(Some(r.is_ok())),
                        _ if left == 0 => std::task::Poll::Ready(None),
                        _ => {
                            left -= 1;
                            cx.waker().wake_by_ref();
                            std::task::Poll::Pending
                        }
                    })
                    .await;
                    match r {
                        Some(true) => sh2.log.borrow_mut().sent.entry(s).or_default().push(id),
                        Some(false) => broken(&sh2.log, "block-channel-closed", format!("block {id} cannot be sent")),
                        None => {
                            sim2.fault("sender-gives-up");
                            sh2.log.borrow_mut().abandoned.push(id)
                        }
                    }
                } else if tx.send(b).await.is_ok() {
                    sh2.log.borrow_mut().sent.entry(s).or_default().push(id);
                } else {
                    broken(&sh2.log, "block-channel-closed", format!("block {id} cannot be sent"));
                }
                drop(guard);
            }
        });
    }
    // from here on only the senders can send
    if kept.borrow_mut().take().is_some() {
        sim.fault("senders-leave");
    }
    for r in 0..nread {
        let (sim2, log2, p2, busy, ob) = (sim.clone(), log.clone(), p.clone(), fbusy.clone(), obusy.clone());
        let n = sim.range(1, 5);
        sim.spawn(format!("reader {r}"), async move {
            let mut last = 0;
            for _ in 0..n {
                sim2.pause().await;
                let g = p2.transition_frontier().await;
                let v = g.version;
                let torn = busy.get();
                sim2.event(|| format!("reader {r} sees version {v}"));
                for _ in 0..sim2.draw(4) {
                    YieldNow(false).await;
                }
                if let Some(b) = torn.or(busy.get()) {
                    broken(&log2, "reader-sees-half-added-block", format!("the frontier is readable while block {b} is added"));
                }
                if g.version != v || v < last {
                    broken(&log2, "reader-sees-change", format!("version {v} became {} under a read guard, last was {last}", g.version));
                }
                last = v;
                sim2.probe("read");
                drop(g);
                if sim2.chance(1, 2) {
                    let g = p2.nonconsensus_ops().await;
                    let s = g.setting;
                    for _ in 0..sim2.draw(3) {
                        YieldNow(false).await;
                    }
                    if s != g.setting || ob.get().is_some() || s % 2 == 1 {
                        broken(&log2, "ops-change-under-read-guard", format!("setting {s} became {}, request {:?} is served", g.setting, ob.get()));
                    }
                }
            }
        });
    }
    for m in 0..nmut {
        let (sim2, log2, p2, ob) = (sim.clone(), log.clone(), p.clone(), obusy.clone());
        let n = sim.range(1, 3);
        sim.spawn(format!("settings {m}"), async move {
            for _ in 0..n {
                sim2.pause().await;
                let mut g = p2.nonconsensus_ops_mut().await;
                g.setting += 1;
                for _ in 0..sim2.draw(3) {
                    YieldNow(false).await;
                }
                if g.setting % 2 != 1 || ob.get().is_some() {
                    broken(&log2, "ops-change-under-write-guard", format!("setting {}, request {:?} is served", g.setting, ob.get()));
                }
                g.setting += 1;
                sim2.probe("settings-changed");
            }
        });
    }
    let run_name = "idle run";
    let start = |sim: &Sim| {
        let p2 = p.clone();
        sim.spawn(run_name, async move { p2.run().await });
    };
    start(&sim);
    // the loops may be stopped and started again (an application reloading)
    let cancels = [0, 0, 0, 1, 2][sim.draw(5) as usize];
    let mut cancelled = 0u64;
    let mut end = End::Done;
    for _ in 0..cancels {
        let mut left = sim.range(1, 120);
        end = ex.run(|| {
            left = left.saturating_sub(1);
            left == 0
        });
        if !matches!(end, End::Done) || !ex.alive(run_name) {
            break;
        }
        sim.event(|| "the loops are stopped".into());
        sim.fault("loops-stopped");
        sim.nontrivial();
        ex.kill(run_name);
        cancelled += 1;
        if sim.chance(1, 2) {
            let mut left = sim.range(1, 20);
            end = ex.run(|| {
                left = left.saturating_sub(1);
                left == 0
            });
            if !matches!(end, End::Done | End::Stuck(_)) {
                break;
            }
        }
        sim.event(|| "the loops are started again".into());
        start(&sim);
    }
    if !matches!(end, End::Panic(..) | End::TooLong) {
        end = ex.run(|| false);
    }
    let l = log.borrow();
    if let Some(v) = &l.broken {
        return Err(v.clone());
    }
    match end {
        End::Panic(t, m) => return Err(Violation::new("panic", format!("{t}: {m}"))),
        End::TooLong => return Err(Violation::new("no-progress", "60000 steps were not enough")),
        End::Stuck(t) => {
            return Err(Violation::new(
                "stuck",
                format!("{t:?} wait for ever; block being added: {:?}, request being served: {:?}, requests waiting: {}", fbusy.get(), obusy.get(), l.requested.len() - l.queried.len().min(l.requested.len())),
            ))
        }
        End::Done => {}
    }
    if !ex.alive(run_name) && !sh.closing && !sh.quit.get() {
        return Err(Violation::new("loops-ended", "run() returned although blocks and requests may still come"));
    }
    if let Some(b) = fbusy.get() {
        return Err(Violation::new("stuck", format!("add_block {b} never ends")));
    }
    if let Some(b) = obusy.get() {
        return Err(Violation::new("stuck", format!("query {b} never ends")));
    }
    // what a stop of the loops may cost: the one block and the one request each stop interrupted
    let mut lost = 0;
    let conv: std::collections::BTreeSet<u64> = l.converted.iter().copied().collect();
    let all: Vec<u64> = l.sent.values().flatten().chain(&l.answers_sent).copied().collect();
    for id in &all {
        if !conv.contains(id) {
            lost += 1;
        }
    }
    let strict = cancelled == 0;
    for (s, ids) in &l.sent {
        let ids: Vec<u64> = if strict { ids.clone() } else { ids.iter().copied().filter(|i| conv.contains(i)).collect() };
        subsequence_eq(&format!("blocks of sender {s}"), "block", &ids, &l.converted)?;
    }
    if conv.len() != l.converted.len() {
        return Err(Violation::new("block-twice", format!("{:?}", l.converted)));
    }
    for id in &l.abandoned {
        if conv.contains(id) {
            return Err(Violation::new("abandoned-block-delivered", format!("block {id} was taken back by its sender")));
        }
    }
    if lost > cancelled {
        return Err(Violation::new("block-lost", format!("{lost} blocks were sent and never offered to the frontier, the loops were stopped {cancelled} times")));
    }
    let expect: Vec<u64> = l.converted.iter().copied().filter(|i| !l.refused.contains(i) && !l.interrupted.contains(i)).collect();
    if strict || l.interrupted.len() as u64 <= cancelled {
        if l.added != expect {
            let missing: Vec<u64> = expect.iter().copied().filter(|i| !l.added.contains(i)).collect();
            if strict || missing.len() as u64 > cancelled {
                return Err(Violation::new("add-block-mismatch", format!("converted blocks {expect:?}, the frontier was given {:?}", l.added)));
            }
        }
    } else {
        return Err(Violation::new("add-block-interrupted", format!("{:?}", l.interrupted)));
    }
    let q: std::collections::BTreeSet<u64> = l.queried.iter().copied().collect();
    if q.len() != l.queried.len() {
        return Err(Violation::new("request-twice", format!("{:?}", l.queried)));
    }
    let missing: Vec<u64> = l.requested.iter().copied().filter(|i| !q.contains(i)).collect();
    if missing.len() as u64 > cancelled {
        return Err(Violation::new("request-lost", format!("requests {missing:?} never reached the network, the loops were stopped {cancelled} times")));
    }
    let got: Vec<u64> = l.requested.iter().copied().filter(|i| q.contains(i)).collect();
    let qs: Vec<u64> = l.queried.iter().copied().filter(|i| got.contains(i)).collect();
    if got != qs {
        return Err(Violation::new("request-order", format!("requested {got:?}, queried {qs:?}")));
    }
    if cancelled > 0 {
        sim.probe("went-on-after-stop");
    }
    Ok(())
}
