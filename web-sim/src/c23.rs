//! C23: connecting to a proxy node dials the one that is asked for, as a node of the network, and the page gets the
//! statuses that the proxy sends: each once, in order, as sent, until the connection ends, and then it is told so.
use crate::exec::*;
use crate::scope::Scoped;
use js_sys::Uint8Array;
use libp2p::core::transport::Setup;
use libp2p::futures::{AsyncRead, AsyncWrite};
use libp2p::sim::{Io, Net};
use libp2p::swarm::{ConnectionError, DialError, SwarmEvent};
use libp2p::PeerId;
use mina_rs_wasm_mvp::js_exports as mvp;
use serde_json::{json, Value};
use simcore::{Ctx, Outcome, Violation};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use wasm_bindgen::JsValue;

const NETWORK: &[u8] = b"/coda/0.0.1/5f704cc0c82e0ed70e873f0893d7e06f148524e3f0bdae2afb02e7819a0c24d1";
const SECOND: u64 = 1_000_000;
/// how long the statuses are listened to, at least
const LISTENING: u64 = 60 * SECOND;

#[derive(Clone, PartialEq, Default)]
struct Status {
    connected: bool,
    peer_id: String,
    sync_status: String,
    protocol_state_hash: String,
    git_commit: String,
    uptime_minutes: i64,
}
impl std::fmt::Debug for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let cut = |s: &str| s.chars().take(24).collect::<String>() + if s.chars().count() > 24 { ".." } else { "" };
        let texts = [&self.peer_id, &self.sync_status, &self.protocol_state_hash, &self.git_commit].map(|s| cut(s));
        write!(f, "{}connected {texts:?} {}", if self.connected { "" } else { "not " }, self.uptime_minutes)
    }
}
/// a message of proto3: its fields' last values
fn read_message(mut b: &[u8]) -> Option<Vec<(u64, Result<u64, Vec<u8>>)>> {
    fn varint(b: &mut &[u8]) -> Option<u64> {
        let mut v = 0;
        for k in 0..10 {
            let x = *b.first()?;
            *b = &b[1..];
            v |= ((x & 0x7f) as u64) << (7 * k);
            if x < 0x80 {
                return Some(v);
            }
        }
        None
    }
    let mut r = vec![];
    while !b.is_empty() {
        let k = varint(&mut b)?;
        let v = match k & 7 {
            0 => Ok(varint(&mut b)?),
            2 => {
                let n = varint(&mut b)? as usize;
                if n > b.len() {
                    return None;
                }
                let x = b[..n].to_vec();
                b = &b[n..];
                Err(x)
            }
            _ => return None,
        };
        r.push((k >> 3, v));
    }
    Some(r)
}
fn read_status(b: &[u8]) -> Option<Status> {
    let mut s = Status::default();
    for (k, v) in read_message(b)? {
        let text = || v.clone().err().and_then(|v| String::from_utf8(v).ok());
        match k {
            1 => s.connected = v.ok()? != 0,
            2 => s.peer_id = text()?,
            3 => s.sync_status = text()?,
            4 => s.protocol_state_hash = text()?,
            5 => s.git_commit = text()?,
            6 => s.uptime_minutes = v.ok()? as i64,
            _ => {}
        }
    }
    Some(s)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ended {
    Eof,
    Broken,
}
/// one stream of statuses, from the proxy's side
struct Pipe {
    ready: VecDeque<u8>,
    ended: Option<Ended>,
    waker: Option<Waker>,
    consumed: usize,
    written: usize,
    /// the end of each line in the stream and what it says (None: nothing to be told)
    lines: Vec<(usize, Option<Status>)>,
    /// from where on the reader may give up
    garbage: Option<usize>,
    /// a complete status without an end of line, before the end of the stream
    unfinished: Option<Status>,
    opened: u64,
    /// the request is complete
    asked: bool,
    dropped: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Dialing,
    Failed,
    Open,
    Closed,
}
struct Link {
    op: usize,
    swarm: u64,
    state: State,
    /// the end of the connection was told
    told: bool,
    /// the page's side is gone
    gone: bool,
    events: VecDeque<SwarmEvent>,
    waker: Option<Waker>,
    pipe: Option<Rc<RefCell<Pipe>>>,
    refuses: bool,
    emitted: Vec<Status>,
}
struct Op {
    /// what has to be dialed, if the request makes sense
    address: Option<String>,
    /// an address that need not be understood
    unclear: bool,
    dials: usize,
    dial_failed: bool,
    links: Vec<usize>,
}
#[derive(Default)]
struct Log {
    ops: Vec<Op>,
    links: Vec<Link>,
    broken: Option<Violation>,
    emitter: u64,
}
struct World {
    sim: Sim,
    me: RefCell<std::rc::Weak<World>>,
    log: RefCell<Log>,
    current: Rc<Cell<Option<usize>>>,
    p_fail: u64,
}
impl World {
    fn broken(&self, class: &str, detail: String) {
        let mut l = self.log.borrow_mut();
        if l.broken.is_none() {
            l.broken = Some(Violation::new(class, detail));
        }
    }
    fn fails(&self) -> bool {
        self.sim.chance(self.p_fail, 16)
    }
    fn me(&self) -> Rc<World> {
        self.me.borrow().upgrade().unwrap()
    }
    fn tell(&self, link: usize, e: SwarmEvent) {
        self.sim.event(|| format!("link {link}: {e:?}"));
        let mut l = self.log.borrow_mut();
        l.links[link].events.push_back(e);
        let waker = l.links[link].waker.take();
        drop(l);
        if let Some(w) = waker {
            w.wake()
        }
    }
}

struct Wire {
    w: Rc<World>,
    link: usize,
    pipe: Rc<RefCell<Pipe>>,
    /// turns that closing takes
    busy: u64,
    refuses: bool,
}
impl AsyncRead for Wire {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let mut p = self.pipe.borrow_mut();
        if b.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.ready.is_empty() {
            return match p.ended {
                Some(Ended::Eof) => Poll::Ready(Ok(0)),
                Some(Ended::Broken) => Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into())),
                None => {
                    p.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            };
        }
        let n = b.len().min(p.ready.len());
        let n = if self.w.sim.chance(1, 4) { 1 + self.w.sim.draw(n as u64) as usize } else { n };
        for x in &mut b[..n] {
            *x = p.ready.pop_front().unwrap();
        }
        p.consumed += n;
        self.w.sim.event(|| format!("link {}: {n} bytes are read", self.link));
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Wire {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if self.busy > 0 {
            self.busy -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.refuses {
            self.w.sim.fault("request-not-sent");
            self.pipe.borrow_mut().ended = Some(Ended::Broken);
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        self.pipe.borrow_mut().asked = true;
        Poll::Ready(Ok(()))
    }
}
impl Drop for Wire {
    fn drop(&mut self) {
        let mut p = self.pipe.borrow_mut();
        p.dropped = true;
        let w = &self.w;
        w.sim.event(|| format!("link {}: the stream is left", self.link));
        let late = w.sim.now() >= p.opened + LISTENING;
        let excused = p.garbage.is_some_and(|k| p.consumed >= k);
        let l = w.log.borrow();
        let gone = l.links[self.link].gone;
        drop(l);
        if p.ended == Some(Ended::Eof) && !p.ready.is_empty() && !late && !excused && !gone {
            return w.broken("statuses-lost", format!("link {}: {} bytes before the end of the stream were not read", self.link, p.ready.len()));
        }
        if p.ended.is_none() && !late && !excused && !gone {
            w.broken("statuses-lost", format!("link {}: the stream was left while it was open", self.link));
        }
    }
}

fn draw_text(sim: &Sim) -> String {
    const PARTS: [&str; 18] = [
        "Synced", "3NK7BXnjrChLJ4dyb1vmbGpS9RoJP9iFJMVg6hZj6HUKiY7ZQu8t", "", " ", "\n", "\"", "\\", "\u{1}", "é", "猫🦀", "\u{2028}", "a", "null", "\r\n", "[DIRTY]8b0f3", "\0", "\u{7f}", "bf1bbbf0ff0b7d2e8b0f3",
    ];
    match sim.draw(24) {
        0 => "x".repeat(sim.range(100, 9000) as usize),
        1..=6 => (0..sim.range(1, 5)).map(|_| PARTS[sim.draw(18) as usize]).collect(),
        _ => PARTS[sim.draw(4) as usize].into(),
    }
}
fn draw_status(sim: &Sim, link: usize, n: usize) -> (Status, Vec<(&'static str, Value)>) {
    let s = Status {
        connected: sim.chance(2, 3),
        peer_id: format!("12D3Koo{link}-{}{}", n, if sim.chance(1, 6) { draw_text(sim) } else { "".into() }),
        sync_status: draw_text(sim),
        protocol_state_hash: draw_text(sim),
        git_commit: draw_text(sim),
        uptime_minutes: [0, 1, -1, 127, 128, i64::MAX, i64::MIN, sim.draw(1 << 40) as i64][sim.draw(8) as usize],
    };
    let mut v = vec![
        ("connected", json!(s.connected)),
        ("peer_id", json!(s.peer_id)),
        ("sync_status", json!(s.sync_status)),
        ("protocol_state_hash", json!(s.protocol_state_hash)),
        ("git_commit", json!(s.git_commit)),
        ("uptime_minutes", json!(s.uptime_minutes)),
    ];
    while sim.chance(1, 6) {
        v.push([("peer_count", json!(3)), ("k_block_hashes_and_timestamps", json!([["3N", "1"]])), ("ban_statuses", json!({"a": null}))][sim.draw(3) as usize].clone());
        if v[..v.len() - 1].iter().any(|x| x.0 == v[v.len() - 1].0) {
            v.pop();
        }
    }
    let k = sim.draw(v.len() as u64) as usize;
    v.rotate_left(k);
    if sim.chance(1, 2) {
        v.swap(0, 3);
    }
    (s, v)
}
fn write_json(v: &[(&str, Value)], pretty: bool) -> String {
    let (a, b) = if pretty { ("\n  ", " ") } else { ("", "") };
    let l: Vec<String> = v.iter().map(|(k, x)| format!("{a}\"{k}\":{b}{x}")).collect();
    format!("{{{}{}}}", l.join(","), if pretty { "\n" } else { "" })
}
/// a line of the stream, what it tells, and whether reading may end with it
fn draw_line(w: &World, link: usize, n: usize) -> (Vec<u8>, Option<Status>, bool) {
    let sim = &w.sim;
    let (s, mut v) = draw_status(sim, link, n);
    let pretty = sim.chance(1, 4);
    if !w.fails() {
        let mut t = base64::encode(write_json(&v, pretty));
        if sim.chance(1, 8) {
            t = format!("{}{t}{}", [" ", "", "\t"][sim.draw(3) as usize], [" ", "", "  \t"][sim.draw(3) as usize]);
        }
        return (t.into_bytes(), Some(s), false);
    }
    let k = sim.draw(8);
    sim.fault(["line-not-base64", "line-not-json", "status-incomplete", "status-of-wrong-types", "line-empty", "line-not-utf8", "line-cut", "line-not-base64"][k as usize]);
    let x = sim.draw(6) as usize;
    let at = v.iter().position(|f| f.0 == ["connected", "peer_id", "sync_status", "protocol_state_hash", "git_commit", "uptime_minutes"][x]).unwrap();
    let t = match k {
        0 => write_json(&v, false),
        1 => base64::encode(["", "null", "{}", "[]", "status", "{\"connected\":", "\u{0}\u{1}", "1"][sim.draw(8) as usize]),
        2 => {
            v.remove(at);
            base64::encode(write_json(&v, pretty))
        }
        3 => {
            let numbers = [json!(null), json!("5"), json!(1.5), json!(9223372036854775808u64), json!([]), json!(true)];
            let texts = [json!(null), json!(5), json!(true), json!(["a"]), json!({}), json!(1.5)];
            v[at].1 = match x {
                0 => [json!(null), json!(1), json!("true"), json!([]), json!({}), json!(0)][sim.draw(6) as usize].clone(),
                5 => numbers[sim.draw(6) as usize].clone(),
                _ => texts[sim.draw(6) as usize].clone(),
            };
            base64::encode(write_json(&v, pretty))
        }
        4 => [" ", "\t", ""][sim.draw(3) as usize].into(),
        5 => return ([&b"\xff\xfe"[..], b"e30=\x80", b"\xc3"][sim.draw(3) as usize].to_vec(), None, true),
        6 => {
            // not a whole line, and another one behind it
            let t = base64::encode(write_json(&v, pretty));
            let k = 1 + sim.draw(t.len() as u64 - 5) as usize;
            t[..k].into()
        }
        _ => ["hello world", "=", "====", "A", "e30", "*e30=", "e3 0=", "é"][sim.draw(8) as usize].into(),
    };
    (t.into_bytes(), None, false)
}

/// the proxy on one connection, from the dial to the end
async fn proxy(w: Rc<World>, k: usize, how: Setup) {
    let sim = w.sim.clone();
    let set = |s: State| w.log.borrow_mut().links[k].state = s;
    let peer = PeerId(format!("proxy{k}"));
    let fail = |m: &str| SwarmEvent::OutgoingConnectionError { peer_id: None, error: DialError(m.into()) };
    if sim.chance(1, 4) {
        w.tell(k, SwarmEvent::Dialing(peer.clone()));
    }
    sim.pause().await;
    if blake2::blake2b(NETWORK, 32) != how.psk {
        set(State::Failed);
        w.broken("other-network", "the connection does not use the key of the network".into());
        return w.tell(k, fail("handshake failed"));
    }
    if how.mplex != b"/coda/mplex/1.0.0" {
        set(State::Failed);
        w.broken("other-network", format!("{:?} is proposed for multiplexing", String::from_utf8_lossy(&how.mplex)));
        return w.tell(k, fail("no protocol could be agreed upon"));
    }
    if w.fails() {
        let hangs = sim.chance(1, 2);
        sim.fault(if hangs { "connecting-hangs" } else { "connection-refused" });
        if hangs {
            match how.timeout {
                Some(d) => sim.sleep(d.as_micros().min(1 << 50) as u64).await,
                None => std::future::pending().await,
            }
        }
        set(State::Failed);
        return w.tell(k, fail(["connection refused", "timeout", ""][sim.draw(3) as usize]));
    }
    w.log.borrow_mut().links[k].refuses = w.p_fail > 0 && sim.chance(1, 16);
    set(State::Open);
    w.tell(k, SwarmEvent::ConnectionEstablished { peer_id: peer.clone(), num_established: 1 });
    // how long the connection lasts once nothing is said any more
    let mut lines = sim.draw(8) as usize;
    let early = w.fails();
    let mut dies = if early { sim.draw(12) } else { u64::MAX };
    let mut waits = sim.draw(6);
    let mut n = 0;
    let pipe = loop {
        let p = w.log.borrow().links[k].pipe.clone();
        if p.is_some() || waits == 0 || dies == 0 {
            break p;
        }
        waits -= 1;
        dies -= 1;
        let d = sim.range(1, 400);
        sim.sleep(d).await;
    };
    let wake = |p: &Rc<RefCell<Pipe>>| {
        let waker = p.borrow_mut().waker.take();
        if let Some(x) = waker {
            x.wake()
        }
    };
    if let Some(p) = pipe.clone() {
        let end = sim.draw(3);
        if sim.chance(1, 3) {
            // speaks when it has read the request to its end
            sim.probe("proxy-reads-request");
            for _ in 0..1000 {
                let q = p.borrow();
                if q.asked || q.dropped || q.ended.is_some() {
                    break;
                }
                drop(q);
                sim.sleep(1000).await;
            }
            let q = p.borrow();
            if !q.asked && !q.dropped && q.ended.is_none() {
                w.broken("request-without-an-end", format!("link {k}"));
            }
        }
        'say: while lines > 0 {
            lines -= 1;
            let (mut t, s, garbage) = draw_line(&w, k, n);
            n += 1;
            let again = s.is_some() && sim.chance(1, 10);
            // the last line may have no end
            let whole = lines > 0 || sim.chance(3, 4);
            if whole {
                t.extend_from_slice([&b"\n"[..], b"\r\n"][sim.chance(1, 5) as usize]);
            } else {
                p.borrow_mut().unfinished = s.clone();
            }
            for _ in 0..1 + again as u64 {
                let mut rest = &t[..];
                let start = p.borrow().written;
                {
                    let mut p = p.borrow_mut();
                    if whole {
                        p.lines.push((start + t.len(), s.clone()));
                    }
                    if garbage && p.garbage.is_none() {
                        p.garbage = Some(start + 1);
                    }
                }
                while !rest.is_empty() {
                    if dies == 0 || w.log.borrow().links[k].gone {
                        break 'say;
                    }
                    dies -= 1;
                    let c = if sim.chance(1, 2) { rest.len() } else { sim.range(1, rest.len() as u64) as usize };
                    {
                        let mut p = p.borrow_mut();
                        p.ready.extend(&rest[..c]);
                        p.written += c;
                    }
                    rest = &rest[c..];
                    sim.event(|| format!("link {k}: the proxy sends {c} bytes"));
                    wake(&p);
                    if sim.chance(1, 2) {
                        sim.pause().await;
                    }
                    if sim.chance(1, 40) {
                        sim.fault("proxy-slow");
                        sim.sleep(SECOND * 20).await;
                    }
                }
                if !whole {
                    break;
                }
            }
        }
        if dies > 0 {
            match end {
                0 => {
                    sim.event(|| format!("link {k}: the stream ends"));
                    p.borrow_mut().ended = Some(Ended::Eof);
                    sim.probe("stream-ends");
                }
                1 if w.fails() => {
                    sim.fault("stream-broken");
                    sim.event(|| format!("link {k}: the stream breaks"));
                    let mut p = p.borrow_mut();
                    p.ended = Some(Ended::Broken);
                    p.unfinished = None;
                    if sim.chance(1, 2) {
                        p.ready.clear();
                    }
                }
                2 if sim.chance(1, 6) => {
                    sim.fault("proxy-silent");
                    sim.sleep(70 * SECOND).await;
                }
                _ => {}
            }
            wake(&p);
            sim.pause().await;
            let d = sim.draw(2000);
            sim.sleep(d).await;
        }
    }
    if early {
        sim.fault("connection-lost");
    }
    set(State::Closed);
    w.log.borrow_mut().links[k].told = true;
    if let Some(p) = &pipe {
        let mut q = p.borrow_mut();
        if q.ended.is_none() {
            q.ended = Some(Ended::Broken);
            q.unfinished = None;
            q.ready.clear();
        }
        drop(q);
        wake(p);
    }
    let cause = [None, Some(ConnectionError("broken pipe".into()))][sim.draw(2) as usize].clone();
    w.tell(k, SwarmEvent::ConnectionClosed { peer_id: peer, num_established: 0, cause });
}

impl Net for World {
    fn dial(&self, a: &str, how: &Setup, me: &PeerId, swarm: u64) -> Result<(), String> {
        let sim = &self.sim;
        sim.event(|| format!("{a} is dialed by {me}"));
        let Some(op) = self.current.get() else {
            self.broken("dial-of-nobody", a.into());
            return Err("".into());
        };
        if *me != PeerId::from(how.key.clone()) {
            self.broken("other-identity", format!("{me} connects with the key of {:?}", how.key));
        }
        let mut l = self.log.borrow_mut();
        l.ops[op].dials += 1;
        let wrong = l.ops[op].address.as_deref() != Some(a);
        if wrong {
            let d = format!("{:?} is asked for, {a} is dialed", l.ops[op].address);
            drop(l);
            self.broken("wrong-address-dialed", d);
            return Err("".into());
        }
        drop(l);
        if self.fails() && sim.chance(1, 3) {
            sim.fault("dial-impossible");
            self.log.borrow_mut().ops[op].dial_failed = true;
            return Err(["unsupported address", "no addresses", ""][sim.draw(3) as usize].into());
        }
        let mut l = self.log.borrow_mut();
        let k = l.links.len();
        l.links.push(Link { op, swarm, state: State::Dialing, told: false, gone: false, events: VecDeque::new(), waker: None, pipe: None, refuses: false, emitted: vec![] });
        l.ops[op].links.push(k);
        drop(l);
        sim.spawn(format!("proxy {k}"), proxy(self.me(), k, how.clone()));
        Ok(())
    }
    fn poll_event(&self, swarm: u64, cx: &mut Context<'_>) -> Poll<SwarmEvent> {
        let mut l = self.log.borrow_mut();
        for k in l.links.iter_mut().filter(|k| k.swarm == swarm) {
            if let Some(e) = k.events.pop_front() {
                return Poll::Ready(e);
            }
            k.waker = Some(cx.waker().clone());
        }
        Poll::Pending
    }
    fn gone(&self, swarm: u64) {
        let mut bad = None;
        let mut l = self.log.borrow_mut();
        for (k, x) in l.links.iter_mut().enumerate().filter(|k| k.1.swarm == swarm) {
            x.gone = true;
            if matches!(x.state, State::Dialing | State::Open) {
                bad = Some(k);
            }
        }
        drop(l);
        if let Some(k) = bad {
            self.broken("connection-left", format!("link {k} is left while it is there"));
        }
    }
    fn open(&self, peer: &PeerId, protocol: &[u8]) -> Pin<Box<dyn Future<Output = Option<Box<dyn Io>>>>> {
        let w = self.me();
        let k: usize = peer.0.strip_prefix("proxy").and_then(|k| k.parse().ok()).unwrap_or(usize::MAX);
        let protocol = protocol.to_vec();
        Box::pin(async move {
            let sim = w.sim.clone();
            sim.pause().await;
            let mut l = w.log.borrow_mut();
            let Some(x) = l.links.get_mut(k) else {
                drop(l);
                w.broken("unknown-peer-asked", format!("{k}"));
                return None;
            };
            if x.state != State::Open {
                return None;
            }
            sim.event(|| format!("link {k}: {:?} is asked for", String::from_utf8_lossy(&protocol)));
            if protocol != b"/mina-proxy/node-status" {
                drop(l);
                w.broken("statuses-not-asked", format!("{:?} is asked for", String::from_utf8_lossy(&protocol)));
                return None;
            }
            if x.pipe.is_some() {
                drop(l);
                w.broken("asked-again", format!("link {k}"));
                return None;
            }
            let refuses = x.refuses;
            if refuses && sim.chance(1, 2) {
                sim.fault("protocol-refused");
                return None;
            }
            let pipe = Rc::new(RefCell::new(Pipe {
                ready: VecDeque::new(),
                ended: None,
                waker: None,
                consumed: 0,
                written: 0,
                lines: vec![],
                garbage: None,
                unfinished: None,
                opened: sim.now(),
                asked: false,
                dropped: false,
            }));
            x.pipe = Some(pipe.clone());
            drop(l);
            let busy = sim.draw(3);
            Some(Box::new(Wire { w: w.clone(), link: k, pipe, busy, refuses }) as Box<dyn Io>)
        })
    }
    fn timer(&self, d: Duration) -> Pin<Box<dyn Future<Output = ()>>> {
        Box::pin(self.sim.sleep(d.as_micros().min(1 << 50) as u64))
    }
}

/// something is given to the page
fn emitted(w: &World, args: &[JsValue]) {
    let [JsValue::Map(e), JsValue::String(name), JsValue::Bytes(b)] = args else {
        return w.broken("wrong-update", format!("{args:?} is given to the page"));
    };
    let id = e[0].1.as_f64().unwrap() as u64;
    let Some(s) = read_status(b).filter(|_| name == "update") else {
        return w.broken("wrong-update", format!("{name} {b:?} is given to the page"));
    };
    w.sim.event(|| format!("the page gets {s:?}"));
    let mut l = w.log.borrow_mut();
    let emitter = l.emitter;
    let k = s.peer_id.strip_prefix("12D3Koo").and_then(|t| t.split_once('-')).and_then(|t| t.0.parse::<usize>().ok()).filter(|k| *k < l.links.len());
    let Some(k) = k else {
        drop(l);
        return w.broken("unknown-status", format!("{s:?} was never sent"));
    };
    let x = &mut l.links[k];
    let n = x.emitted.len();
    let p = x.pipe.clone().unwrap();
    let p = p.borrow();
    let mut due: Vec<&Status> = p.lines.iter().filter(|y| y.0 <= p.consumed).filter_map(|y| y.1.as_ref()).collect();
    if p.ended == Some(Ended::Eof) && p.ready.is_empty() {
        due.extend(&p.unfinished);
    }
    let right = due.get(n).is_some_and(|d| **d == s);
    let d = format!("link {k}: {s:?} is told, after {n} others, {:?} would be next", due.get(n));
    let gone = x.gone;
    x.emitted.push(s);
    drop(l);
    if !right {
        w.broken("wrong-status", d);
    } else if id != emitter {
        w.broken("wrong-emitter", format!("{d}, to emitter {id} instead of {emitter}"));
    } else if gone {
        w.broken("status-after-the-end", d);
    }
    w.sim.probe("status-told");
}

fn set_emitter(w: &World) {
    let n = {
        let mut l = w.log.borrow_mut();
        l.emitter += 1;
        l.emitter
    };
    w.sim.event(|| format!("emitter {n} is set"));
    mvp::set_event_emitter(JsValue::Map(vec![("emitter".into(), JsValue::Number(n as f64))]).into());
}

/// the bytes of the request, the address that it asks for, and whether it has to be understood
fn draw_request(w: &World) -> (Vec<u8>, Option<String>, bool) {
    let sim = &w.sim;
    let port = [1, 80, 443, 4040, 65535][sim.draw(5) as usize];
    let id = "12D3KooWKK3RpV1MWAZk3FJ5xqbVPL2BMDdUEGSfwfQoUprBNZCv";
    let good = match sim.draw(5) {
        0 => format!("/ip4/127.0.0.{}/tcp/{port}/ws", sim.draw(3)),
        1 => format!("/ip6/::1/tcp/{port}/ws"),
        2 => format!("/dns4/proxy{}.example/tcp/{port}/wss/p2p/{id}", sim.draw(2)),
        3 => format!("/dns/proxy.example/tcp/{port}/wss"),
        _ => format!("/ip4/10.0.0.1/tcp/{port}/ws/p2p/{id}"),
    };
    let text = |s: &str| {
        let mut b = vec![0x0a, 0];
        b[1] = s.len() as u8;
        assert!(s.len() < 128);
        b.extend(s.as_bytes());
        b
    };
    match sim.draw(if w.p_fail > 0 { 10 } else { 6 }) {
        8 => {
            sim.fault("address-invalid");
            let a = ["", "localhost:4040", "ws://localhost:4040", "/ip4/300.0.0.1/tcp/1/ws", "/ip4/127.0.0.1/tcp/65536", "/ip4/127.0.0.1/tcp", "/foo/bar", "/ip4", " /ip4/1.2.3.4/tcp/1"][sim.draw(9) as usize];
            (if a.is_empty() { vec![] } else { text(a) }, None, false)
        }
        9 => {
            sim.fault("request-unreadable");
            let mut b = text(&good);
            match sim.draw(4) {
                0 => b.truncate(1 + sim.draw(b.len() as u64 - 1) as usize),
                1 => b[5] = 0xff,
                2 => b.extend([0x0a, 0x80]),
                _ => b = vec![0xff; 3],
            }
            (b, None, false)
        }
        0 => {
            // fields of a later version
            let mut b = text(&good);
            b.extend([0x10, 5, 0x1a, 2, b'h', b'i']);
            (b, Some(good), false)
        }
        1 => {
            // the last one counts
            let mut b = text("/ip4/9.9.9.9/tcp/9/ws");
            b.extend(text(&good));
            (b, Some(good), false)
        }
        _ => (text(&good), Some(good), false),
    }
}

async fn connect(w: &Rc<World>) {
    let sim = &w.sim;
    let (bytes, address, unclear) = draw_request(w);
    let op = {
        let mut l = w.log.borrow_mut();
        l.ops.push(Op { address: address.clone(), unclear, dials: 0, dial_failed: false, links: vec![] });
        l.ops.len() - 1
    };
    sim.event(|| format!("call {op}: connect to {address:?}, {} bytes", bytes.len()));
    let r = Scoped { op, current: w.current.clone(), f: Box::pin(mvp::connect(Uint8Array::from(&bytes[..]))) }.await;
    let said = match &r {
        Ok(a) => {
            let m = read_message(&a.to_vec());
            match m {
                None => return w.broken("wrong-answer", format!("call {op}: {:?}", a.to_vec())),
                Some(m) => {
                    let success = m.iter().rev().find(|x| x.0 == 1).is_some_and(|x| x.1 != Ok(0));
                    let error = m.iter().rev().find(|x| x.0 == 2).and_then(|x| x.1.clone().err()).map(|x| String::from_utf8_lossy(&x).into_owned()).unwrap_or_default();
                    if success {
                        Ok(error)
                    } else {
                        Err(error)
                    }
                }
            }
        }
        Err(e) => Err(e.0.clone()),
    };
    sim.event(|| format!("call {op} ends: {said:?}"));
    let l = w.log.borrow();
    let o = &l.ops[op];
    let states: Vec<State> = o.links.iter().map(|k| l.links[*k].state).collect();
    let d = format!("call {op} for {:?} ends with {said:?}, dialed {} times, the connections are {states:?}", o.address, o.dials);
    let bad = match &said {
        _ if states.iter().any(|s| matches!(s, State::Dialing | State::Open)) => Some("connection-left"),
        Ok(e) if !e.is_empty() => Some("wrong-answer"),
        Ok(_) => (!states.contains(&State::Closed)).then_some("success-without-connection"),
        Err(_) if o.address.is_none() => None,
        Err(_) if o.dials == 0 => (!o.unclear).then_some("valid-call-rejected"),
        Err(_) => (states.contains(&State::Closed) && !o.dial_failed && !states.contains(&State::Failed)).then_some("end-reported-as-failure"),
    };
    let empty = matches!(&said, Err(e) if e.is_empty());
    drop(l);
    sim.probe(match (&said, &address) {
        (Ok(_), _) => "connection-ended",
        (Err(_), Some(_)) => "failure-reported",
        _ => "nonsense-refused",
    });
    if let Some(class) = bad {
        w.broken(class, d);
    } else if empty && r.is_ok() {
        w.broken("failure-without-a-reason", d);
    }
}

pub fn c23(ctx: &mut Ctx) -> Outcome {
    let sim = Sim::new(ctx);
    lazy_static::reset();
    let w = Rc::new(World {
        sim: sim.clone(),
        me: RefCell::default(),
        log: RefCell::default(),
        current: Rc::default(),
        p_fail: [0, 1, 2, 5, 9][sim.draw(5) as usize],
    });
    *w.me.borrow_mut() = Rc::downgrade(&w);
    libp2p::sim::set(w.clone());
    let w2 = Rc::downgrade(&w);
    wasm_bindgen::sim::set_now(move |name, args| {
        if let (Some(w), "emit") = (w2.upgrade(), name) {
            emitted(&w, &args);
        }
        JsValue::Undefined
    });
    set_emitter(&w);
    let mut ex = Exec::new(&sim, 60_000);
    for k in 0..sim.range(1, 3) {
        let (w, n) = (w.clone(), sim.range(1, 3));
        sim.spawn(format!("page {k}"), async move {
            for _ in 0..n {
                w.sim.pause().await;
                if w.sim.chance(1, 6) {
                    set_emitter(&w);
                    w.sim.probe("emitter-replaced");
                }
                connect(&w).await
            }
        });
    }
    if sim.chance(1, 4) {
        let w = w.clone();
        sim.spawn("other script", async move {
            for _ in 0..3 {
                let d = w.sim.range(1, 600);
                w.sim.sleep(d).await;
                set_emitter(&w);
                w.sim.probe("emitter-replaced");
            }
        });
    }
    let end = ex.run(|| w.log.borrow().broken.is_some());
    let r = finish(&w, end);
    drop(ex);
    r
}
fn finish(w: &World, end: End) -> Outcome {
    if let Some(v) = &w.log.borrow().broken {
        return Err(v.clone());
    }
    match end {
        End::Done => {}
        End::Panic(t, m) => return Err(Violation::new("panic", format!("{t} panicked: {m}"))),
        End::Stuck(t) => return Err(Violation::new("stuck", format!("{t:?} wait for ever"))),
        End::TooLong => return Err(Violation::new("no-progress", "60000 steps were not enough")),
    }
    let l = w.log.borrow();
    let mut overlap = 0;
    for (k, x) in l.links.iter().enumerate() {
        let Some(p) = &x.pipe else {
            continue;
        };
        let p = p.borrow();
        overlap += 1;
        // what was read before reading may have ended
        let until = p.garbage.unwrap_or(usize::MAX);
        let must = p.lines.iter().filter(|y| y.0 <= p.consumed && y.0 < until).filter_map(|y| y.1.as_ref()).count();
        if x.emitted.len() < must {
            return Err(Violation::new("statuses-lost", format!("link {k}: {must} statuses were read, the page got {}", x.emitted.len())));
        }
        if !p.dropped && !p.ready.is_empty() {
            return Err(Violation::new("statuses-lost", format!("link {k}: {} bytes are never read", p.ready.len())));
        }
    }
    if overlap > 1 {
        w.sim.probe("several-connections");
    }
    Ok(())
}
