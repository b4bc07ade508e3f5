//! C06: messages on connections between concurrently running senders, relays and receivers.
use crate::cases::*;
use crate::io::KINDS;
use crate::model::*;
use crate::props::{bad, io_kind};
use bin_prot::error::Error;
use bin_prot::{Deserializer, Value};
use serde::de::DeserializeSeed;
use serde::Deserialize;
use simcore::baton::{Abort, Sched, Task};
use simcore::{Ctx, Outcome, Tape, Violation};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

/// one direction of a connection: a bounded byte queue between two tasks
struct Pipe {
    q: VecDeque<u8>,
    cap: usize,
    /// the writer is gone: end of stream once drained
    closed: bool,
    /// the reader is gone
    abandoned: bool,
    /// the connection was reset: what was in flight is lost
    reset: Option<usize>,
    reader_waits: Option<usize>,
    writer_waits: Option<usize>,
    written: u64,
}
type P = Arc<Mutex<Pipe>>;
fn pipe(cap: usize) -> P {
    Arc::new(Mutex::new(Pipe { q: VecDeque::new(), cap, closed: false, abandoned: false, reset: None, reader_waits: None, writer_waits: None, written: 0 }))
}

/// what happens at the writing end of a pipe
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    Never,
    /// the process writing dies when it has written this many bytes
    Crash(u64),
    /// the connection is reset then
    Reset(u64, usize),
}

struct PW {
    t: Task,
    p: P,
    cut: Cut,
    eintr: bool,
    eintr_run: u32,
    dead: bool,
}
impl PW {
    fn wake(&self, who: Option<usize>) {
        if let Some(w) = who {
            self.t.wake(w);
        }
    }
    fn close(&mut self) {
        let w = {
            let mut g = self.p.lock().unwrap();
            g.closed = true;
            g.reader_waits.take()
        };
        self.wake(w);
    }
}
impl Write for PW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.dead {
            return Err(ErrorKind::BrokenPipe.into());
        }
        self.t.yield_now();
        if self.eintr && self.eintr_run < 3 && self.t.with(|c| { let x = c.tape.chance(1, 8); if x { c.fault("write-eintr") }; x }) {
            self.eintr_run += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.eintr_run = 0;
        loop {
            let room = {
                let mut g = self.p.lock().unwrap();
                if g.abandoned {
                    return Err(ErrorKind::BrokenPipe.into());
                }
                if let Some(k) = g.reset {
                    return Err(KINDS[k].1.into());
                }
                let room = g.cap - g.q.len();
                if room == 0 {
                    g.writer_waits = Some(self.t.id);
                }
                room
            };
            if room == 0 {
                self.t.with(|c| c.fault("backpressure"));
                self.t.block();
                continue;
            }
            let mut n = buf.len().min(room);
            let at = self.p.lock().unwrap().written;
            match self.cut {
                Cut::Crash(b) if at >= b => {
                    self.dead = true;
                    self.t.with(|c| { c.fault("writer-crash"); c.event(|| "writer dies".into()) });
                    self.close();
                    return Err(ErrorKind::BrokenPipe.into());
                }
                Cut::Reset(b, k) if at >= b => {
                    self.dead = true;
                    self.t.with(|c| { c.fault("connection-reset"); c.event(|| "connection reset".into()) });
                    let w = {
                        let mut g = self.p.lock().unwrap();
                        g.reset = Some(k);
                        g.q.clear();
                        g.reader_waits.take()
                    };
                    self.wake(w);
                    return Err(KINDS[k].1.into());
                }
                Cut::Crash(b) | Cut::Reset(b, _) => n = n.min((b - at) as usize),
                Cut::Never => {}
            }
            let n2 = self.t.with(|c| 1 + c.tape.draw(n as u64) as usize);
            let n = if n2 == 1 { n } else { n2 - 1 };
            let w = {
                let mut g = self.p.lock().unwrap();
                g.q.extend(&buf[..n]);
                g.written += n as u64;
                g.reader_waits.take()
            };
            self.t.with(|c| {
                if n < buf.len() {
                    c.fault("write-short");
                }
                c.event(|| format!("task {} write({}) -> {n}", self.t.id, buf.len()));
            });
            self.wake(w);
            return Ok(n);
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct PR {
    t: Task,
    p: P,
    eintr: bool,
    eintr_run: u32,
}
impl PR {
    fn abandon(&mut self) {
        let w = {
            let mut g = self.p.lock().unwrap();
            g.abandoned = true;
            g.writer_waits.take()
        };
        if let Some(w) = w {
            self.t.wake(w);
        }
    }
}
impl Read for PR {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.t.yield_now();
        if self.eintr && self.eintr_run < 3 && self.t.with(|c| { let x = c.tape.chance(1, 8); if x { c.fault("read-eintr") }; x }) {
            self.eintr_run += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.eintr_run = 0;
        loop {
            {
                let mut g = self.p.lock().unwrap();
                if let Some(k) = g.reset {
                    return Err(KINDS[k].1.into());
                }
                if g.q.is_empty() {
                    if g.closed {
                        return Ok(0);
                    }
                    g.reader_waits = Some(self.t.id);
                } else {
                    let avail = g.q.len().min(buf.len());
                    let r = self.t.with(|c| c.tape.draw(avail as u64) as usize);
                    let n = if r == 0 { avail } else { r };
                    for b in buf.iter_mut().take(n) {
                        *b = g.q.pop_front().unwrap();
                    }
                    let w = g.writer_waits.take();
                    drop(g);
                    self.t.with(|c| {
                        if n < avail {
                            c.fault("read-short");
                        }
                        c.event(|| format!("task {} read({}) -> {n}", self.t.id, buf.len()));
                    });
                    if let Some(w) = w {
                        self.t.wake(w);
                    }
                    return Ok(n);
                }
            }
            self.t.block();
        }
    }
}

/// a type that can be handed to another thread
#[derive(Clone)]
enum Kind {
    Dyn(Ty),
    Static(usize),
}
impl Kind {
    fn case(&self) -> Case {
        match self {
            Kind::Dyn(t) => Case::Dyn(std::rc::Rc::new(t.clone())),
            Kind::Static(i) => Case::Static(&STATICS[*i]),
        }
    }
}

#[derive(Default)]
struct Seen {
    values: Vec<Val>,
    /// how the stream ended: error kind reported, error text, bytes read of an incomplete message are not visible
    end: Option<(Option<ErrorKind>, bool, String)>,
    forwarded: u64,
    /// the layout-driven last message arrived as it was sent
    tail_ok: bool,
    tail_wrong: Option<String>,
}

struct Conn {
    kind: Kind,
    msgs: Vec<Val>,
    ends: Vec<u64>,
    hops: usize,
    cuts: Vec<Cut>,
    /// the last message of the connection is read with a layout by the same deserializer
    tail: Option<Tail>,
}
#[derive(Clone)]
struct Tail {
    json: String,
    bytes: Vec<u8>,
    want: Value,
}

fn gen_conn(t: &mut Tape) -> Conn {
    let kind = if t.draw(2) == 1 {
        Kind::Static(t.draw(STATICS.len() as u64) as usize)
    } else {
        let d = t.draw(3) as u32;
        let ty = gen_ty(t, d, false);
        Kind::Dyn(if inhabited(&ty) { ty } else { Ty::Str })
    };
    let case = kind.case();
    let ty = case.ty();
    let n = t.range(1, 5);
    let mut msgs = vec![];
    let mut ends = vec![];
    let mut total = 0u64;
    for _ in 0..n {
        let mut b = 40;
        let v = gen_val(t, &ty, &mut b);
        total += encode(&ty, &v).len() as u64;
        ends.push(total);
        msgs.push(v);
    }
    let hops = match t.draw(4) { 0 | 1 => 0, 2 => 1, _ => 2 };
    let mut tail = None;
    if hops == 0 && matches!(kind, Kind::Dyn(_)) && t.draw(3) == 2 {
        let l = crate::loose::gen_layout(t, 2, true);
        let (mut bytes, mut lens, mut b) = (vec![], vec![], 60);
        let want = crate::loose::gen_value(t, &l, &mut bytes, &mut lens, &mut b);
        let mut json = String::new();
        crate::loose::json(&l, &mut json);
        total += bytes.len() as u64;
        ends.push(total);
        tail = Some(Tail { json, bytes, want });
    }
    let mut cuts = vec![Cut::Never; hops + 1];
    if t.draw(2) == 1 {
        let h = t.draw(hops as u64 + 1) as usize;
        let at = t.draw(total + 1);
        cuts[h] = if t.draw(2) == 0 { Cut::Crash(at) } else { Cut::Reset(at, t.draw(KINDS.len() as u64) as usize) };
    }
    Conn { kind, msgs, ends, hops, cuts, tail }
}

fn receive(case: &Case, r: &mut PR, on: &mut dyn FnMut(Val) -> bool) -> (Option<ErrorKind>, bool, String) {
    let mut end = None;
    case.stream(r, &mut |v, _left| match v {
        Ok(v) => {
            let more = on(v);
            if !more {
                end = Some((None, false, "stopped".into()));
            }
            more
        }
        Err(e) => {
            end = Some((io_kind(&e), matches!(e, Error::EndOfStream), format!("{e:?}")));
            false
        }
    });
    end.unwrap()
}

/// `n` typed messages, then one that only a layout describes, from one deserializer
fn receive_then_layout(kind: &Kind, r: &mut PR, n: usize, tail: &Tail, s: &Mutex<Seen>) {
    let Kind::Dyn(ty) = kind else { unreachable!() };
    let done = |e: Error| s.lock().unwrap().end = Some((io_kind(&e), matches!(e, Error::EndOfStream), format!("{e:?}")));
    let rule = serde_json::from_str(&tail.json).expect("layout");
    let mut de = Deserializer::from_reader(&mut *r);
    for _ in 0..n {
        match Seed(ty).deserialize(&mut de) {
            Ok(v) => s.lock().unwrap().values.push(v),
            Err(e) => return done(e),
        }
    }
    let mut de = de.with_layout(&rule);
    match Value::deserialize(&mut de) {
        Ok(v) => {
            let mut g = s.lock().unwrap();
            if crate::loose::same(&v, &tail.want) {
                g.tail_ok = true;
            } else {
                g.tail_wrong = Some(format!("{:.300?} instead of {:.300?}", v, tail.want));
            }
            g.end = Some((None, true, "complete".into()));
        }
        Err(e) => done(e),
    }
}

pub fn c06(ctx: &mut Ctx) -> Outcome {
    let nconn = ctx.tape.range(1, 3) as usize;
    let conns: Vec<Conn> = (0..nconn).map(|_| gen_conn(&mut ctx.tape)).collect();
    for (i, c) in conns.iter().enumerate() {
        let l = format!("connection {i}: {} messages {} bytes {} relays {} cuts {:?}", c.kind.case().name().chars().take(80).collect::<String>(), c.msgs.len(), c.ends.last().unwrap(), c.hops, c.cuts);
        ctx.event(|| l);
    }
    let mut tasks: Vec<Box<dyn FnOnce(Task) + Send>> = vec![];
    let mut seen: Vec<Vec<Arc<Mutex<Seen>>>> = vec![];
    let mut work = 0u64;
    for c in &conns {
        let stages = c.hops + 1;
        work += *c.ends.last().unwrap() * stages as u64;
        let pipes: Vec<P> = (0..stages).map(|_| {
            let caps = [65536usize, 1, 3, 16, 64, 300];
            pipe(*ctx.tape.pick(&caps))
        }).collect();
        let eintr = ctx.tape.draw(2) == 1;
        let buffered = ctx.tape.draw(2) == 1;
        // sender
        {
            let (p, kind, msgs, cut, tail) = (pipes[0].clone(), c.kind.clone(), c.msgs.clone(), c.cuts[0], c.tail.clone());
            tasks.push(Box::new(move |t| {
                let case = kind.case();
                let mut w = PW { t, p, cut, eintr, eintr_run: 0, dead: false };
                if send(&case, &mut w, buffered, msgs.into_iter().map(Ok::<Val, ()>), cut) {
                    if let Some(x) = tail {
                        if let Err(e) = w.write_all(&x.bytes) {
                            unexpected(&w, cut, Error::Io(e));
                        }
                    }
                }
                w.close();
            }));
        }
        let mut ss = vec![];
        for h in 1..=stages {
            let s: Arc<Mutex<Seen>> = Default::default();
            ss.push(s.clone());
            let (p, kind) = (pipes[h - 1].clone(), c.kind.clone());
            if h < stages {
                // relay: decodes with one deserializer, re-encodes what it got
                let (q, cut) = (pipes[h].clone(), c.cuts[h]);
                tasks.push(Box::new(move |t| {
                    let case = kind.case();
                    let mut r = PR { t: t.clone(), p, eintr, eintr_run: 0 };
                    let mut w = PW { t, p: q, cut, eintr, eintr_run: 0, dead: false };
                    let end = receive(&case, &mut r, &mut |v| {
                        s.lock().unwrap().values.push(v.clone());
                        match case.encode(&mut w, &v) {
                            Ok(()) => {
                                s.lock().unwrap().forwarded += 1;
                                true
                            }
                            Err(_) => false,
                        }
                    });
                    s.lock().unwrap().end = Some(end);
                    r.abandon();
                    w.close();
                }));
            } else if let Some(tail) = c.tail.clone() {
                let n = c.msgs.len();
                tasks.push(Box::new(move |t| {
                    let mut r = PR { t, p, eintr, eintr_run: 0 };
                    receive_then_layout(&kind, &mut r, n, &tail, &s);
                    r.abandon();
                }));
            } else {
                tasks.push(Box::new(move |t| {
                    let case = kind.case();
                    let mut r = PR { t, p, eintr, eintr_run: 0 };
                    let end = receive(&case, &mut r, &mut |v| {
                        s.lock().unwrap().values.push(v);
                        true
                    });
                    s.lock().unwrap().end = Some(end);
                    r.abandon();
                }));
            }
        }
        seen.push(ss);
    }
    let own = std::mem::replace(ctx, Ctx::new(Tape::replay(vec![])));
    // progress: every byte costs a bounded number of turns at each stage
    let (own, res) = Sched::run(own, 4000 + work * 40, tasks);
    *ctx = own;
    let _ = std::any::TypeId::of::<Abort>();
    res?;
    for (i, c) in conns.iter().enumerate() {
        judge(ctx, i, c, &seen[i])?;
    }
    Ok(())
}

fn send(case: &Case, w: &mut PW, buffered: bool, msgs: impl Iterator<Item = Result<Val, ()>>, cut: Cut) -> bool {
    if buffered {
        // an application that collects a message in a buffer before it goes out
        let mut b = std::io::BufWriter::with_capacity(7, w);
        for m in msgs.flatten() {
            match case.encode(&mut b, &m) {
                Ok(()) => {}
                Err(e) => {
                    unexpected(b.get_ref(), cut, e);
                    return false;
                }
            }
        }
        if let Err(e) = b.flush() {
            unexpected(b.get_ref(), cut, Error::Io(e));
            return false;
        }
    } else {
        for m in msgs.flatten() {
            if let Err(e) = case.encode(w, &m) {
                unexpected(w, cut, e);
                return false;
            }
        }
    }
    true
}
/// a send may only fail because the connection was cut or the peer went away
fn unexpected(w: &PW, cut: Cut, e: Error) {
    let gone = { let g = w.p.lock().unwrap(); g.abandoned || g.reset.is_some() };
    if cut == Cut::Never && !gone {
        w.t.clone().fail(Violation::new("send-failed", format!("{e:?} on a working connection")));
    }
}

fn judge(ctx: &mut Ctx, i: usize, c: &Conn, seen: &[Arc<Mutex<Seen>>]) -> Outcome {
    let mut upstream: Vec<Val> = c.msgs.clone();
    // number of messages the writer of stage h got rid of completely
    for (h, s) in seen.iter().enumerate() {
        let s = s.lock().unwrap();
        let who = format!("connection {i} stage {}", h + 1);
        let Some((kind, eos, text)) = &s.end else {
            return bad("no-progress", format!("{who} never saw the end of its stream"));
        };
        if s.values.len() > upstream.len() || s.values[..] != upstream[..s.values.len()] {
            return bad("stream-not-a-prefix", format!("{who}: {} messages came out that are not a prefix of the {} sent: got {:.300?} of {:.300?}", s.values.len(), upstream.len(), s.values, upstream));
        }
        if let Some(w) = &s.tail_wrong {
            return bad("stream-not-a-prefix", format!("{who}: the message after the typed ones came out as {w}"));
        }
        let got = s.values.len() + s.tail_ok as usize;
        let offered = upstream.len() + c.tail.is_some() as usize;
        if s.tail_ok {
            ctx.probe("layout-after-typed");
        }
        let stopped = text == "stopped";
        let eof = *eos || *kind == Some(ErrorKind::UnexpectedEof);
        match c.cuts[h] {
            _ if stopped => {
                // a relay stops when its own writing end was cut, or when a later one was and its reader left
                if c.cuts[h + 1..].iter().all(|x| *x == Cut::Never) {
                    return bad("relay-stopped", format!("{who} failed to forward on a working connection"));
                }
            }
            Cut::Never => {
                if !eof {
                    return bad("stream-error-misreported", format!("{who}: the stream ended orderly, reported {text}"));
                }
                if got != offered {
                    return bad("messages-lost", format!("{who}: {got} of {offered} messages arrived"));
                }
                ctx.probe("stream-complete");
            }
            Cut::Crash(b) => {
                let n = upstream_complete(offered, c, b);
                if got != n {
                    return bad("messages-lost", format!("{who}: the writer died after {b} bytes, {n} messages were complete, {got} arrived"));
                }
                if !eof {
                    return bad("stream-error-misreported", format!("{who}: the writer died, reported {text}"));
                }
                ctx.probe("crash-prefix");
            }
            Cut::Reset(b, k) => {
                let n = upstream_complete(offered, c, b);
                if got > n {
                    return bad("stream-not-a-prefix", format!("{who}: {got} messages from {n} complete ones"));
                }
                let total = c.ends.iter().take(offered).last().copied().unwrap_or(0);
                if b < total {
                    if *kind != Some(KINDS[k].1) {
                        return bad("stream-error-misreported", format!("{who}: reset with {:?}, reported {text}", KINDS[k].1));
                    }
                } else if !eof && *kind != Some(KINDS[k].1) {
                    return bad("stream-error-misreported", format!("{who}: reported {text}"));
                }
                ctx.probe("reset-prefix");
            }
        }
        // what this stage wrote on: everything it decoded, cut by its own writer
        upstream = s.values.clone();
    }
    Ok(())
}
fn upstream_complete(offered: usize, c: &Conn, b: u64) -> usize {
    // those of the offered messages that end within b bytes are complete
    let mut n = 0;
    for e in c.ends.iter().take(offered) {
        if *e <= b {
            n += 1;
        }
    }
    n
}
