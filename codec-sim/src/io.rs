//! The simulated reader and writer: every call is answered by the tape.
use simcore::{Ctx, Tape};
use std::cell::RefCell;
use std::io::{self, ErrorKind};
use std::rc::Rc;

/// access to the run context from inside the code under test
pub trait Env: Clone {
    fn with<T>(&self, f: impl FnOnce(&mut Ctx) -> T) -> T;
}
pub type Shared = Rc<RefCell<Ctx>>;
impl Env for Shared {
    fn with<T>(&self, f: impl FnOnce(&mut Ctx) -> T) -> T {
        simcore::alloc::paused(|| f(&mut self.borrow_mut()))
    }
}
impl Env for simcore::baton::Task {
    fn with<T>(&self, f: impl FnOnce(&mut Ctx) -> T) -> T {
        simcore::alloc::paused(|| simcore::baton::Task::with(self, f))
    }
}

/// run `f` with the context shared, and take it back afterwards
pub fn shared<T>(ctx: &mut Ctx, f: impl FnOnce(&Shared) -> T) -> T {
    let own = std::mem::replace(ctx, Ctx::new(Tape::replay(vec![])));
    let s: Shared = Rc::new(RefCell::new(own));
    let s2 = s.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s2)));
    simcore::alloc::disarm();
    drop(s2);
    std::mem::swap(ctx, &mut s.borrow_mut());
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

pub const KINDS: [(&str, ErrorKind); 8] = [
    ("ConnectionReset", ErrorKind::ConnectionReset),
    ("TimedOut", ErrorKind::TimedOut),
    ("WouldBlock", ErrorKind::WouldBlock),
    ("BrokenPipe", ErrorKind::BrokenPipe),
    ("PermissionDenied", ErrorKind::PermissionDenied),
    ("Other(EIO)", ErrorKind::Other),
    ("ConnectionAborted", ErrorKind::ConnectionAborted),
    ("NotConnected", ErrorKind::NotConnected),
];

#[derive(Clone, Debug)]
pub struct Faults {
    /// 0: everything at once, 1: small chunks, 2: one byte at a time, 3: mixed, 4: split at `split`
    pub chunk: u64,
    pub split: usize,
    pub eintr: bool,
    /// hard error once this many bytes have passed
    pub fail_at: Option<(usize, usize)>,
    /// writer only: Ok(0) once this many bytes have passed
    pub zero_at: Option<usize>,
    /// the hard fault happens once, then the medium works again
    pub once: bool,
}
impl Faults {
    pub fn none() -> Self {
        Faults { chunk: 0, split: 0, eintr: false, fail_at: None, zero_at: None, once: false }
    }
    pub fn soft(t: &mut Tape, len: usize) -> Self {
        let mut chunk = t.draw(5);
        if len > 3000 && (chunk == 1 || chunk == 2) {
            chunk = 3; // tiny chunks of a big message only cost time
        }
        Faults { chunk, split: t.draw(len as u64 + 1) as usize, eintr: t.draw(2) == 1, fail_at: None, zero_at: None, once: false }
    }
}

fn chunk_len(ctx: &mut Ctx, f: &Faults, pos: usize, avail: usize) -> usize {
    let n = match f.chunk {
        0 => avail,
        1 => 1 + ctx.tape.draw(7) as usize,
        2 => 1,
        3 => match ctx.tape.draw(3) {
            0 => avail,
            1 => 1 + ctx.tape.draw(3) as usize,
            _ => 1 + ctx.tape.draw(avail as u64) as usize,
        },
        _ => {
            if pos < f.split { f.split - pos } else { avail }
        }
    };
    n.clamp(1, avail.max(1))
}

pub struct SimReader<E: Env> {
    pub env: E,
    pub data: Vec<u8>,
    pub pos: usize,
    pub f: Faults,
    pub calls: u64,
    pub eofs: u64,
    pub hard: Option<ErrorKind>,
    eintr_run: u32,
}
impl<E: Env> SimReader<E> {
    pub fn new(env: &E, data: &[u8], f: Faults) -> Self {
        SimReader { env: env.clone(), data: data.to_vec(), pos: 0, f, calls: 0, eofs: 0, hard: None, eintr_run: 0 }
    }
}
impl<E: Env> io::Read for SimReader<E> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let env = self.env.clone();
        let me = self;
        env.with(|ctx| {
            if me.f.eintr && me.eintr_run < 3 && ctx.tape.chance(1, 4) {
                me.eintr_run += 1;
                ctx.fault("read-eintr");
                ctx.event(|| "read -> EINTR".into());
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            me.eintr_run = 0;
            let mut avail = me.data.len() - me.pos;
            if let Some((at, k)) = me.f.fail_at {
                if me.f.once && me.hard.is_some() {
                    // recovered
                } else if me.pos >= at {
                    let (name, kind) = KINDS[k];
                    me.hard = Some(kind);
                    ctx.fault("read-error");
                    ctx.event(|| format!("read -> {name}"));
                    return Err(io::Error::new(kind, "injected"));
                }
                if me.hard.is_none() {
                    avail = avail.min(at - me.pos);
                }
            }
            if avail == 0 {
                me.eofs += 1;
                ctx.event(|| "read -> EOF".into());
                if me.eofs > 10_000 {
                    panic!("reader polled {} times after end of stream", me.eofs);
                }
                return Ok(0);
            }
            let avail = avail.min(buf.len());
            let n = chunk_len(ctx, &me.f, me.pos, avail);
            if n < avail {
                ctx.fault("read-short");
            }
            buf[..n].copy_from_slice(&me.data[me.pos..me.pos + n]);
            me.pos += n;
            ctx.sched_event(2, n as u64);
            ctx.event(|| format!("read({}) -> {n}", buf.len()));
            Ok(n)
        })
    }
}

pub struct SimWriter<E: Env> {
    pub env: E,
    pub out: Vec<u8>,
    pub f: Faults,
    /// a hard fault has been returned to the code
    pub hard: Option<ErrorKind>,
    pub after_hard: u64,
    zeros: u64,
    eintr_run: u32,
}
impl<E: Env> SimWriter<E> {
    pub fn new(env: &E, f: Faults) -> Self {
        SimWriter { env: env.clone(), out: vec![], f, hard: None, after_hard: 0, zeros: 0, eintr_run: 0 }
    }
}
impl<E: Env> io::Write for SimWriter<E> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let env = self.env.clone();
        let me = self;
        env.with(|ctx| {
            if me.f.eintr && me.eintr_run < 3 && ctx.tape.chance(1, 4) {
                me.eintr_run += 1;
                ctx.fault("write-eintr");
                ctx.event(|| "write -> EINTR".into());
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            me.eintr_run = 0;
            let mut avail = buf.len();
            if let Some((at, k)) = me.f.fail_at {
                if me.f.once && me.hard.is_some() {
                    // recovered
                } else if me.out.len() >= at {
                    let (name, kind) = KINDS[k];
                    if me.hard.is_some() {
                        me.after_hard += 1;
                    }
                    me.hard = Some(kind);
                    ctx.fault("write-error");
                    ctx.event(|| format!("write -> {name}"));
                    return Err(io::Error::new(kind, "injected"));
                }
                if me.hard.is_none() {
                    avail = avail.min(at - me.out.len());
                }
            }
            if let Some(at) = me.f.zero_at {
                if me.f.once && me.hard.is_some() {
                    // recovered
                } else if me.out.len() >= at {
                    me.hard = Some(ErrorKind::WriteZero);
                    me.zeros += 1;
                    ctx.fault("write-zero");
                    ctx.event(|| "write -> 0".into());
                    if me.zeros > 10_000 {
                        panic!("writer polled {} times although it accepts nothing", me.zeros);
                    }
                    return Ok(0);
                }
                if me.hard.is_none() {
                    avail = avail.min(at - me.out.len());
                }
            }
            let n = chunk_len(ctx, &me.f, me.out.len(), avail);
            if n < buf.len() {
                ctx.fault("write-short");
            }
            me.out.extend_from_slice(&buf[..n]);
            ctx.sched_event(3, n as u64);
            ctx.event(|| format!("write({}) -> {n}", buf.len()));
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
