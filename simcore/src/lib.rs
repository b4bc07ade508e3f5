//! Core of the deterministic simulator: one integer seed -> one choice tape -> one execution.
//!
//! * `Tape`   every nondeterministic decision of a run is one `draw` from the tape.
//! * `Ctx`    tape + event log + fault/probe counters of a run.
//! * `runner` seeded search over many runs in worker processes, minimisation of a failing
//!            tape, replay files, known findings and evidence.
pub mod alloc;
pub mod baton;
pub mod runner;

use std::collections::BTreeMap;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

/// The only source of choices in a run. Recording: values come from the PRNG and are kept.
/// Replaying: values come from the given tape; past its end every choice is 0, and 0 is by
/// convention the simplest choice everywhere (no fault, first task, smallest size).
pub struct Tape {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub overflow: bool,
}

pub const MAX_TAPE: usize = 400_000;

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { state: seed, replay: None, pos: 0, rec: vec![], overflow: false }
    }
    pub fn replay(t: Vec<u64>) -> Self {
        Tape { state: 0, replay: Some(t), pos: 0, rec: vec![], overflow: false }
    }
    /// uniform in [0, n); n >= 1
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if self.rec.len() >= MAX_TAPE {
            self.overflow = true;
            return 0;
        }
        let v = match &self.replay {
            None => splitmix(&mut self.state) % n,
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn draw64(&mut self) -> u64 {
        let hi = self.draw(1 << 32);
        let lo = self.draw(1 << 32);
        (hi << 32) | lo
    }
    /// true with probability num/den; a 0 on the tape is `false`
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            // keep the tape shape independent of rates
            self.draw(den);
            return false;
        }
        self.draw(den) >= den - num.min(den)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi.saturating_sub(lo) + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// stable identification of what went wrong (known findings match on it, the minimiser keeps it)
    pub class: String,
    pub detail: String,
}
impl Violation {
    pub fn new(class: impl Into<String>, detail: impl Into<String>) -> Self {
        Violation { class: class.into(), detail: detail.into() }
    }
}
pub type Outcome = Result<(), Violation>;

pub struct Ctx {
    pub tape: Tape,
    pub verbose: bool,
    pub log: Vec<String>,
    pub loghash: u64,
    /// hash of the schedule and fault sequence only
    pub sched: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub sim_time_us: u64,
    pub nontrivial: bool,
    pub thorough: bool,
    pub run_index: u64,
}

impl Ctx {
    pub fn new(tape: Tape) -> Self {
        Ctx {
            tape,
            verbose: false,
            log: vec![],
            loghash: FNV0,
            sched: FNV0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            steps: 0,
            sim_time_us: 0,
            nontrivial: false,
            thorough: false,
            run_index: 0,
        }
    }
    pub fn event(&mut self, s: impl FnOnce() -> String) {
        let s = s();
        self.loghash = fnv(self.loghash, s.as_bytes());
        self.loghash = fnv(self.loghash, b"\n");
        if self.verbose && self.log.len() < 5000 {
            self.log.push(s);
        }
    }
    pub fn sched_event(&mut self, a: u64, b: u64) {
        self.sched = fnv(self.sched, &a.to_le_bytes());
        self.sched = fnv(self.sched, &b.to_le_bytes());
        self.steps += 1;
    }
    pub fn fault(&mut self, kind: &str) {
        if let Some(c) = self.faults.get_mut(kind) {
            *c += 1;
        } else {
            self.faults.insert(kind.to_string(), 1);
        }
        self.nontrivial = true;
        self.sched = fnv(self.sched, kind.as_bytes());
    }
    pub fn probe(&mut self, name: &str) {
        if let Some(c) = self.probes.get_mut(name) {
            *c += 1;
        } else {
            self.probes.insert(name.to_string(), 1);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(200) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
