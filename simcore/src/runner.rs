//! Seeded search over simulated runs, minimisation, replay, known findings, evidence.
use crate::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub scenario: fn(&mut Ctx) -> Outcome,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// wall clock cap of the search in seconds (quick, thorough)
    pub wall: (u64, u64),
    /// how runs are made and what makes one non-trivial
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// fault kinds / probes that must have fired at least once in a full run (reach); a zero is reported
    pub must_fire: &'static [&'static str],
    /// worker processes (0: one per core)
    pub workers: usize,
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a non-string payload".into()
    }
}

pub fn silence_panics() {
    if std::env::var_os("SIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// Catch a panic of the code under test; the message is returned.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    crate::alloc::disarm();
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<crate::baton::Abort>() {
                std::panic::resume_unwind(p)
            }
            Err(panic_msg(&p))
        }
    }
}

pub fn run_seed(verif_seed: u64, id: &str, idx: u64) -> u64 {
    let mut s = fnv(FNV0, id.as_bytes()) ^ verif_seed.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut s);
    s ^= idx.wrapping_mul(0xA24B_AED4_963E_E407);
    splitmix(&mut s)
}

fn exec(p: &Prop, tape: Tape, verbose: bool, thorough: bool, idx: u64) -> (Ctx, Outcome) {
    let mut ctx = Ctx::new(tape);
    ctx.verbose = verbose;
    ctx.thorough = thorough;
    ctx.run_index = idx;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.scenario)(&mut ctx)));
    crate::alloc::disarm();
    let out = match r {
        Ok(o) => o,
        Err(e) => Err(Violation::new("panic", panic_msg(&e))),
    };
    (ctx, out)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn tape_str(t: &[u64]) -> String {
    let mut s = String::with_capacity(t.len() * 4);
    for (i, v) in t.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&v.to_string());
    }
    s
}
fn parse_tape(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

/// known findings: lines `known: property=<id> class=<class> <description>`
fn known_classes(id: &str) -> Vec<(String, String)> {
    let p = std::env::var("SIM_FINDINGS").unwrap_or_default();
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(&p) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let pid = it.next().unwrap_or("");
                let cl = it.next().unwrap_or("");
                let de = it.next().unwrap_or("");
                if pid == id {
                    if let Some(c) = cl.strip_prefix("class=") {
                        v.push((c.to_string(), de.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn worker(p: &Prop, a: &[String]) -> i32 {
    let tier = &a[0];
    let seed: u64 = a[1].parse().unwrap();
    let w: u64 = a[2].parse().unwrap();
    let nw: u64 = a[3].parse().unwrap();
    let runs: u64 = a[4].parse().unwrap();
    let wall: u64 = a[5].parse().unwrap();
    let dir = PathBuf::from(&a[6]);
    let tag = &a[7];
    let thorough = tier == "thorough";
    let known: Vec<String> = known_classes(p.id).into_iter().map(|x| x.0).collect();
    let journal = std::fs::File::create(dir.join(format!("j.{tag}.{w}"))).unwrap();
    let t0 = Instant::now();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut steps, mut sim, mut done, mut nontrivial, mut choices) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: Vec<u8> = vec![];
    let mut scheds: Vec<u8> = vec![];
    let mut hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut idx = w;
    let out = std::io::stdout();
    while idx < runs {
        if t0.elapsed().as_secs() >= wall {
            break;
        }
        journal.write_all_at(&(idx + 1).to_le_bytes(), 0).unwrap();
        let sample = idx < 3 && tag == "main";
        let (mut ctx, o) = exec(p, Tape::seeded(run_seed(seed, p.id, idx)), sample, thorough, idx);
        done += 1;
        steps += ctx.steps;
        sim += ctx.sim_time_us;
        choices += ctx.tape.rec.len() as u64;
        for (k, v) in std::mem::take(&mut ctx.faults) {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in std::mem::take(&mut ctx.probes) {
            *probes.entry(k).or_insert(0) += v;
        }
        if ctx.nontrivial {
            nontrivial += 1;
            hashes.extend_from_slice(&ctx.loghash.to_le_bytes());
            scheds.extend_from_slice(&ctx.sched.to_le_bytes());
        }
        if tag == "det" {
            println!("H {idx} {} {}", ctx.loghash, match &o { Ok(()) => "ok".into(), Err(v) => v.class.clone() });
        }
        if sample {
            let mut l = out.lock();
            let _ = writeln!(l, "E {}", esc(&format!("run {idx}: {}", ctx.log.iter().take(40).cloned().collect::<Vec<_>>().join(" | "))));
        }
        if let Err(v) = o {
            if known.contains(&v.class) {
                let e = hits.entry(v.class).or_insert((0, v.detail));
                e.0 += 1;
            } else {
                println!("V\t{idx}\t{}\t{}\t{}", esc(&v.class), esc(&v.detail), tape_str(&ctx.tape.rec));
                break;
            }
        }
        idx += nw;
    }
    journal.write_all_at(&0u64.to_le_bytes(), 0).unwrap();
    std::fs::write(dir.join(format!("h.{tag}.{w}")), &hashes).unwrap();
    std::fs::write(dir.join(format!("s.{tag}.{w}")), &scheds).unwrap();
    println!("S {done} {steps} {sim} {nontrivial} {choices}");
    for (k, v) in faults {
        println!("F {v} {k}");
    }
    for (k, v) in probes {
        println!("P {v} {k}");
    }
    for (k, (n, d)) in hits {
        println!("K\t{n}\t{}\t{}", esc(&k), esc(&d));
    }
    0
}

fn evalserver(p: &Prop, a: &[String]) -> i32 {
    let thorough = a[0] == "thorough";
    let idx: u64 = a[1].parse().unwrap();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        let (ctx, o) = exec(p, Tape::replay(parse_tape(&line)), false, thorough, idx);
        match o {
            Ok(()) => println!("OK"),
            Err(v) => println!("V\t{}\t{}\t{}", esc(&v.class), esc(&v.detail), tape_str(&ctx.tape.rec)),
        }
        let _ = std::io::stdout().flush();
    }
    0
}

struct Eval<'a> {
    p: &'a Prop,
    tier: String,
    idx: u64,
    child: Option<(std::process::Child, mpsc::Receiver<String>)>,
    timeout: Duration,
}
impl<'a> Eval<'a> {
    /// class of the violation (or None), with the tape actually consumed
    fn eval(&mut self, t: &[u64]) -> Option<(String, String, Vec<u64>)> {
        if self.child.is_none() {
            let mut c = Command::new(std::env::current_exe().unwrap())
                .args(["evalserver", self.p.id, &self.tier, &self.idx.to_string()])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let so = c.stdout.take().unwrap();
            let (tx, rx) = mpsc::channel();
            std::thread::spawn(move || {
                for l in BufReader::new(so).lines().flatten() {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
            });
            self.child = Some((c, rx));
        }
        let (c, rx) = self.child.as_mut().unwrap();
        let ok = writeln!(c.stdin.as_mut().unwrap(), "{}", tape_str(t)).is_ok();
        let r = if ok { rx.recv_timeout(self.timeout) } else { Err(mpsc::RecvTimeoutError::Disconnected) };
        match r {
            Ok(l) if l == "OK" => None,
            Ok(l) => {
                let f: Vec<&str> = l.split('\t').collect();
                Some((f[1].to_string(), f[2].to_string(), parse_tape(f.get(3).unwrap_or(&""))))
            }
            Err(e) => {
                let _ = c.kill();
                let st = c.wait();
                self.child = None;
                let class = match e {
                    mpsc::RecvTimeoutError::Timeout => "hang".to_string(),
                    _ => crash_class(st.ok()),
                };
                let why = if class == "stuck" { STUCK } else { "the process running the simulation died or stopped" };
                Some((class, why.into(), t.to_vec()))
            }
        }
    }
}
const STUCK: &str = "the running task sleeps in the kernel on something only another task can release";
fn crash_class(st: Option<std::process::ExitStatus>) -> String {
    match st {
        Some(s) => match s.signal() {
            Some(sig) => format!("crash-signal-{sig}"),
            None if s.code() == Some(crate::baton::STUCK_EXIT) => "stuck".into(),
            None => format!("crash-exit-{}", s.code().unwrap_or(-1)),
        },
        None => "crash".into(),
    }
}

fn minimise(ev: &mut Eval, class: &str, start: Vec<u64>, budget: Duration) -> (Vec<u64>, String, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut detail = String::new();
    let mut evals = 0usize;
    let mut try_ = |ev: &mut Eval, cand: Vec<u64>, best: &mut Vec<u64>, detail: &mut String| -> bool {
        evals += 1;
        if let Some((c, d, rec)) = ev.eval(&cand) {
            if c == class {
                let mut r = rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                if r.len() < best.len() || (r.len() == best.len() && r < *best) {
                    *best = r;
                    *detail = d;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut sz = best.len().next_power_of_two().max(1);
        while sz >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return (best, detail, evals);
                }
                let mut c = best.clone();
                let e = (i + sz).min(c.len());
                c.drain(i..e);
                if !try_(ev, c, &mut best, &mut detail) {
                    let mut c = best.clone();
                    let e = (i + sz).min(c.len());
                    if c[i..e].iter().any(|x| *x != 0) {
                        for x in &mut c[i..e] {
                            *x = 0;
                        }
                        try_(ev, c, &mut best, &mut detail);
                    }
                    i += sz;
                }
            }
            sz /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut guard = 0;
            while i < best.len() && lo < best[i] && guard < 24 {
                if t0.elapsed() > budget {
                    return (best, detail, evals);
                }
                guard += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !try_(ev, c, &mut best, &mut detail) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, detail, evals);
        }
    }
}

fn write_replay(path: &Path, harness: &str, p: &Prop, tier: &str, seed: u64, idx: u64, class: &str, detail: &str, tape: &[u64], trace: &str) {
    let mut s = String::new();
    s += "# replay file: a pure function of this tape and the code reproduces the violation\n";
    s += &format!("harness {harness}\nproperty {}\ntier {tier}\nseed {seed}\nrun {idx}\n", p.id);
    s += &format!("class {class}\ndetail {detail}\n");
    s += &format!("tape {}\n", tape_str(tape));
    s += "# trace of the minimised run\n";
    for l in trace.lines() {
        s += &format!("# {l}\n");
    }
    std::fs::write(path, s).unwrap();
}

/// Replays in a child process, so that a run that ends its process or never ends is reported too.
fn replay_outer(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap_or_default();
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    let limit = Duration::from_secs(if get("class") == "hang" { 20 } else { 120 });
    let mut c = match Command::new(std::env::current_exe().unwrap()).arg("replay-inner").arg(file).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => match st.code() {
                Some(x) if x <= 2 => return x,
                _ => {
                    println!("class {}", crash_class(Some(st)));
                    break;
                }
            },
            _ if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                println!("class hang");
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(10)),
        }
    }
    println!("VIOLATION property={} replay={file}", get("property"));
    1
}

fn replay_cmd(props: &[Prop], file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k} "))).unwrap_or("").to_string();
    let id = get("property");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("no property {id} in this harness");
        return 2;
    };
    let (ctx, o) = exec(p, Tape::replay(parse_tape(&get("tape"))), true, get("tier") == "thorough", get("run").parse().unwrap_or(0));
    for l in &ctx.log {
        println!("  {l}");
    }
    println!("loghash {:016x}", ctx.loghash);
    match o {
        Ok(()) => {
            println!("REPLAY-OK property={id}: no violation");
            0
        }
        Err(v) => {
            println!("class {}", esc(&v.class));
            println!("detail {}", esc(&v.detail));
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

struct Merged {
    done: u64,
    steps: u64,
    sim: u64,
    nontrivial: u64,
    choices: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    samples: Vec<String>,
    viol: Vec<(u64, String, String, Option<Vec<u64>>)>,
    det: BTreeMap<u64, String>,
}

fn spawn_batch(p: &Prop, tier: &str, seed: u64, nw: u64, runs: u64, wall: u64, dir: &Path, tag: &str, m: &mut Merged) -> Result<(), String> {
    let mut kids = vec![];
    for w in 0..nw {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args(["worker", p.id, tier, &seed.to_string(), &w.to_string(), &nw.to_string(), &runs.to_string(), &wall.to_string()])
            .arg(dir)
            .arg(tag)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let so = c.stdout.take().unwrap();
        let se = c.stderr.take().unwrap();
        let h = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = BufReader::new(so).read_to_string(&mut s);
            s
        });
        let he = std::thread::spawn(move || {
            let mut s = vec![];
            let _ = BufReader::new(se).take(1 << 16).read_to_end(&mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        kids.push((w, c, h, he));
    }
    // watch for progress: a run that does not end is a hang
    let stall = std::env::var("SIM_STALL_S").ok().and_then(|x| x.parse().ok()).unwrap_or(100u64);
    let mut last: Vec<(u64, Instant)> = kids.iter().map(|_| (0, Instant::now())).collect();
    let mut hung: HashSet<u64> = HashSet::new();
    loop {
        let mut alive = false;
        for (i, (w, c, _, _)) in kids.iter_mut().enumerate() {
            if let Ok(None) = c.try_wait() {
                alive = true;
                let mut b = [0u8; 8];
                let cur = std::fs::File::open(dir.join(format!("j.{tag}.{w}")))
                    .and_then(|f| f.read_exact_at(&mut b, 0))
                    .map(|_| u64::from_le_bytes(b))
                    .unwrap_or(0);
                if cur != last[i].0 {
                    last[i] = (cur, Instant::now());
                } else if last[i].1.elapsed().as_secs() > stall {
                    hung.insert(*w);
                    let _ = c.kill();
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (w, mut c, h, he) in kids {
        let st = c.wait().map_err(|e| e.to_string())?;
        let out = h.join().unwrap_or_default();
        let err = he.join().unwrap_or_default();
        let mut finished = false;
        for l in out.lines() {
            if let Some(r) = l.strip_prefix("V\t") {
                let f: Vec<&str> = r.split('\t').collect();
                m.viol.push((f[0].parse().unwrap(), f[1].into(), f[2].into(), Some(parse_tape(f.get(3).unwrap_or(&"")))));
            } else if let Some(r) = l.strip_prefix("S ") {
                finished = true;
                let f: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                m.done += f[0];
                m.steps += f[1];
                m.sim += f[2];
                m.nontrivial += f[3];
                m.choices += f[4];
            } else if let Some(r) = l.strip_prefix("F ") {
                let (n, k) = r.split_once(' ').unwrap();
                *m.faults.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap();
            } else if let Some(r) = l.strip_prefix("P ") {
                let (n, k) = r.split_once(' ').unwrap();
                *m.probes.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap();
            } else if let Some(r) = l.strip_prefix("K\t") {
                let f: Vec<&str> = r.split('\t').collect();
                let e = m.known.entry(f[1].into()).or_insert((0, f[2].into()));
                e.0 += f[0].parse::<u64>().unwrap();
            } else if let Some(r) = l.strip_prefix("E ") {
                m.samples.push(r.into());
            } else if let Some(r) = l.strip_prefix("H ") {
                let (i, rest) = r.split_once(' ').unwrap();
                m.det.insert(i.parse().unwrap(), rest.into());
            }
        }
        if !finished {
            let mut b = [0u8; 8];
            let cur = std::fs::File::open(dir.join(format!("j.{tag}.{w}")))
                .and_then(|f| f.read_exact_at(&mut b, 0))
                .map(|_| u64::from_le_bytes(b))
                .unwrap_or(0);
            let class = if hung.contains(&w) { "hang".to_string() } else { crash_class(Some(st)) };
            if cur == 0 {
                return Err(format!("worker {w} died outside a run ({class}): {err}"));
            }
            m.viol.push((cur - 1, class, esc(err.lines().last().unwrap_or("the process died")), None));
        }
    }
    Ok(())
}

fn distinct(dir: &Path, pre: &str, tag: &str, nw: u64) -> usize {
    let mut s: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        if let Ok(b) = std::fs::read(dir.join(format!("{pre}.{tag}.{w}"))) {
            for c in b.chunks_exact(8) {
                s.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    s.len()
}

fn jlist(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "))
}

fn run_cmd(p: &Prop, harness: &str) -> i32 {
    let t0 = Instant::now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".to_string(),
        _ => "quick".to_string(),
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1);
    let outdir = PathBuf::from(std::env::var("SIM_OUT").unwrap_or_else(|_| "/verif".into()));
    let (mut runs, wall) = if tier == "thorough" { (p.thorough_runs, p.wall.1) } else { (p.quick_runs, p.wall.0) };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()) {
        runs = n;
    }
    println!("simulating property={} tier={tier} VERIF_SEED={seed} runs={runs}", p.id);
    let cores = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) as u64;
    let nw = if p.workers > 0 { p.workers as u64 } else { cores }.min(runs.max(1)).max(1);
    let dir = std::env::temp_dir().join(format!("sim.{}.{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    struct Rm(PathBuf);
    impl Drop for Rm {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _rm = Rm(dir.clone());
    std::env::set_var("SIM_DIR", &dir);
    let newm = || Merged {
        done: 0, steps: 0, sim: 0, nontrivial: 0, choices: 0, faults: BTreeMap::new(), probes: BTreeMap::new(),
        known: BTreeMap::new(), samples: vec![], viol: vec![], det: BTreeMap::new(),
    };
    let mut m = newm();
    if let Err(e) = spawn_batch(p, &tier, seed, nw, runs, wall, &dir, "main", &mut m) {
        eprintln!("harness error: {e}");
        return 2;
    }
    let search_s = t0.elapsed().as_secs_f64();
    // determinism: the same seeds again, in other processes and at another worker count, same event logs
    let ndet = runs.min(if tier == "thorough" { 400 } else { 120 });
    let mut d1 = newm();
    let mut d2 = newm();
    let mut det_checked = 0;
    if m.viol.is_empty() {
        for (d, w) in [(&mut d1, 1.max(nw / 4)), (&mut d2, nw.max(3).min(ndet))] {
            if let Err(e) = spawn_batch(p, &tier, seed, w, ndet, 120, &dir, "det", d) {
                eprintln!("harness error: {e}");
                return 2;
            }
        }
        for (i, h) in &d1.det {
            if let Some(h2) = d2.det.get(i) {
                det_checked += 1;
                if h != h2 {
                    eprintln!("harness error: run {i} is not deterministic ({h} / {h2})");
                    return 2;
                }
            }
        }
    }
    let distinct_h = distinct(&dir, "h", "main", nw);
    let distinct_s = distinct(&dir, "s", "main", nw);
    let mut violations = 0;
    let mut code = 0;
    if let Some((idx, class, detail, tape)) = m.viol.iter().min_by_key(|v| v.0).cloned() {
        violations = m.viol.len();
        let start = tape.unwrap_or_else(|| {
            // the process died: regenerate the tape by recording an over-long prefix of the PRNG stream
            let mut t = Tape::seeded(run_seed(seed, p.id, idx));
            (0..20_000).map(|_| t.draw(u64::MAX)).collect()
        });
        // A raw PRNG tape replays the same choices: `draw(n)` reduces modulo n in both modes.
        let mut ev = Eval { p, tier: tier.clone(), idx, child: None, timeout: Duration::from_secs(if class == "hang" { 20 } else { 60 }) };
        // a violation that depends on something outside the tape (address order, hash seeds of the code under
        // test) may need several tries to show again
        let first = (0..25).find_map(|_| ev.eval(&start));
        match first {
            Some((c, _, _)) => {
                if c != class {
                    println!("note: run {idx} first reported as {class}, reproduces as {c}");
                }
                let class = c;
                let (best, d2, evals) = minimise(&mut ev, &class, start.clone(), Duration::from_secs(60));
                let detail = if d2.is_empty() { detail } else { d2 };
                drop(ev);
                let rdir = outdir.join("replays");
                let _ = std::fs::create_dir_all(&rdir);
                let path = rdir.join(format!("{}-seed{}-run{}.replay", p.id, seed, idx));
                write_replay(&path, harness, p, &tier, seed, idx, &class, &detail, &best, "");
                // replay in a fresh process; keep its trace
                let o = Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).stderr(Stdio::null()).output();
                if let Ok(o) = o {
                    let trace = String::from_utf8_lossy(&o.stdout).to_string();
                    write_replay(&path, harness, p, &tier, seed, idx, &class, &detail, &best, &trace);
                }
                println!("run {idx} (seed {seed}): {class}: {detail}");
                println!("minimised from {} to {} choices in {evals} replays", start.len(), best.len());
                println!("VIOLATION property={} replay={}", p.id, path.display());
                code = 1;
            }
            None => {
                eprintln!("harness error: run {idx} reported {class}: {detail}; it did not replay");
                return 2;
            }
        }
    }
    for (c, d) in known_classes(p.id) {
        if let Some((n, det)) = m.known.get(&c) {
            println!("KNOWN-FINDING: property={} {} (class {c}, {n} runs, e.g. {det})", p.id, d);
        }
    }
    if code == 0 {
        for k in p.must_fire {
            if m.faults.get(*k).copied().unwrap_or(0) + m.probes.get(*k).copied().unwrap_or(0) == 0 {
                println!("note: fault or probe '{k}' never fired in this run");
            }
        }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"runs_per_hour\": {}, \"runs_per_hour_note\": \"one run is one seed\", \"choices_drawn\": {}, \"nontrivial_runs\": {},\n  \"simulated_steps\": {}, \"simulated_time_s\": {},\n  \"faults_injected\": {}, \"probes_hit\": {},\n  \"distinct_schedules\": {}, \"distinct_schedules_measure\": \"hash of the sequence of scheduling and fault decisions taken (which task or I/O call, what it was answered); distinct_nontrivial hashes the complete event log\",\n  \"determinism_runs_compared\": {}, \"known_finding_runs\": {},\n  \"components_real\": {}, \"components_stub\": {}, \"worker_processes\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json_str(p.id), json_str(&tier), seed as i64, m.done, distinct_h, json_str(p.rule), jlist(&m.samples),
        (m.done as f64 / search_s * 3600.0) as u64, m.choices, m.nontrivial,
        m.steps, m.sim as f64 / 1e6, jmap(&m.faults), jmap(&m.probes), distinct_s, det_checked,
        m.known.values().map(|x| x.0).sum::<u64>(),
        jlist(&p.real.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        jlist(&p.stub.iter().map(|s| s.to_string()).collect::<Vec<_>>()), nw,
        jlist(&p.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        wall_s, violations
    );
    let ed = outdir.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", p.id)), ev).unwrap();
    println!(
        "property={} runs={} nontrivial={} distinct={} schedules={} steps={} determinism_checked={} wall={:.1}s",
        p.id, m.done, m.nontrivial, distinct_h, distinct_s, m.steps, det_checked, wall_s
    );
    code
}

pub fn main(harness: &str, props: &[Prop]) -> ! {
    silence_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let code = match a.first().map(|s| s.as_str()) {
        Some("run") => match a.get(1).and_then(|i| find(i)) {
            Some(p) => run_cmd(p, harness),
            None => 2,
        },
        Some("worker") => worker(find(&a[1]).unwrap(), &a[2..]),
        Some("evalserver") => evalserver(find(&a[1]).unwrap(), &a[2..]),
        Some("replay") => replay_outer(&a[1]),
        Some("replay-inner") => replay_cmd(props, &a[1]),
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: {harness} run <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}
