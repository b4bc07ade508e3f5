//! The blocks crawler (apps/tools/blocks-crawler), run as a real process again and again on one directory.
//! The services it asks are answered from a file by the stand-in of reqwest; every call that changes a
//! file is answered by a preloaded shim following a plan drawn from the tape.
use serde_json::Value;
use simcore::{Ctx, Outcome, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}
fn bad(class: &str, detail: String) -> Outcome {
    Err(Violation::new(class, detail))
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = std::env::var_os("SIM_DIR").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("crawl.{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        // the tool runs one below, so that a path that climbs stays in here
        std::fs::create_dir_all(d.join("a/b/work")).unwrap();
        Scratch(d)
    }
    fn work(&self) -> PathBuf {
        self.0.join("a/b/work")
    }
    fn f(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// a block as the services know it
struct Block {
    height: u64,
    hash: String,
    /// what can be a file name
    savable: bool,
}
impl Block {
    fn name(&self) -> String {
        format!("{}-{}", self.height, self.hash)
    }
    fn file(&self) -> String {
        format!("mainnet-{}-{}.json", self.height, self.hash)
    }
}
/// a version of a block's JSON: whether it is a block, its text, and what is to be saved
struct Version {
    valid: bool,
    text: String,
    saved: Value,
}

const FIXTURES: [&str; 2] = ["mainnet-77748-3NKaBJsN1SehD6iJwRwJSFmVzJg5DXSUQVgnMxtH4eer4aF5BrDK", "mainnet-77749-3NK3P5bJHhqR7xkZBquGGfq3sERUeXNYNma5YXRMjgCNsTJRZpgL"];

fn fixture(i: usize) -> Value {
    thread_local!(static F: std::cell::RefCell<BTreeMap<usize, Value>> = Default::default());
    F.with(|f| {
        f.borrow_mut()
            .entry(i)
            .or_insert_with(|| {
                let p = format!("/repo/protocol/test-fixtures/src/data/{}.json", FIXTURES[i]);
                serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap()
            })
            .clone()
    })
}

fn version(ctx: &mut Ctx, valid: bool) -> Version {
    let t = &mut ctx.tape;
    let mut v = fixture(t.draw(2) as usize);
    if t.chance(1, 2) {
        // small: no commands
        for part in v["staged_ledger_diff"]["diff"].as_array_mut().unwrap() {
            if let Some(c) = part.get_mut("commands") {
                *c = Value::Array(vec![]);
            }
        }
    }
    v["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = t.draw(1 << 32).to_string().into();
    v["protocol_state"]["body"]["consensus_state"]["has_ancestor_in_same_checkpoint_window"] = (t.draw(2) == 1).into();
    if t.chance(1, 4) {
        v.as_object_mut().unwrap().remove("scheduled_time");
    }
    if !valid {
        match t.draw(8) {
            0 => drop(v.as_object_mut().unwrap().remove("protocol_state")),
            1 => drop(v["protocol_state"]["body"].as_object_mut().unwrap().remove("consensus_state")),
            2 => v["protocol_state"]["body"]["consensus_state"]["blockchain_length"] = "a few".into(),
            3 => v["protocol_state"]["body"]["consensus_state"]["epoch_count"] = "4294967296".into(),
            4 => v["staged_ledger_diff"]["diff"] = Value::Null,
            5 => v["protocol_state"]["previous_state_hash"] = 12.into(),
            6 => v = Value::Array(vec![v]),
            _ => v = serde_json::json!({"scheduled_time": "1636092972780"}),
        }
    }
    let text = if t.chance(1, 2) { serde_json::to_string(&v) } else { serde_json::to_string_pretty(&v) }.unwrap();
    let mut saved = v;
    if let Some(o) = saved.as_object_mut() {
        o.remove("scheduled_time");
    }
    Version { valid, text, saved }
}

fn plan(ctx: &mut Ctx, calls: u64) -> String {
    let t = &mut ctx.tape;
    let mut p = String::new();
    if t.chance(1, 2) {
        p += &format!("c={};", [4096, 17, 1000, 30000][t.draw(4) as usize]);
    }
    let call = |t: &mut simcore::Tape| match t.draw(12) {
        0..=2 => format!("u{}", t.draw(2)),
        k @ 3..=5 => format!("{}{}", b"osr"[k as usize - 3] as char, t.draw(5)),
        6 => format!("m{}", t.draw(5)),
        7 => format!("w{}", t.draw(calls)),
        _ => format!("a{}", 4 + t.draw(calls)),
    };
    for _ in 0..t.draw(3) {
        p += &format!("f{}:i;", call(t));
    }
    for _ in 0..[0, 1, 1, 1, 2, 3][t.draw(6) as usize] {
        match t.draw(10) {
            0 => p += &format!("d={};", t.draw(100_000)),
            k => p += &format!("f{}:{};", call(t), ['e', 'e', 'n', 'z', 'k', 'K', 't', 't', 'e'][k as usize - 1]),
        }
    }
    p
}

struct Ran {
    code: Option<i32>,
    /// what each call was about: operation, got, why, paths
    calls: Vec<(String, i64, String, String)>,
    requests: Vec<String>,
    stderr: String,
}

fn run_tool(ctx: &mut Ctx, s: &Scratch, args: &[String], plan: &str) -> Result<Ran, Violation> {
    let tools = PathBuf::from(std::env::var_os("SIM_CRAWLER").expect("SIM_CRAWLER"));
    for f in ["calls", "requests"] {
        let _ = std::fs::remove_file(s.f(f));
    }
    let mut c = Command::new(tools.join("debug/blocks-crawler"));
    c.args(args)
        .env_clear()
        .env("TOKIO_WORKER_THREADS", "1")
        .env("LD_PRELOAD", tools.join("shim.so"))
        .env("CRAWL_LOG", s.f("calls"))
        .env("CRAWL_PLAN", plan)
        .env("REQWEST_NET", s.f("net"))
        .env("REQWEST_LOG", s.f("requests"))
        .current_dir(s.work())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::from(File::create(s.f("stderr")).unwrap()));
    unsafe {
        c.pre_exec(|| {
            prctl(1, 9, 0, 0, 0); // die with the simulator
            setrlimit(0, &[60, 60]); // cpu seconds
            setrlimit(1, &[64 << 20, 64 << 20]); // file size
            setrlimit(4, &[0, 0]); // no core files
            Ok(())
        });
    }
    let mut child = c.spawn().expect("cannot start the tool");
    let start = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        if start.elapsed() > Duration::from_secs(15) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(Violation::new("crawl-stuck", "every request was answered, but the crawler does not end".to_string()));
        }
        std::thread::sleep(Duration::from_micros(if start.elapsed() < Duration::from_millis(50) { 300 } else { 5000 }));
    };
    let calls: Vec<_> = std::fs::read_to_string(s.f("calls"))
        .unwrap_or_default()
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split('\t').collect();
            (f[0].to_string(), f[2].parse().unwrap_or(0), f[3].to_string(), format!("{}\t{}", f[4], f.get(5).unwrap_or(&"")))
        })
        .collect();
    for (op, got, why, path) in &calls {
        if why != "-" {
            ctx.fault(&format!("{op}-{why}"));
        }
        ctx.sched_event(op.as_bytes()[0] as u64, *got as u64);
        if op != "write" {
            ctx.event(|| format!("  {op} {path} {got} {why}"));
        }
    }
    let requests: Vec<String> = std::fs::read_to_string(s.f("requests")).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    for r in &requests {
        ctx.event(|| format!("  {r}"));
        ctx.sched_event(r.as_bytes()[0] as u64, simcore::fnv(simcore::FNV0, r.as_bytes()));
    }
    let code = if st.signal().is_some() { None } else { st.code() };
    ctx.event(|| format!("exit {code:?}"));
    let stderr = std::fs::read_to_string(s.f("stderr")).unwrap_or_default();
    Ok(Ran { code, calls, requests, stderr })
}

fn names(s: &Scratch, dir: &str) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    if let Ok(d) = std::fs::read_dir(s.work().join("output").join(dir)) {
        for e in d {
            o.insert(e.unwrap().file_name().to_string_lossy().into_owned());
        }
    }
    o
}

pub fn c24(ctx: &mut Ctx) -> Outcome {
    let s = Scratch::new();
    let mut blocks: Vec<Block> = vec![];
    for i in 0..ctx.tape.range(1, 6) {
        let height = if i > 0 && ctx.tape.chance(1, 3) { blocks[blocks.len() - 1].height } else { ctx.tape.draw(200_000) };
        let (hash, savable) = match ctx.tape.draw(16) {
            15 => match ctx.tape.draw(6) {
                0 => ("../../../climb".to_string(), false),
                1 => ("part/of".to_string(), false),
                2 => ("x".repeat(300), false),
                3 => (format!("mit Leer zeichen ü{i}"), true),
                4 => (format!("..{i}"), true),
                _ => (format!("/climb{i}"), false),
            },
            _ => (format!("3N{}{:08x}", ["K", "L"][ctx.tape.draw(2) as usize], ctx.tape.draw(1 << 32)), true),
        };
        if !blocks.iter().any(|b| b.hash == hash) {
            blocks.push(Block { height, hash, savable });
        }
    }
    for b in &blocks {
        if !b.savable {
            ctx.probe("name-not-savable");
        }
    }
    // every version ever given out with success and whole, by block
    let mut given: Vec<Vec<Version>> = blocks.iter().map(|_| vec![]).collect();
    let mut listed_ever: BTreeSet<usize> = BTreeSet::new();
    // held when the last execution without a fault on its files ended
    let execs = ctx.tape.range(2, 4);
    for x in 0..execs {
        let last = x + 1 == execs;
        let faultless = last || ctx.tape.chance(1, 4);
        // the listing
        let mut order: Vec<usize> = (0..blocks.len()).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, ctx.tape.draw(i as u64 + 1) as usize);
        }
        if !last {
            let n = ctx.tape.draw(order.len() as u64 + 1) as usize;
            order.truncate(order.len() - n.min(order.len() - 1));
        }
        if ctx.tape.chance(1, 10) {
            order.push(order[0]);
            ctx.probe("listed-twice");
        }
        let limit = order.len() as u64 + ctx.tape.draw(3);
        let mut listing = serde_json::json!({"data": {"blocks": order.iter().map(|i| serde_json::json!({"blockHeight": blocks[*i].height, "stateHash": blocks[*i].hash})).collect::<Vec<_>>()}}).to_string();
        let mut net = String::new();
        let (mut status, mut end, mut listing_ok) = ("200", "whole", true);
        if !last {
            match ctx.tape.draw(24) {
                18 => (status, listing_ok) = ("refused", false),
                19 => (end, listing_ok) = ("broken", false),
                20 => (end, listing_ok) = ("cut", false),
                21 => {
                    listing = "<html>Bad Gateway</html>".into();
                    (status, listing_ok) = ("502", false);
                }
                22 => {
                    listing = r#"{"errors":[{"message":"limit"}]}"#.into();
                    listing_ok = false;
                }
                23 => {
                    listing = r#"{"data":{"blocks":[{"blockHeight":"77","stateHash":null}]}}"#.into();
                    listing_ok = false;
                }
                _ => {}
            }
        }
        if !listing_ok {
            ctx.fault("listing-fails");
        }
        std::fs::write(s.f("listing"), &listing).unwrap();
        net += &format!("POST https://graphql.minaexplorer.com/\t{}\t{}\t{status}\t{end}\t{}\n", ctx.tape.draw(3), ctx.tape.draw(3), s.f("listing").display());
        // the answers: the index of the version a block has now, if it arrives whole
        let mut arrives: BTreeMap<usize, usize> = BTreeMap::new();
        for i in 0..blocks.len() {
            let valid = match given[i].last() {
                Some(v) if ctx.tape.chance(2, 3) => v.valid,
                Some(v) => !v.valid || ctx.tape.chance(1, 2),
                None => !ctx.tape.chance(1, 3),
            };
            let v = match given[i].last() {
                Some(v) if v.valid == valid => None,
                _ => Some(version(ctx, valid)),
            };
            let (mut status, mut end, mut text) = ("200", "whole", v.as_ref().map(|v| v.text.clone()));
            let what = match ctx.tape.draw(if last { 24 } else { 14 }) {
                7 => {
                    status = "refused";
                    "refused"
                }
                8 => {
                    end = "broken";
                    "body-broken"
                }
                9 => {
                    end = "cut";
                    "body-cut"
                }
                10 => {
                    (status, text) = ("404", Some("<?xml version='1.0'?><Error><Code>NoSuchKey</Code></Error>".into()));
                    "no-such-block"
                }
                11 => {
                    (status, text) = ("404", Some(r#"{"error":{"code":404,"message":"No such object"}}"#.into()));
                    "no-such-block-as-json"
                }
                12 => {
                    (status, text) = ("503", Some(r#""busy""#.into()));
                    "busy"
                }
                13 => {
                    text = Some("no JSON".into());
                    "not-json"
                }
                _ => "",
            };
            let file = s.f(&format!("body{i}"));
            if what.is_empty() || status == "200" && text.is_none() || end != "whole" {
                if let Some(v) = v {
                    given[i].push(v);
                }
                if what.is_empty() {
                    arrives.insert(i, given[i].len() - 1);
                }
                text = Some(given[i].last().unwrap().text.clone());
            }
            if !what.is_empty() && order.contains(&i) {
                ctx.fault(what);
            }
            std::fs::write(&file, text.unwrap_or_default()).unwrap();
            let delay = |ctx: &mut Ctx| if ctx.tape.chance(1, 2) { ctx.tape.draw(12) } else { 0 };
            let (d1, d2) = (delay(ctx), delay(ctx));
            net += &format!("GET https://storage.googleapis.com/mina_network_block_data/{}\t{d1}\t{d2}\t{status}\t{end}\t{}\n", blocks[i].file(), file.display());
            if order.contains(&i) {
                ctx.event(|| format!("{}: {} {what} delays {d1} {d2}", blocks[i].name(), given[i].last().map_or("nothing yet", |v| if v.valid { "valid" } else { "invalid" })));
            }
        }
        std::fs::write(s.f("net"), &net).unwrap();
        let plan = if faultless { String::new() } else { plan(ctx, 6 + 12 * order.len() as u64) };
        let concurrency = [None, Some(1), Some(2), Some(3), Some(0)][ctx.tape.draw(5) as usize];
        let mut args = vec!["--limit".to_string(), limit.to_string()];
        if let Some(c) = concurrency {
            args.extend(["-c".to_string(), c.to_string()]);
        }
        let before = (names(&s, "succeeded"), names(&s, "failed"));
        let contents_before: BTreeMap<String, Vec<u8>> = before.0.iter().filter(|f| f.ends_with(".json")).map(|f| (f.clone(), std::fs::read(s.work().join("output/succeeded").join(f)).unwrap())).collect();
        ctx.event(|| format!("execution {x}: listing {} {order:?}, concurrency {concurrency:?}, plan {plan}", if listing_ok { "of" } else { "fails, of" }));
        ctx.nontrivial = true;
        let r = run_tool(ctx, &s, &args, &plan)?;
        if listing_ok {
            listed_ever.extend(&order);
        }
        let killed = r.code.is_none();
        if killed && !r.calls.iter().any(|c| c.2 == "kill") {
            return bad("crawl-died", format!("the crawler was ended by a signal of its own: {}", tail(&r.stderr)));
        }
        if killed {
            ctx.probe("killed");
        }
        // ---------------------------------------------------------------- power loss
        if ctx.tape.chance(if killed { 1 } else { 0 } + if faultless { 0 } else { 1 }, 4) {
            ctx.fault("power-loss");
            let mut dirty: BTreeSet<String> = BTreeSet::new();
            for (op, got, why, path) in &r.calls {
                let (a, b) = path.split_once('\t').unwrap();
                let done = *got >= 0 && why != "zero";
                match op.as_str() {
                    "write" | "truncate" if done => drop(dirty.insert(a.to_string())),
                    "sync" if done => drop(dirty.remove(a)),
                    "unlink" if done => drop(dirty.remove(a)),
                    "rename" if done => {
                        if dirty.remove(a) {
                            dirty.insert(b.to_string());
                        } else {
                            dirty.remove(b);
                        }
                    }
                    _ => {}
                }
            }
            for d in dirty {
                let p = s.work().join("output").join(&d);
                if let Ok(m) = std::fs::metadata(&p) {
                    let keep = match ctx.tape.draw(3) {
                        0 => 0,
                        1 => ctx.tape.draw(m.len() + 1),
                        _ => m.len(),
                    };
                    ctx.event(|| format!("  of {d} only {keep} of {} bytes are left", m.len()));
                    if keep < m.len() {
                        ctx.probe("unsynced-bytes-lost");
                        File::options().write(true).open(&p).unwrap().set_len(keep).unwrap();
                    }
                }
            }
        }
        // ---------------------------------------------------------------- what lies there
        for e in std::fs::read_dir(s.work()).unwrap() {
            let n = e.unwrap().file_name();
            if n != "output" {
                return bad("crawl-strays", format!("wrote {n:?} beside the output directory"));
            }
        }
        for d in ["", "a", "a/b"] {
            for e in std::fs::read_dir(s.f(d)).unwrap() {
                let n = e.unwrap().file_name().to_string_lossy().into_owned();
                if n.contains("climb") || n.contains("mainnet") {
                    return bad("crawl-strays", format!("wrote {d}/{n} outside the output directory"));
                }
            }
        }
        let after = (names(&s, "succeeded"), names(&s, "failed"));
        for (dir, files, valid) in [("succeeded", &after.0, true), ("failed", &after.1, false)] {
            for f in files.iter().filter(|f| f.ends_with(".json")) {
                let data = std::fs::read(s.work().join("output").join(dir).join(f)).unwrap_or_default();
                let Some(i) = blocks.iter().position(|b| b.file() == *f).filter(|i| listed_ever.contains(i)) else {
                    return bad("crawl-unasked", format!("{dir}/{f}: no such block was listed"));
                };
                let Ok(got) = serde_json::from_slice::<Value>(&data) else {
                    return bad("crawl-torn", format!("{dir}/{f} holds {} bytes that are no JSON", data.len()));
                };
                if !given[i].iter().any(|v| v.valid == valid && v.saved == got) {
                    let other = given[i].iter().any(|v| v.saved == got);
                    return bad(if other { "crawl-misfiled" } else { "crawl-wrong-block" }, format!("{dir}/{f} holds {}", if other { "what belongs into the other directory" } else { "what the service never sent" }));
                }
            }
        }
        for (f, data) in &contents_before {
            if std::fs::read(s.work().join("output/succeeded").join(f)).ok().as_ref() != Some(data) {
                return bad("crawl-lost-saved", format!("succeeded/{f} was there before and is not what it was"));
            }
        }
        // ---------------------------------------------------------------- what was asked
        let mut open: BTreeSet<String> = BTreeSet::new();
        let mut asked: Vec<usize> = vec![];
        let mut listings = 0;
        for q in &r.requests {
            let f: Vec<&str> = q.split('\t').collect();
            if f[1].starts_with("POST https://graphql.minaexplorer.com/") {
                if f[0] == "start" {
                    listings += 1;
                    let flat: String = f[2].chars().filter(|c| !c.is_whitespace()).collect::<String>().replace("\\n", "");
                    // newest first, by whatever time the explorer has
                    if !flat.contains("sortBy:") || !flat.contains("_DESC") {
                        return bad("crawl-wrong-order", format!("asked {flat} for the latest blocks"));
                    }
                    if !flat.contains(&format!("limit:{limit},")) && !flat.contains(&format!("limit:{limit})")) {
                        return bad("crawl-wrong-limit", format!("asked {flat} for the {limit} latest blocks"));
                    }
                }
                continue;
            }
            let Some(i) = order.iter().copied().find(|i| f[1] == format!("GET https://storage.googleapis.com/mina_network_block_data/{}", blocks[*i].file())) else {
                return bad("crawl-unasked", format!("asks {} which is not listed", f[1]));
            };
            if f[0] == "start" {
                if before.0.contains(&blocks[i].file()) {
                    return bad("crawl-again", format!("{} was saved before and is downloaded again", blocks[i].name()));
                }
                open.insert(format!("{} {}", f[1], asked.iter().filter(|a| **a == i).count()));
                asked.push(i);
                if concurrency.map_or(open.len() > 8, |c| c > 0 && open.len() > c) {
                    return bad("crawl-too-many", format!("{} downloads at once, concurrency {concurrency:?}", open.len()));
                }
                if open.len() > 1 {
                    ctx.probe("downloads-at-once");
                }
            } else {
                let k = open.iter().find(|o| o.starts_with(f[1])).cloned();
                k.map(|k| open.remove(&k));
            }
        }
        if listings > 1 {
            return bad("crawl-again", "the listing is asked more than once".to_string());
        }
        // ---------------------------------------------------------------- what had to be done
        if killed {
            continue;
        }
        let hard: Vec<&(String, i64, String, String)> = r.calls.iter().filter(|c| !["-", "short", "eintr"].contains(&c.2.as_str())).collect();
        let spoiled_all = hard.iter().any(|c| !blocks.iter().any(|b| c.3.contains(&b.name())));
        if !listing_ok {
            if r.code == Some(0) {
                return bad("crawl-silent", "the listing could not be had, but the crawler reports success".to_string());
            }
            if before != after {
                return bad("crawl-changed", "the listing could not be had, but files changed".to_string());
            }
            ctx.probe("listing-failed");
            continue;
        }
        if spoiled_all {
            ctx.probe("directories-fail");
            continue;
        }
        if hard.is_empty() && r.code != Some(0) {
            return bad("crawl-fails", format!("exit {:?} although no file failed: {}", r.code, tail(&r.stderr)));
        }
        for i in order.iter().copied().collect::<BTreeSet<_>>() {
            let b = &blocks[i];
            if !b.savable || hard.iter().any(|c| c.3.contains(&b.name())) {
                if !b.savable || before.0.contains(&b.file()) {
                    continue;
                }
                ctx.probe("block-lost-to-fault");
                continue;
            }
            let (ok, failed) = (after.0.contains(&b.file()), after.1.contains(&b.file()));
            let was = before.0.contains(&b.file());
            if ok && failed {
                return bad("crawl-both", format!("{} is in succeeded and in failed", b.file()));
            }
            if was {
                ctx.probe("saved-before");
                continue;
            }
            if !asked.contains(&i) {
                return bad("crawl-missed", format!("{} was not saved before and is not downloaded: {}", b.name(), tail(&r.stderr)));
            }
            match arrives.get(&i).map(|v| &given[i][*v]) {
                Some(v) if v.valid => {
                    if !ok {
                        return bad("crawl-missed", format!("{} arrived and is a block, but is not in succeeded: {}", b.name(), tail(&r.stderr)));
                    }
                    ctx.probe(if before.1.contains(&b.file()) { "repaired-block-saved" } else { "saved" });
                }
                Some(_) => {
                    if !failed {
                        return bad("crawl-missed", format!("{} arrived and is no block, but is not in failed: {}", b.name(), tail(&r.stderr)));
                    }
                    ctx.probe("failed-saved");
                }
                None => {
                    if ok || failed && !before.1.contains(&b.file()) {
                        return bad("crawl-invented", format!("{} did not arrive, but is in {}", b.name(), if ok { "succeeded" } else { "failed" }));
                    }
                    ctx.probe("not-arrived");
                }
            }
        }
        if x > 0 && hard.is_empty() {
            ctx.probe("complete-after-restart");
        }
    }
    Ok(())
}

fn tail(s: &str) -> String {
    let v: Vec<&str> = s.lines().collect();
    v[v.len().saturating_sub(4)..].join(" / ").chars().take(600).collect()
}
