//! C12: the JavaScript fetch helpers of mina-network, run by node inside a simulated network.
//!
//! The simulation itself (server, network, clock, scheduler, oracle) is driver.js; this side owns the
//! seed, the search, minimisation, replay and evidence. One run is one request to the node process:
//! a list of choices goes in, the choices used, the events and the verdict come back.
use simcore::runner::Prop;
use simcore::{Ctx, Outcome, Violation};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const CHOICES: usize = 3000;

thread_local! { static NODE: RefCell<Option<(Child, ChildStdin, BufReader<ChildStdout>)>> = RefCell::new(None); }

fn ask(line: &str) -> Result<String, Violation> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let driver = std::env::var("SIM_DRIVER").unwrap_or_else(|_| "/verif/js-sim/driver.js".into());
            let mut c = Command::new("node")
                .args(["--stack-size=900", &driver])
                .env_remove("NODE_OPTIONS")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("node cannot be started");
            let i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            *n = Some((c, i, o));
        }
        let (c, i, o) = n.as_mut().unwrap();
        let ok = writeln!(i, "{line}").and_then(|_| i.flush()).is_ok();
        let mut s = String::new();
        if ok {
            // a node process that never answers is found by the runner, which watches every run
            let _ = o.read_line(&mut s);
        }
        if s.ends_with('\n') {
            return Ok(s);
        }
        let _ = c.kill();
        let st = c.wait();
        *n = None;
        Err(Violation::new("client-process-died", format!("the node process ended: {st:?}")))
    })
}

fn c12(ctx: &mut Ctx) -> Outcome {
    let raw: Vec<String> = (0..CHOICES).map(|_| ctx.tape.draw(1 << 32).to_string()).collect();
    let a = match ask(&format!("{{\"choices\":[{}],\"verbose\":{}}}", raw.join(","), ctx.verbose)) {
        Ok(a) => a,
        Err(v) => {
            ctx.nontrivial = true;
            return Err(v);
        }
    };
    let v: serde_json::Value = serde_json::from_str(&a).expect("answer of driver.js");
    if let Some(e) = v["broken"].as_str() {
        panic!("driver.js: {e}");
    }
    ctx.tape.rec = v["used"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    for e in v["events"].as_array().unwrap() {
        let s = e.as_str().unwrap().to_string();
        ctx.event(|| s);
    }
    for f in v["faults"].as_array().unwrap() {
        ctx.fault(f.as_str().unwrap());
    }
    for p in v["probes"].as_array().unwrap() {
        ctx.probe(p.as_str().unwrap());
    }
    for s in v["sched"].as_array().unwrap() {
        ctx.sched_event(s.as_u64().unwrap(), 0);
    }
    ctx.sim_time_us += v["time_ms"].as_u64().unwrap() * 1000;
    ctx.nontrivial |= v["concurrent"].as_bool().unwrap();
    match v["class"].as_str() {
        None => Ok(()),
        Some(c) => Err(Violation::new(c, v["detail"].as_str().unwrap_or(""))),
    }
}

fn main() {
    let props = [Prop {
        id: "C12",
        scenario: c12,
        quick_runs: 60_000,
        thorough_runs: 4_000_000,
        wall: (60, 600),
        rule: "1-4 concurrent calls of the exported functions of network/js/graphql_v1_utils.js and graphql_berkeley_utils.js with drawn arguments, against a simulated block store and two simulated GraphQL services; every request is answered after a drawn simulated delay, in drawn order, with the right answer or a drawn failure. Non-trivial: a failure was injected or two requests were in flight at once; distinct: hash of the event log",
        real: &["network/js/graphql_v1_utils.js and graphql_berkeley_utils.js from /repo, unchanged, in a fresh JavaScript context per run", "V8's promises and async functions"],
        stub: &["fetch and its responses (also through node-fetch)", "the remote services (block store, GraphQL executor over drawn data)", "timers, Date, Math.random"],
        assumptions: &[
            "the helpers reach the network only through fetch (global or node-fetch) and use the standard Response interface",
            "promise callbacks run in the order V8 gives them; the order in which requests are answered is drawn",
        ],
        must_fire: &["connect-refused", "connection-lost-in-body", "body-truncated", "html-error-page", "json-error-status", "graphql-error", "graphql-null", "late-answer", "resolved-first", "resolved-after-retry", "rejected", "concurrent"],
        workers: 0,
    }];
    simcore::runner::main("js-sim", &props)
}
