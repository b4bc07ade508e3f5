//! Simulation of the web nodes (apps/wasm) from /repo, with the network below them (network/src/p2p).
#[path = "../../node-sim/src/blocks.rs"]
mod blocks;
#[path = "../../node-sim/src/c14.rs"]
#[allow(dead_code)]
mod c14;
mod c22;
mod c23;
mod c24;
#[path = "../../node-sim/src/exec.rs"]
mod exec;
#[path = "../../node-sim/src/fork.rs"]
mod fork;

mod graphql;
mod scope;

use simcore::runner::Prop;

const ASSUME: &[&str] = &[
    "the stand-ins for crates that are not available offline behave as the originals where the property can see it: ark-ff (field range checks), bs58, base64, async-trait and o1-utils are re-implementations; mina-hasher is SHA-256 over the same domain string and random oracle input instead of Poseidon; mina-signer is a keyed hash instead of Schnorr",
    "the crates are compiled with a newer toolchain (stable) than the repository pins, since their dependencies are not all available for it; debug profile with overflow checks",
    "the stand-ins for reqwest, wasm-bindgen, js-sys, libp2p and protobuf are written from their documentation: what is sent and when, how a stream or call ends, and the messages of proto3 are as theirs",
];

fn main() {
    let props = [
        Prop {
            id: "C22",
            scenario: c22::c22,
            quick_runs: 100_000,
            thorough_runs: 5_000_000,
            wall: (60, 600),
            rule: "one or two pages of the mainnet or the Berkeley web node, 1-5 actions each: wallet calls with drawn keys, passwords, memos (quotes, escapes, control and non-ASCII characters, GraphQL text) and numbers (numbers, big integers, texts, nonsense), polls, looks at the tip, blocks asked by hash, settings; the service's request is read by an independent GraphQL reader; answers are delayed, refused, broken off, cut, no JSON; blocks come from an explorer or endpoints that fail. Non-trivial: a call was made; distinct: hash of the event log",
            real: &["apps/wasm/mvp and apps/wasm/mina-berkeley (js_exports, payment, frontier, protocol_state, proof, utils)", "NetworkMessageProcessor, NaiveTransitionFrontier, GraphQL backends, JSON reading and conversion of blocks"],
            stub: &["reqwest, wasm-bindgen, js-sys, libp2p", "JavaScript: the fetch helpers (C12) and `${v}`", "executor, time, services", "Schnorr and Poseidon (keyed SHA-256)"],
            assumptions: ASSUME,
            must_fire: &["connection-refused", "body-broken", "answer-cut", "answer-not-json", "call-rejected", "answer-not-a-string", "answer-empty", "no-such-block", "list-with-odd-entries", "nonsense-refused", "call-answered", "call-rejected-to-page", "previous-hash", "no-previous-hash", "polled", "poll-failed", "tip-shown"],
            workers: 0,
        },
        Prop {
            id: "C23",
            scenario: c23::c23,
            quick_runs: 300_000,
            thorough_runs: 5_000_000,
            wall: (60, 600),
            rule: "1-3 pages that connect 1-3 times each, at the same time, by requests that may be unreadable or name an invalid address; proxies that cannot be dialed, refuse, never answer, refuse the protocol, send statuses in chunks of any size with any delay, with lines that are no status among them, repeat them, end or break the stream, fall silent, or lose the connection at any point; event emitters are replaced meanwhile. Non-trivial: a call was made; distinct: hash of the event log",
            real: &["connect, set_event_emitter and the node status protocol (apps/wasm/mvp/src)", "TransportBuilder and TransportConfig (network/src/p2p)"],
            stub: &["libp2p: addresses, transports, swarm, request-response; the proxies", "protobuf (generated from the repository's .proto files), multihash, wasm-bindgen, js-sys", "executor, time"],
            assumptions: ASSUME,
            must_fire: &["address-invalid", "connecting-hangs", "connection-lost", "connection-refused", "dial-impossible", "line-cut", "line-empty", "line-not-base64", "line-not-json", "line-not-utf8", "protocol-refused", "proxy-silent", "proxy-slow", "request-not-sent", "request-unreadable", "status-incomplete", "status-of-wrong-types", "stream-broken", "proxy-reads-request", "connection-ended", "emitter-replaced", "failure-reported", "nonsense-refused", "several-connections", "status-told", "stream-ends"],
            workers: 0,
        },
        Prop {
            id: "C24",
            scenario: c24::c24,
            quick_runs: 16_000,
            thorough_runs: 500_000,
            wall: (75, 600),
            rule: "1-6 blocks (valid, invalid in eight ways, names that cannot be files), 2-4 executions of the crawler on one directory; the listing and every download may be refused, broken off, cut, answered with an error status or nonsense, and blocks are repaired or spoiled between executions; downloads take a drawn number of polls each; every open, write, sync, rename, unlink and mkdir below output/ may be short, interrupted, fail, meet a full disk, or be where the process is killed; a power loss may take what was not synced. Non-trivial: an execution ran; distinct: hash of calls, answers and requests",
            real: &["apps/tools/blocks-crawler (the whole tool, as a process)", "JSON reading and conversion of blocks", "tokio runtime, futures, clap, the file system of the sandbox"],
            stub: &["reqwest: the two services", "env_logger", "libc calls that change files (LD_PRELOAD shim in front of the real ones)"],
            assumptions: &[
                "the stand-in of reqwest ends every request; a server that never answers is not simulated, since the tool sets no time limit",
                "a power loss keeps every directory entry that was made before it and loses only bytes of files that were not synced",
                "the crates are compiled with a newer toolchain (stable) and clap 4 instead of 3, since theirs are not available offline",
            ],
            must_fire: &["body-broken", "body-cut", "busy", "listing-fails", "no-such-block", "no-such-block-as-json", "not-json", "refused", "open-eacces", "open-enospc", "open-kill", "write-kill", "write-eio", "write-enospc", "write-short", "write-eintr", "mkdir-kill", "unlink-eacces", "power-loss", "killed", "saved", "failed-saved", "repaired-block-saved", "saved-before", "not-arrived", "downloads-at-once", "block-lost-to-fault", "complete-after-restart", "listing-failed", "name-not-savable", "listed-twice"],
            workers: 0,
        },
    ];
    simcore::runner::main("web-sim", &props)
}
