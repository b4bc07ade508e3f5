mod cases;
mod cli;
mod conv;
mod fidelity;
mod io;
mod loose;
mod model;
mod props;
mod stream;

use simcore::runner::Prop;

#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

const TYPES: &str = "types and values are drawn per run: 27 derive(Serialize, Deserialize) types compiled in, or a run-time type tree of depth <= 3 driven through serde";
const STUB_IO: &[&str] = &["the byte source and sink (simulated Read/Write)"];
const ASSUME_IO: &[&str] = &[
    "sources and sinks honour the contracts of std::io::Read and Write (EINTR is retried, Ok(0) from a source is end of stream)",
    "the reference model of the bin_prot wire format in codec-sim/src/model.rs is right; it was written from the OCaml bin_prot format, not from this code",
    "serde, byteorder and num are exercised, not modelled; build profile: debug with overflow checks, as in the repository's tests",
];

const ASSUME_CLI: &[&str] = &[
    "the tools use the C library's open, read, write and writev, as Rust's std does; what the kernel does behind them is trusted",
    "errors of close are not injected (std ignores them); a write that succeeded is taken as stored",
    "the reference model of the format in codec-sim/src/model.rs and loose.rs; the layout reader's text is compared with the Debug form of the value the model expects",
];

fn main() {
    let base = |id, scenario, rule| Prop {
        id,
        scenario,
        quick_runs: 400_000,
        thorough_runs: 20_000_000,
        wall: (60, 600),
        rule,
        real: &["bin-prot (serializer, deserializer, integer, char, string, variant and polyvar codecs)", "serde derive code of the drawn types"],
        stub: STUB_IO,
        assumptions: ASSUME_IO,
        must_fire: &[],
        workers: 0,
    };
    let c = |s: &str| -> &'static str { Box::leak(format!("{TYPES}; {s}").into_boxed_str()) };
    let props = vec![
        Prop {
            must_fire: &["read-short", "read-eintr", "both-ok", "both-err", "straddle-8k", "corrupt-length"],
            ..base("C01", props::c01, c("the same bytes (a quarter corrupted) are decoded once in one piece and once through a source that splits every read at seeded points and interrupts with EINTR; results and bytes consumed must be equal. Non-trivial: at least one short read or EINTR was answered; distinct: hash of the event log"))
        },
        Prop {
            quick_runs: 1_500_000,
            must_fire: &["write-short", "write-eintr", "write-error", "write-zero", "write-err", "write-ok"],
            ..base("C02", props::c02, c("written (or each primitive writer called) through a sink with seeded short writes, EINTR, and an I/O error or Ok(0) at a seeded byte offset. Non-trivial: at least one of these answered; distinct: hash of the event log"))
        },
        Prop {
            quick_runs: 2_000_000,
            must_fire: &["stream-truncated", "read-error", "read-short", "read-eintr", "broken-reported", "complete"],
            ..base("C03", props::c03, c("the encoding is cut by end of stream or an I/O error of one of nine kinds at a seeded offset, and decoded through each entry point. Non-trivial: a fault was answered; distinct: hash of the event log"))
        },
        Prop {
            quick_runs: 500_000,
            must_fire: &["trailing-reported", "exact", "ends-near-buffer-boundary", "read-short", "read-eintr"],
            ..base("C04", props::c04, c("an encoding, with or without trailing bytes, delivered in seeded chunks (often cut exactly at the end of the value, or with the value ending near a multiple of the 8 KiB buffer), read strictly. Non-trivial: a short read or EINTR was answered; distinct: hash of the event log"))
        },
        Prop {
            quick_runs: 2_000_000,
            must_fire: &["corrupt-length", "corrupt-bitflip", "corrupt-byte", "corrupt-insert", "corrupt-truncate", "garbage-stream", "hostile-refused", "hostile-valid"],
            real: &["bin-prot, typed and layout-driven decoding"],
            stub: &["the byte source", "the allocator (accounts for and limits every allocation)"],
            ..base("C05", props::c05, c("an encoding is corrupted (claimed lengths, bit flips, bytes replaced, inserted, cut) or replaced by garbage and decoded by type or by layout under allocation accounting; verdict, value and bytes consumed are compared with the reference decoder, peak memory with a bound linear in the bytes received. Non-trivial: a fault was injected; distinct: hash of the event log"))
        },
        Prop {
            quick_runs: 24_000,
            thorough_runs: 2_000_000,
            must_fire: &["writer-crash", "connection-reset", "backpressure", "read-short", "write-short", "read-eintr", "write-eintr", "stream-complete", "crash-prefix", "reset-prefix", "layout-after-typed"],
            real: &["bin-prot on both ends of every connection and in the relays", "real threads, one running at a time, released by the seeded scheduler"],
            stub: &["connections (bounded byte queues)", "process crash (the writer stops at a byte offset), connection reset (what is in flight is lost)"],
            ..base("C06", stream::c06, c("1-3 connections with 0-2 relays, 1-5 messages each, queues of 1 to 65536 bytes; every read and write is a scheduling point; at most one crash or reset per connection at a seeded byte. Non-trivial: more than one task was runnable or a fault was answered; distinct: hash of the event log; progress: the step budget is 4000 + 40 turns per byte and stage"))
        },
        Prop {
            quick_runs: 1_500_000,
            must_fire: &["value-kept", "primitive-kept", "annotated-encoding", "char-beyond-a-byte", "read-short", "write-short"],
            ..base("C07", fidelity::c07, c("sent through a faulty sink and received through a faulty source; the bytes must be the reference encoding, the value must come back; also each primitive reader/writer, the integer annotations, chars outside one byte, and the edges of the supported range. Non-trivial: a fault was answered; distinct: hash of the event log"))
        },
        Prop {
            quick_runs: 1_000_000,
            must_fire: &["loose-ok", "hybrid-ok", "typed-header-then-layout", "broken-reported", "part-found", "absent-part", "shipped-layout", "unsupported-met", "stream-truncated", "read-error", "read-short", "write-short"],
            real: &["bin-prot layout parser, layout traversal, layout-driven deserializer, Value serializer", "the shipped layouts protocol/layouts/*.json (quick: verification_key and protocol_state; thorough: all four)"],
            ..base("C08", loose::c08, "a layout is drawn (depth <= 4, all supported rule kinds, one in eight with an unsupported rule planted; one in 1500 is a shipped layout), rendered to JSON and parsed by the real code; a value of it is drawn and encoded by the reference model, delivered through a faulty source (short reads, EINTR, truncation, I/O error, trailing bytes), decoded, compared and written back through a faulty sink. Non-trivial: a fault was answered; distinct: hash of the event log")
        },
        Prop {
            quick_runs: 1_000_000,
            must_fire: &["node-crash-restart", "read-short", "write-short", "value-kept"],
            real: &["versioned (wrapper, conversions, helper macros)", "mina-serialization-types-macros (AutoFrom derive)", "bin-prot"],
            stub: &["links between hops (simulated Read/Write)", "crash of a hop: it restarts from the bytes it stored"],
            ..base("C09", conv::c09, "an internal value (records, tuples, enums, nested, one to four version layers, or through the helper macros) travels 1-3 hops: converted to its versioned wire type, written, delivered, read strictly, converted back; a hop may crash after storing the bytes and restart from them. The wire bytes must be the hand-written reference encoding at every hop and the value must survive. Non-trivial: a fault was answered; distinct: hash of the event log")
        },
        Prop {
            quick_runs: 24_000,
            thorough_runs: 2_000_000,
            must_fire: &["read-short", "read-eintr", "write-short", "write-eintr", "write-eio", "write-eio-once", "write-enospc", "write-epipe", "write-zero", "write-kill", "read-eio", "open-eacces", "open-emfile", "tool-ok", "tool-reported"],
            real: &["the bin_prot_checker binary, built from /repo, with std, structopt and bin-prot"],
            stub: &["open, read, write and writev on the data file, stdin and stdout (LD_PRELOAD shim following the drawn plan)"],
            assumptions: ASSUME_CLI,
            ..base("C10", cli::c10, "one process per run: serialize one of the tool's eight test values to a file (empty or holding older data) or stdout, or deserialize a drawn (valid, truncated or invalid) encoding from a file or stdin; short transfers, EINTR, and up to two hard faults (EIO once or for good, full disk, EPIPE, Ok(0), failing open, SIGKILL before or after a call) at drawn calls. Non-trivial: a fault was answered; distinct: hash of the event log")
        },
        Prop {
            quick_runs: 24_000,
            thorough_runs: 2_000_000,
            must_fire: &["read-short", "read-eintr", "write-short", "write-eintr", "write-eio", "write-enospc", "write-kill", "read-eio", "open-eacces", "input-truncated", "input-bitflip", "input-trailing", "tool-ok", "roundtrip-ok", "tool-refused-broken", "tool-reported"],
            real: &["the bin-prot-layout-reader binary, built from /repo, with std, serde_json, serde_stacker, hex and bin-prot"],
            stub: &["open, read, write and writev on layout, binary, output file and stdout (LD_PRELOAD shim following the drawn plan)"],
            assumptions: ASSUME_CLI,
            ..base("C11", cli::c11, "one process per run: a drawn layout (one in twelve cut short) and a drawn value of it, raw or as hex digits, possibly truncated, bit-flipped or followed by other bytes, with or without --roundtrip, to stdout or to a file (absent or holding older output); short transfers, EINTR and up to two hard faults at drawn calls. Non-trivial: a fault was answered; distinct: hash of the event log")
        },
    ];
    simcore::runner::main("codec-sim", &props)
}
