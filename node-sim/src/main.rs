//! Simulation of the node: message processor, transition frontier, ledger and block relay from /repo.
mod account;
mod blocks;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c25;
mod c26;
mod fork;
mod exec;
mod json;

use simcore::runner::Prop;

const ASSUME: &[&str] = &[
    "the stand-ins for crates that are not available offline behave as the originals where the property can see it: ark-ff (field range checks), bs58, base64, async-trait and o1-utils are re-implementations; mina-hasher is SHA-256 over the same domain string and random oracle input instead of Poseidon; mina-signer is a keyed hash instead of Schnorr",
    "the crates are compiled with a newer toolchain (stable) than the repository pins, since their dependencies are not all available for it; debug profile with overflow checks",
];

fn main() {
    let props = [
        Prop {
            id: "C13",
            scenario: c13::c13,
            quick_runs: 2_000_000,
            thorough_runs: 20_000_000,
            wall: (60, 600),
            rule: "senders, a frontier that makes block queries, a networking side that answers some of them with blocks, readers and a stopper are drawn per run; every await point is a scheduling decision. Non-trivial: at least one scheduling choice among several ready tasks was made; distinct: hash of the event log",
            real: &["NetworkMessageProcessor (network/src/processor/processor_impl.rs, mod.rs)", "tokio mpsc channels and RwLock"],
            stub: &["executor, time", "transition frontier and networking side (simulated parties of the traits)"],
            assumptions: &["tokio's channels and locks are exercised as they are; the executor polls any task that was woken, in any order, and some that were not"],
            must_fire: &["unconvertible-block", "block-refused-by-frontier", "query-fails", "sender-gives-up", "loops-stopped", "many-requests", "inline-answer", "late-answer", "read", "settings-changed", "spurious-poll", "send-under-read-guard", "senders-leave", "requester-gone"],
            workers: 0,
        },
        Prop {
            id: "C14",
            scenario: c14::c14,
            quick_runs: 15_000,
            thorough_runs: 1_000_000,
            wall: (90, 900),
            rule: "2 to 4 nodes of one network (mainnet blocks in bin_prot, or berkeley GraphQL answers); blocks extend the producer's tip or are drawn from a short-range or long-range family or are odd; gossip with loss, duplication, corruption, delay, partitions, crashes and restarts; after every block offered the tip is compared with the reference rule. Non-trivial: a block was offered to a node; distinct: hash of the event log",
            real: &["NaiveTransitionFrontier for both networks", "NetworkMessageProcessor", "mina-consensus fork choice", "mina-rs-base block types, conversions, hashing input and command verification", "bin-prot and mina-serialization-types decoding of mainnet blocks", "GraphQL JSON conversion and merkle paths, proofs and hashing structure"],
            stub: &["executor, time, gossip network", "Poseidon and Schnorr (keyed and unkeyed SHA-256)"],
            assumptions: ASSUME,
            must_fire: &["message-lost", "message-duplicated", "message-tampered", "partition", "node-crash", "odd-block", "short-range-adopted", "long-range-adopted", "tie-on-vrf", "tie-on-state-hash", "agreed-after-heal", "command-tampered"],
            workers: 0,
        },
        Prop {
            id: "C15",
            scenario: c15::c15,
            quick_runs: 40_000,
            thorough_runs: 1_000_000,
            wall: (90, 900),
            rule: "2 to 4 mainnet nodes; blocks carry commands that wallets built with the repository's builder (payments, delegations, all numeric extremes, memos) and re-signed fixture commands, in both pre-diffs; producers and links change one thing about a command (each field, key, signature, its kind, its place, the network it is signed for), flip bits, truncate or extend the block. Whether a block must be adopted is decided by an independent reading of the wire types. Non-trivial: a block was offered to a node; distinct: hash of the event log",
            real: &["SignedTransferCommandBuilder, SignedCommand::from_payload, SignedCommandMemo", "random oracle input of commands, verification of commands, pre-diffs and blocks", "wire types, conversions and bin-prot decoding of blocks", "NaiveTransitionFrontier<mainnet>, NetworkMessageProcessor"],
            stub: &["executor, time, gossip network", "Schnorr and Poseidon (keyed SHA-256 over the same random oracle input and domain string; the check that a signer is a point of the curve is real)"],
            assumptions: ASSUME,
            must_fire: &["message-lost", "message-duplicated", "message-tampered", "node-crash", "dishonest-producer", "command-not-signed", "all-signed", "status-changed", "bit-flip-readable", "delegation"],
            workers: 0,
        },
        Prop {
            id: "C16",
            scenario: c16::c16,
            quick_runs: 150_000,
            thorough_runs: 5_000_000,
            wall: (60, 600),
            rule: "a ledger database (drawn accounts of either network, records of the shipped databases, or a whole shipped database; node hashes, indices and metadata around them), records cut, extended, flipped, replaced, lost or under a torn key; one to three readers take turns on it, reads fail at a drawn step, readers give up; then the Merkle tree and proofs. Non-trivial: every run; distinct: hash of the event log",
            real: &["RocksDbGenesisLedger, GenesisLedger (ledger/src)", "wire types of accounts, bin-prot decoding, conversions (base/src/account)", "MinaMerkleTree, DefaultMerkleProof, Poseidon mergers and hashers (structure)", "random oracle input of accounts"],
            stub: &["rocksdb (a sorted map; the shipped databases are read from their write-ahead logs)", "Poseidon (SHA-256 over the same random oracle input and domain string)"],
            assumptions: ASSUME,
            must_fire: &["db-read-error", "record-cut", "record-extended", "record-bit-flipped", "record-garbage", "record-lost", "torn-key", "reader-gives-up", "account-read", "corrupt-record-reported", "tree-right", "proof-right"],
            workers: 0,
        },
        Prop {
            id: "C17",
            scenario: c17::c17,
            quick_runs: 300_000,
            thorough_runs: 10_000_000,
            wall: (60, 600),
            rule: "a tree (fixed height 0 to 35 or variable; five applications: two Poseidon ones, three with their own hashing), a history of single and batched additions, roots and proofs, crash and restart from the stored items in other batches; proofs and JSON paths are delayed, duplicated, reordered and tampered with (every field, out of range, cut, extended, garbled text) on their way to holders of a root, possibly a stale one. Non-trivial: a root or a proof was asked for; distinct: hash of the event log",
            real: &["MinaMerkleTree in both modes, DefaultMerkleProof, MerklePath, MerkleTreeNodeMetadata (merkle/src)", "Poseidon mergers and hashers (structure)", "FpJson"],
            stub: &["Poseidon (SHA-256 over the same random oracle input and domain string)", "links, storage"],
            assumptions: ASSUME,
            must_fire: &["path-garbled", "proof-tampered", "stale-root", "message-duplicated", "crash-restart", "proof-accepted", "proof-refused", "path-accepted", "path-refused", "path-unreadable", "overfull", "no-proof-without-height"],
            workers: 0,
        },
        Prop {
            id: "C18",
            scenario: c18::c18,
            quick_runs: 20_000,
            thorough_runs: 1_000_000,
            wall: (90, 900),
            rule: "2 to 4 mainnet nodes that get their blocks as JSON texts; blocks carry drawn commands, statuses, coinbases, balances and numbers of full range; texts in other words (member order, spaces, escapes) and texts with one thing changed (each number, hash, key, signature, memo, tag, member or element of the block, proofs of work included; bits, cuts, trailing bytes). Every text is judged by an independent description of the format that reads and writes. Non-trivial: a block was offered to a node; distinct: hash of the event log",
            real: &["ExternalTransitionJson and all JSON types below it (protocol/serialization-types)", "conversions JSON to wire to base and back", "impl_mina_enum_json_serde", "NaiveTransitionFrontier<mainnet>, NetworkMessageProcessor"],
            stub: &["executor, time, gossip network, explorer service", "base58 and base64 (re-implementations)", "Schnorr and Poseidon (keyed SHA-256)"],
            assumptions: ASSUME,
            must_fire: &["message-lost", "message-tampered", "node-crash", "other-words", "readable", "unreadable", "proof-changed", "odd-bytes-in-proof", "unusual-refused"],
            workers: 0,
        },
        Prop {
            id: "C19",
            scenario: c19::c19,
            quick_runs: 100_000,
            thorough_runs: 4_000_000,
            wall: (60, 600),
            rule: "a ledger of drawn accounts (twins that differ in one thing among them) and its later versions; a service that restarts with an older version, or lies; answers as JSON with the account and its Merkle path, delayed, duplicated, sent to others, cut, or with one thing changed (every field, another account's field or path, the same number modulo 2^32 and 2^64, hashes of another kind or outside of the field, steps of the path); one to three clients that each trust one root. Non-trivial: an answer was judged; distinct: hash of the event log",
            real: &["Account::from_graphql_json and all readers below it (base/src/account, base/src/types, base/src/numbers)", "base58 types of keys and hashes (protocol/serialization-types)", "random oracle input of accounts", "MerklePath, DefaultMerkleProof, Poseidon mergers and hashers (structure)"],
            stub: &["the GraphQL service, links, storage", "base58 (re-implementation)", "Poseidon (SHA-256 over the same random oracle input and domain string)"],
            assumptions: ASSUME,
            must_fire: &["service-restart", "answer-tampered", "answer-cut", "message-lost", "message-duplicated", "message-misdirected", "accepted", "refused", "account-unreadable", "path-unreadable", "stale-answer", "unsure"],
            workers: 0,
        },
        Prop {
            id: "C20",
            scenario: c20::c20,
            quick_runs: 60_000,
            thorough_runs: 4_000_000,
            wall: (60, 600),
            rule: "a chain of 2 to 7 protocol states of mainnet (from the genesis block or another recorded block) or berkeley (from its genesis block), each field drawn over its range; services send states, as bin_prot or JSON, genuine or with one thing changed (every field, exchanged fields, longer and shorter lists); links lose, duplicate, reorder, damage; the client crashes and restarts from what it stored. Non-trivial: a state was judged; distinct: hash of the event log",
            real: &["ProtocolStateLegacy, ProtocolState and all parts below them: reading from bin_prot, JSON and GraphQL, random oracle input, state hash (base/src, crypto/src/hash, proof-systems-shim)", "genesis blocks of mainnet and berkeley (consensus/src/genesis)", "base58 form of hashes"],
            stub: &["Poseidon (SHA-256 over the same random oracle input and domain string)", "services, links, storage", "base58 (re-implementation)"],
            assumptions: ASSUME,
            must_fire: &["service-lies", "message-damaged", "message-lost", "message-duplicated", "client-crash", "accepted", "refused", "unreadable", "genesis", "differs-in-what-is-not-hashed"],
            workers: 0,
        },
        Prop {
            id: "C21",
            scenario: c21::c21,
            quick_runs: 200_000,
            thorough_runs: 5_000_000,
            wall: (60, 600),
            rule: "a mainnet or a berkeley node with its GraphQL backend; an explorer that learns of blocks, or up to five endpoints that are set, changed and duplicated; one or two pollers, a frontier that makes queries; answers are delayed, refused, empty, cut, no JSON, misshaped or blocks that must be refused; pollers give up half-way. Non-trivial: a poll ended; distinct: hash of the event log",
            real: &["NonConsensusGraphQLV1Backend, NonConsensusGraphQLBerkeleyBackend (network/src/processor/js)", "NetworkMessageProcessor, NaiveTransitionFrontier for both networks", "JSON reading and conversion of blocks"],
            stub: &["wasm-bindgen and js-sys; the JavaScript helpers (they are simulated in C12)", "executor, time, services", "Schnorr and Poseidon (keyed SHA-256)"],
            assumptions: ASSUME,
            must_fire: &["call-rejected", "answer-not-a-string", "answer-empty", "answer-cut", "answer-not-json", "listing-misshaped", "no-such-block", "answer-not-a-block", "answer-not-a-chain", "poll-given-up", "some-endpoints-fail", "some-blocks-fail", "query", "settings-changed", "tip-changed"],
            workers: 0,
        },
        Prop {
            id: "C25",
            scenario: c25::c25,
            quick_runs: 40_000,
            thorough_runs: 5_000_000,
            wall: (60, 600),
            rule: "a wallet with drawn key (also none, too short, no scalar), password, salt, nonce and costs, or the recorded one; 1-3 times stored, read, opened and exported; the file is torn, damaged at 1-3 bytes, mixed with another file, has a field changed, cut, extended, retyped or removed (properly encoded or not), other costs or primitives; passwords that are nearly right. Non-trivial: a file was read; distinct: hash of the event log",
            real: &["SecretBox: reading, opening, exporting (secrets/src)"],
            stub: &["argon2 and xsalsa20poly1305 (re-implementations, checked with the wallet recorded by Mina)", "base58 (re-implementation)", "the public key of a secret key (a hash)", "storage"],
            assumptions: ASSUME,
            must_fire: &["torn", "damaged", "two-files-mixed", "field-changed", "costs-changed", "text-changed", "other-version", "other-primitive", "field-misshaped", "wrong-password", "opened", "pair-opened", "not-opened", "not-read", "exported", "no-scalar", "no-key-inside", "recorded-wallet"],
            workers: 0,
        },
        Prop {
            id: "C26",
            scenario: c26::c26,
            quick_runs: 2_000_000,
            thorough_runs: 60_000_000,
            wall: (60, 600),
            rule: "a value of a drawn kind (amount, time, field elements, hashes of nine kinds, memo, VRF output, key, character) handed on as text between 2-6 parties, each of which reads it, keeps it and shows it; on the way texts are cut, damaged by a character, doubled, wrapped, exchanged for another one of this or another kind, or forged with proper checksums or numbers out of range. Non-trivial: always; distinct: hash of the event log",
            real: &["text forms of base/src/numbers.rs, consensus_state.rs, memo.rs, protocol_state_proof, crypto/src/hash, crypto/src/hex, proof-systems-shim/src/fp.rs, protocol/serialization-types (JSON forms behind them)"],
            stub: &["base58, base64, ark-ff, ark-ec (re-implementations)", "the carrier of the texts"],
            assumptions: ASSUME,
            must_fire: &["character-changed", "character-added", "character-lost", "characters-swapped", "cut", "twice", "wrapped", "case-changed", "another-text", "another-kind", "forged", "escaped", "shown", "read", "read-as-another", "refused", "not-showable", "points"],
            workers: 0,
        },
    ];
    simcore::runner::main("node-sim", &props)
}
