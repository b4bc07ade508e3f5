//! Blocks for the simulated nodes: real mainnet blocks from /repo's fixtures, changed where a run says so.
use mina_rs_base::types::*;
use mina_serialization_types::v1::ExternalTransitionV1;
use proof_systems::mina_signer::{self, Keypair, NetworkId, PubKey, Signer};

pub const FIXTURES: &[&str] = &[
    "genesis-3NKeMoncuHab5ScarV5ViyF16cJPT4taWNSaTLS64Dp67wuXigPZ",
    "3NKaBJsN1SehD6iJwRwJSFmVzJg5DXSUQVgnMxtH4eer4aF5BrDK",
    "3NK3P5bJHhqR7xkZBquGGfq3sERUeXNYNma5YXRMjgCNsTJRZpgL",
    "3NKf5nZYFZ4qMe1VyysbsnzgA1pm4i93NBt6ytNC7CdU2QbmdRZC",
    "3NKCdqMnTzqxLhpG218eKZSUxB1GMqdiiBjbWXrQVrVzz8mTNFrK",
    "3NLRkk5T3Gaf8ZPXgoXatdrtpN3hUdzWPWXbrqMo4jVsi3jkiGE5",
    "3NK9fHpzfPWhuxFhQ9Dau1X1JWtstB6kGC4xrurSPU1kctMCsU9U",
];

pub fn fixture_bytes(name: &str) -> Vec<u8> {
    let p = format!("/repo/protocol/test-fixtures/src/data/{name}.hex");
    let s = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{p}: {e}"));
    hex::decode(s.trim()).unwrap()
}

pub fn decode(bytes: &[u8]) -> anyhow::Result<ExternalTransitionV1> {
    Ok(bin_prot::from_reader_strict(bytes)?)
}
pub fn encode(b: &ExternalTransitionV1) -> Vec<u8> {
    let mut v = vec![];
    bin_prot::to_writer(&mut v, b).unwrap();
    v
}

pub fn commands(b: &ExternalTransitionV1) -> usize {
    let d = &b.t.staged_ledger_diff.t.diff.t;
    d.0.t.t.commands.len() + d.1.as_ref().map(|x| x.t.t.commands.len()).unwrap_or(0)
}

/// the fixtures' signatures are Schnorr signatures; the stand-in signer makes its own
pub fn resign(b: &mut ExternalTransitionV1) {
    let mut ctx = mina_signer::create_legacy::<SignedCommandPayload>(NetworkId::MAINNET);
    let d = &mut b.t.staged_ledger_diff.t.diff.t;
    let second = d.1.as_mut().map(|x| &mut x.t.t.commands);
    for c in d.0.t.t.commands.iter_mut().chain(second.into_iter().flatten()) {
        let mina_serialization_types::staged_ledger_diff::UserCommand::SignedCommand(sc) = &mut c.t.data.t.t;
        let sc = &mut sc.t.t;
        let payload: SignedCommandPayload = sc.payload.t.t.clone().into();
        let signer: mina_signer::CompressedPubKey = sc.signer.clone().into();
        let kp = Keypair { public: PubKey::from_address(&signer.into_address()).unwrap() };
        let sig = ctx.sign(&kp, &payload);
        sc.signature = sig.into();
    }
}

/// makes one command invalid: changes its signature (0), its payload (1) or its signer (2)
pub fn tamper(b: &mut ExternalTransitionV1, k: usize, how: u64) {
    let d = &mut b.t.staged_ledger_diff.t.diff.t;
    let second = d.1.as_mut().map(|x| &mut x.t.t.commands);
    let c = d.0.t.t.commands.iter_mut().chain(second.into_iter().flatten()).nth(k).unwrap();
    let mina_serialization_types::staged_ledger_diff::UserCommand::SignedCommand(sc) = &mut c.t.data.t.t;
    let sc = &mut sc.t.t;
    match how {
        0 => {
            let s = &mut sc.signature.0.t.t.0;
            s[0] ^= 1;
        }
        1 => {
            let mut p: SignedCommandPayload = sc.payload.t.t.clone().into();
            p.common.nonce.0 ^= 1;
            sc.payload.t.t = p.into();
        }
        _ => {
            let odd = &mut sc.signer.0.t.0.t.t.is_odd;
            *odd = !*odd;
        }
    }
}
