//! C20: the hash of a protocol state names that state and no other, so whoever knows the hash of a tip can
//! take the history behind it from anybody.
use crate::account::{field, pack, Key};
use crate::{blocks, json};
use mina_consensus::genesis::{Genesis, GenesisProtocolState, MAINNET_CONFIG};
use mina_crypto::hash::StateHash;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::types::*;
use mina_serialization_types::json::ProtocolStateJson;
use mina_serialization_types::signatures::CompressedCurvePoint;
use mina_serialization_types::v1::{EpochDataV1, ExternalTransitionV1, HashV1, ProtocolStateV1, PublicKeyV1};
use num::{BigUint, Num};
use proof_systems::mina_hasher::{hash_of, Fp, ROInput};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use simcore::{Ctx, Outcome, Violation};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type H = [u8; 32];

// ---------------------------------------------------------------- what a protocol state holds
#[derive(Clone, Debug, PartialEq, Default)]
struct Epoch {
    ledger: H,
    currency: u64,
    seed: H,
    start: H,
    lock: H,
    length: u32,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct St {
    prev: H,
    genesis: H,
    staged: H,
    aux: Vec<u8>,
    coinbase_aux: Vec<u8>,
    coinbase_hash: H,
    snarked: H,
    genesis_ledger: H,
    /// mainnet only
    next_token: u64,
    time: u64,
    /// berkeley only
    body_ref: H,
    len: u32,
    epoch_count: u32,
    mwd: u32,
    swd: Vec<u32>,
    vrf: Vec<u8>,
    currency: u64,
    slot: u32,
    spe: u32,
    slot_genesis: u32,
    ancestor: bool,
    supercharge: bool,
    epochs: [Epoch; 2],
    /// stake winner, creator, receiver of the coinbase
    keys: [Key; 3],
    /// k, slots per epoch, slots per sub-window, delta
    constants: [u32; 4],
    genesis_time: u64,
}

// ---------------------------------------------------------------- its hash
/// field elements, and numbers with their sizes in bits
#[derive(Default)]
struct In(Vec<BigUint>, Vec<(BigUint, u32)>);
impl In {
    fn f(&mut self, b: &H) {
        self.0.push(BigUint::from_bytes_le(b));
    }
    fn n(&mut self, x: impl Into<BigUint>, bits: u32) {
        self.1.push((x.into(), bits));
    }
    fn bits(&mut self, b: &[u8], n: usize) {
        for i in 0..n {
            self.n(b[i / 8] >> (i % 8) & 1, 1);
        }
    }
    fn hash(self, legacy: bool, domain: &str) -> Fp {
        let r = if legacy {
            let r = self.0.iter().fold(ROInput::new(), |r, f| r.append_field(field(f)));
            self.1.iter().fold(r, |r, (x, bits)| (0..*bits as u64).fold(r, |r, i| r.append_bool(x.bit(i))))
        } else {
            pack(self.0, self.1)
        };
        hash_of(if legacy { "legacy" } else { "kimchi" }, Some(domain.into()), &r)
    }
}
fn le(f: &Fp) -> H {
    f.to_bytes().try_into().unwrap()
}
fn hash(s: &St, legacy: bool) -> H {
    let mut i = In::default();
    let [k, spe, spsw, delta] = s.constants;
    for x in [k, delta, spe, spsw] {
        i.n(x, 32);
    }
    i.n(s.genesis_time, 64);
    i.f(&s.genesis);
    // the staged ledger
    let mut d = Sha256::new();
    d.update(s.staged.iter().rev().copied().collect::<Vec<u8>>());
    d.update(&s.aux);
    d.update(&s.coinbase_aux);
    i.bits(&d.finalize(), 256);
    i.f(&s.coinbase_hash);
    if legacy {
        i.f(&s.snarked);
        i.f(&s.genesis_ledger);
        i.n(s.next_token, 64);
        i.n(s.time, 64);
    } else {
        i.f(&s.genesis_ledger);
        i.f(&s.snarked);
        // the local state of a ledger proof in which nothing is under way
        i.0.push(BigUint::from_str_radix("02F99BCFB0AA7F48C1888DA5A67196A2410FB084CD2DB1AF5216C5122AEBC054", 16).unwrap());
        (0..3).for_each(|_| i.0.push(0u8.into()));
        i.0.push(1u8.into());
        i.n(0u8, 64);
        i.n(1u8, 1);
        i.f(&json::un58("jw6bz2wud1N6itRUHZ5ypo3267stk4UgzkiuWtAMPRZo9g4Udyd", 5).unwrap()[1..].try_into().unwrap());
        i.n(0u8, 32);
        i.n(1u8, 1);
        i.n(s.time, 64);
        i.bits(&s.body_ref, 256);
    }
    for x in [s.len, s.epoch_count, s.mwd].iter().chain(&s.swd) {
        i.n(*x, 32);
    }
    i.bits(&s.vrf, (s.vrf.len() * 8).min(253));
    i.n(s.currency, 64);
    for x in [s.slot, s.spe, s.slot_genesis] {
        i.n(x, 32);
    }
    i.n(s.ancestor as u8, 1);
    i.n(s.supercharge as u8, 1);
    for e in &s.epochs {
        i.f(&e.seed);
        i.f(&e.start);
        i.n(e.length, 32);
        i.f(&e.ledger);
        i.n(e.currency, 64);
        i.f(&e.lock);
    }
    for (x, odd) in &s.keys {
        i.f(x);
        i.n(*odd as u8, 1);
    }
    let body = i.hash(legacy, "CodaProtoStateBody");
    let mut i = In::default();
    i.f(&s.prev);
    i.f(&le(&body));
    le(&i.hash(legacy, "CodaProtoState"))
}
/// what Mina leaves out of the hash, too
fn essence(s: &St) -> St {
    let mut s = s.clone();
    s.vrf.truncate(32);
    if let Some(b) = s.vrf.get_mut(31) {
        *b &= 0x1f;
    }
    s.aux.append(&mut s.coinbase_aux);
    s
}

// ---------------------------------------------------------------- as a mainnet block carries it
fn pk(k: &Key) -> PublicKeyV1 {
    PublicKeyV1(CompressedCurvePoint { x: k.0, is_odd: k.1 }.into())
}
fn wire(s: &St) -> ProtocolStateV1 {
    let mut w = MAINNET.with(|m| m[0].t.protocol_state.clone());
    let p = &mut w.t.t;
    p.previous_state_hash.t = s.prev;
    let p = &mut p.body.t.t;
    p.genesis_state_hash.t = s.genesis;
    let b = &mut p.blockchain_state.t.t;
    b.snarked_ledger_hash.t = s.snarked;
    b.genesis_ledger_hash.t = s.genesis_ledger;
    b.snarked_next_available_token.t.t.t = s.next_token;
    b.timestamp.t.t = s.time;
    let b = &mut b.staged_ledger_hash.t.t;
    b.pending_coinbase_hash.t.t = s.coinbase_hash;
    let b = &mut b.non_snark.t;
    b.ledger_hash.t = s.staged;
    b.aux_hash.t.0 = s.aux.clone();
    b.pending_coinbase_aux.t.0 = s.coinbase_aux.clone();
    let c = &mut p.constants.t.t;
    [c.k.t.t, c.slots_per_epoch.t.t, c.slots_per_sub_window.t.t, c.delta.t.t] = s.constants;
    c.genesis_state_timestamp.t.t = s.genesis_time;
    let c = &mut p.consensus_state.t.t;
    [c.blockchain_length.t.t, c.epoch_count.t.t, c.min_window_density.t.t] = [s.len, s.epoch_count, s.mwd];
    c.sub_window_densities = s.swd.iter().map(|n| (*n).into()).collect();
    c.last_vrf_output.t.0 = s.vrf.clone();
    c.total_currency.t.t = s.currency;
    c.curr_global_slot.t.t.slot_number.t.t = s.slot;
    c.curr_global_slot.t.t.slots_per_epoch.t.t = s.spe;
    c.global_slot_since_genesis.t.t = s.slot_genesis;
    c.has_ancestor_in_same_checkpoint_window = s.ancestor;
    c.supercharge_coinbase = s.supercharge;
    for (x, e) in [&mut c.staking_epoch_data, &mut c.next_epoch_data].into_iter().zip(&s.epochs) {
        let x: &mut EpochDataV1 = x;
        let x = &mut x.t.t;
        x.ledger.t.t.hash.t = e.ledger;
        x.ledger.t.t.total_currency.t.t = e.currency;
        x.seed.t = e.seed;
        x.start_checkpoint.t = e.start;
        x.lock_checkpoint.t = e.lock;
        x.epoch_length.t.t = e.length;
    }
    for (x, k) in [&mut c.block_stake_winner, &mut c.block_creator, &mut c.coinbase_receiver].into_iter().zip(&s.keys) {
        *x = pk(k);
    }
    w
}
fn unwire(w: &ProtocolStateV1) -> St {
    let p = &w.t.t;
    let y = &p.body.t.t;
    let b = &y.blockchain_state.t.t;
    let g = &b.staged_ledger_hash.t.t;
    let c = &y.consensus_state.t.t;
    let k = &y.constants.t.t;
    let epoch = |x: &EpochDataV1| {
        let x = &x.t.t;
        Epoch { ledger: x.ledger.t.t.hash.t, currency: x.ledger.t.t.total_currency.t.t, seed: x.seed.t, start: x.start_checkpoint.t, lock: x.lock_checkpoint.t, length: x.epoch_length.t.t }
    };
    let key = |k: &PublicKeyV1| (k.0.t.t.x, k.0.t.t.is_odd);
    St {
        prev: p.previous_state_hash.t,
        genesis: y.genesis_state_hash.t,
        staged: g.non_snark.t.ledger_hash.t,
        aux: g.non_snark.t.aux_hash.t.0.clone(),
        coinbase_aux: g.non_snark.t.pending_coinbase_aux.t.0.clone(),
        coinbase_hash: g.pending_coinbase_hash.t.t,
        snarked: b.snarked_ledger_hash.t,
        genesis_ledger: b.genesis_ledger_hash.t,
        next_token: b.snarked_next_available_token.t.t.t,
        time: b.timestamp.t.t,
        body_ref: [0; 32],
        len: c.blockchain_length.t.t,
        epoch_count: c.epoch_count.t.t,
        mwd: c.min_window_density.t.t,
        swd: c.sub_window_densities.iter().map(|n| n.t.t).collect(),
        vrf: c.last_vrf_output.t.0.clone(),
        currency: c.total_currency.t.t,
        slot: c.curr_global_slot.t.t.slot_number.t.t,
        spe: c.curr_global_slot.t.t.slots_per_epoch.t.t,
        slot_genesis: c.global_slot_since_genesis.t.t,
        ancestor: c.has_ancestor_in_same_checkpoint_window,
        supercharge: c.supercharge_coinbase,
        epochs: [epoch(&c.staking_epoch_data), epoch(&c.next_epoch_data)],
        keys: [key(&c.block_stake_winner), key(&c.block_creator), key(&c.coinbase_receiver)],
        constants: [k.k.t.t, k.slots_per_epoch.t.t, k.slots_per_sub_window.t.t, k.delta.t.t],
        genesis_time: k.genesis_state_timestamp.t.t,
    }
}
thread_local! {
    static MAINNET: Vec<ExternalTransitionV1> = blocks::FIXTURES.iter().map(|n| blocks::decode(&blocks::fixture_bytes(n)).unwrap()).collect();
}

// ---------------------------------------------------------------- as a berkeley node's GraphQL service shows it
fn h58(v: u8, h: &H) -> String {
    json::b58(v, &[&[1][..], h].concat())
}
fn key58(k: &Key) -> String {
    json::b58(0xcb, &[&[1, 1][..], &k.0, &[k.1 as u8]].concat())
}
fn graphql(s: &St) -> Value {
    let epoch = |e: &Epoch| json!({
        "epochLength": e.length.to_string(), "lockCheckpoint": h58(0x10, &e.lock), "seed": h58(0x0d, &e.seed), "startCheckpoint": h58(0x10, &e.start),
        "ledger": {"hash": h58(5, &e.ledger), "totalCurrency": e.currency.to_string()},
    });
    json!({
        "previousStateHash": h58(0x10, &s.prev),
        "consensusState": {
            "blockStakeWinner": key58(&s.keys[0]), "blockCreator": key58(&s.keys[1]), "coinbaseReceiever": key58(&s.keys[2]),
            "blockHeight": s.len.to_string(), "blockchainLength": s.len.to_string(),
            "epoch": (s.slot / 7140).to_string(), "slot": (s.slot % 7140).to_string(), "slotSinceGenesis": s.slot_genesis.to_string(),
            "epochCount": s.epoch_count.to_string(), "minWindowDensity": s.mwd.to_string(),
            "hasAncestorInSameCheckpointWindow": s.ancestor, "superchargedCoinbase": s.supercharge,
            "lastVrfOutput": json::b58(0x15, &[&[s.vrf.len() as u8][..], &s.vrf].concat()),
            "totalCurrency": s.currency.to_string(),
            "stakingEpochData": epoch(&s.epochs[0]), "nextEpochData": epoch(&s.epochs[1]),
        },
        "blockchainState": {
            "bodyReference": simcore::hex(&s.body_ref), "date": "1", "utcDate": s.time.to_string(), "stagedLedgerProofEmitted": false,
            "snarkedLedgerHash": h58(5, &s.snarked), "genesisLedgerHash": h58(5, &s.genesis_ledger),
            "stagedLedgerHash": h58(5, &s.staged), "stagedLedgerAuxHash": json::b58(0x0e, &s.aux),
            "stagedLedgerPendingCoinbaseAux": json::b58(0x0f, &s.coinbase_aux), "stagedLedgerPendingCoinbaseHash": h58(0x0c, &s.coinbase_hash),
        },
    })
}
fn of_hash<T: Clone>(h: &T) -> H
where
    HashV1: From<T>,
{
    HashV1::from(h.clone()).t
}
fn view(p: &ProtocolState) -> St {
    let (b, c, k) = (&p.body.blockchain_state, &p.body.consensus_state, &p.body.constants);
    let g = &b.staged_ledger_hash;
    let epoch = |x: &EpochData| Epoch { ledger: of_hash(&x.ledger.hash), currency: x.ledger.total_currency.0, seed: of_hash(&x.seed), start: of_hash(&x.start_checkpoint), lock: of_hash(&x.lock_checkpoint), length: x.epoch_length.0 };
    let key = |k: &CompressedPubKey| (le(&k.x), k.is_odd);
    St {
        prev: of_hash(&p.previous_state_hash),
        genesis: of_hash(&p.body.genesis_state_hash),
        staged: of_hash(&g.non_snark.ledger_hash),
        aux: g.non_snark.aux_hash.0.clone(),
        coinbase_aux: g.non_snark.pending_coinbase_aux.0.clone(),
        coinbase_hash: of_hash(&g.pending_coinbase_hash),
        snarked: of_hash(&b.registers.ledger),
        genesis_ledger: of_hash(&b.genesis_ledger_hash),
        next_token: 0,
        time: b.timestamp.0,
        body_ref: b.body_reference.0,
        len: c.blockchain_length.0,
        epoch_count: c.epoch_count.0,
        mwd: c.min_window_density.0,
        swd: c.sub_window_densities.iter().map(|n| n.0).collect(),
        vrf: c.last_vrf_output.0.clone(),
        currency: c.total_currency.0,
        slot: c.curr_global_slot.slot_number.0,
        spe: c.curr_global_slot.slots_per_epoch.0,
        slot_genesis: c.global_slot_since_genesis.0,
        ancestor: c.has_ancestor_in_same_checkpoint_window,
        supercharge: c.supercharge_coinbase,
        epochs: [epoch(&c.staking_epoch_data), epoch(&c.next_epoch_data)],
        keys: [key(&c.block_stake_winner), key(&c.block_creator), key(&c.coinbase_receiver)],
        constants: [k.k.0, k.slots_per_epoch.0, k.slots_per_sub_window.0, k.delta.0],
        genesis_time: k.genesis_state_timestamp.0,
    }
}
/// what every berkeley block has in common, as the recorded genesis block has it
const BERKELEY_GENESIS: &str = r#"{"previousStateHash":"3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf","consensusState":{"blockCreator":"B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg","blockHeight":"1","blockStakeWinner":"B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg","blockchainLength":"1","coinbaseReceiever":"B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg","epoch":"0","epochCount":"0","hasAncestorInSameCheckpointWindow":true,"lastVrfOutput":"48FthHHNE1y3YmoS4UvKaM6UyGd9nCJXTPVFQUGak7YtonTDUuEd","minWindowDensity":"77","slot":"0","slotSinceGenesis":"0","superchargedCoinbase":true,"totalCurrency":"1013238001000001000","nextEpochData":{"epochLength":"2","lockCheckpoint":"3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf","seed":"2vc1zQHJx2xN72vaR4YDH31KwFSr5WHSEH2dzcfcq8jxBPcGiJJA","startCheckpoint":"3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x","ledger":{"hash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4","totalCurrency":"1013238001000001000"}},"stakingEpochData":{"epochLength":"1","lockCheckpoint":"3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x","seed":"2va9BGv9JrLTtrzZttiEMDYw1Zj6a6EHzXjmP9evHDTG3oEquURA","startCheckpoint":"3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x","ledger":{"hash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4","totalCurrency":"1013238001000001000"}}},"blockchainState":{"bodyReference":"36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421","date":"1655755201000","snarkedLedgerHash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4","stagedLedgerAuxHash":"UDRUFHSvxUAtV8sh7gzMVPqpbd46roG1wzWR6dYvB6RunPihom","stagedLedgerHash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4","stagedLedgerPendingCoinbaseHash":"2n27mUhCEctJbiZQdrk3kxYc7DVHvJVDErjXrjNs7jnP3HMLKtuN","stagedLedgerPendingCoinbaseAux":"WAAeUjUnP9Q2JiabhJzJozcjiEmkZe8ob4cfFKSuq6pQSNmHh7","stagedLedgerProofEmitted":false,"utcDate":"1655755201000","genesisLedgerHash":"jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4"}}"#;
fn berkeley_genesis() -> St {
    let v: Value = serde_json::from_str(BERKELEY_GENESIS).unwrap();
    let s = |p: &str| v.pointer(p).unwrap().as_str().unwrap();
    let n = |p: &str| s(p).parse::<u64>().unwrap();
    let h = |p: &str, x: u8| -> H { json::un58(s(p), x).unwrap()[1..].try_into().unwrap() };
    let key = |p: &str| -> Key {
        let b = json::un58(s(p), 0xcb).unwrap();
        (b[2..34].try_into().unwrap(), b[34] == 1)
    };
    let c = |k: &str| format!("/consensusState/{k}");
    let b = |k: &str| format!("/blockchainState/{k}");
    let epoch = |e: &str| {
        let p = |k: &str| format!("/consensusState/{e}/{k}");
        Epoch { ledger: h(&p("ledger/hash"), 5), currency: n(&p("ledger/totalCurrency")), seed: h(&p("seed"), 0x0d), start: h(&p("startCheckpoint"), 0x10), lock: h(&p("lockCheckpoint"), 0x10), length: n(&p("epochLength")) as u32 }
    };
    St {
        prev: h("/previousStateHash", 0x10),
        genesis: h("/previousStateHash", 0x10),
        staged: h(&b("stagedLedgerHash"), 5),
        aux: json::un58(s(&b("stagedLedgerAuxHash")), 0x0e).unwrap(),
        coinbase_aux: json::un58(s(&b("stagedLedgerPendingCoinbaseAux")), 0x0f).unwrap(),
        coinbase_hash: h(&b("stagedLedgerPendingCoinbaseHash"), 0x0c),
        snarked: h(&b("snarkedLedgerHash"), 5),
        genesis_ledger: h(&b("genesisLedgerHash"), 5),
        next_token: 0,
        time: n(&b("utcDate")),
        body_ref: hex::decode(s(&b("bodyReference"))).unwrap().try_into().unwrap(),
        len: 1,
        epoch_count: 0,
        mwd: 77,
        swd: [vec![1], vec![7; 10]].concat(),
        vrf: json::un58(s(&c("lastVrfOutput")), 0x15).unwrap()[1..].to_vec(),
        currency: n(&c("totalCurrency")),
        slot: 0,
        spe: 7140,
        slot_genesis: 0,
        ancestor: true,
        supercharge: true,
        epochs: [epoch("stakingEpochData"), epoch("nextEpochData")],
        keys: [key(&c("blockStakeWinner")), key(&c("blockCreator")), key(&c("coinbaseReceiever"))],
        constants: [290, 7140, 7, 0],
        genesis_time: 1655755201000,
    }
}

// ---------------------------------------------------------------- what may change
fn n32(ctx: &mut Ctx) -> u32 {
    match ctx.tape.draw(8) {
        7 => ctx.tape.draw64() as u32,
        k => [0, 1, 7, 77, 7139, i32::MAX as u32, u32::MAX][k as usize],
    }
}
fn n64(ctx: &mut Ctx) -> u64 {
    match ctx.tape.draw(8) {
        7 => ctx.tape.draw64() >> 1,
        k => [0, 1, 1 << 31, u32::MAX as u64, 1 << 40, 1 << 62, i64::MAX as u64][k as usize],
    }
}
fn h32(ctx: &mut Ctx) -> H {
    let mut b = [0; 32];
    for x in b.chunks_mut(8) {
        x.copy_from_slice(&ctx.tape.draw64().to_le_bytes());
    }
    b[31] &= 0x3f;
    b
}
fn flip(ctx: &mut Ctx, h: &mut H, bits: u64) {
    let k = ctx.tape.draw(bits) as usize;
    h[k / 8] ^= 1 << (k % 8);
    if Fp::from_bytes(h).is_err() {
        h[k / 8] ^= 1 << (k % 8);
        h[0] ^= 1;
    }
}
/// one thing about the state is different
fn change(ctx: &mut Ctx, s: &mut St, legacy: bool) -> &'static str {
    let old = s.clone();
    let what = loop {
        let w = change_(ctx, s, legacy);
        if *s != old {
            break w;
        }
    };
    what
}
fn change_(ctx: &mut Ctx, s: &mut St, legacy: bool) -> &'static str {
    let bit32 = |ctx: &mut Ctx| 1u32 << ctx.tape.draw(32);
    let bit64 = |ctx: &mut Ctx| 1u64 << ctx.tape.draw(63);
    match ctx.tape.draw(29) {
        0 => {
            flip(ctx, &mut s.prev, 254);
            "previous"
        }
        1 if legacy => {
            flip(ctx, &mut s.genesis, 254);
            "genesis"
        }
        2 => {
            flip(ctx, &mut s.staged, 254);
            "staged ledger"
        }
        3 => {
            let k = ctx.tape.draw(s.aux.len() as u64) as usize;
            s.aux[k] ^= 1 << ctx.tape.draw(8);
            "aux"
        }
        4 => {
            let k = ctx.tape.draw(s.coinbase_aux.len() as u64) as usize;
            s.coinbase_aux[k] ^= 1 << ctx.tape.draw(8);
            "coinbase aux"
        }
        5 => {
            flip(ctx, &mut s.coinbase_hash, 254);
            "coinbase hash"
        }
        6 => {
            flip(ctx, &mut s.snarked, 254);
            "snarked ledger"
        }
        7 => {
            flip(ctx, &mut s.genesis_ledger, 254);
            "genesis ledger"
        }
        8 if legacy => {
            s.next_token ^= bit64(ctx);
            "token"
        }
        9 => {
            s.time ^= bit64(ctx);
            "time"
        }
        10 if !legacy => {
            let k = ctx.tape.draw(256) as usize;
            s.body_ref[k / 8] ^= 1 << (k % 8);
            "body reference"
        }
        11 => {
            s.len ^= bit32(ctx);
            "length"
        }
        12 => {
            s.epoch_count ^= bit32(ctx);
            "epoch count"
        }
        13 => {
            s.mwd ^= bit32(ctx);
            "minimum density"
        }
        14 if legacy => {
            match ctx.tape.draw(4) {
                0 => {
                    s.swd.pop();
                }
                1 => s.swd.push(n32(ctx)),
                2 if s.swd.len() > 1 => {
                    let k = ctx.tape.draw(s.swd.len() as u64) as usize;
                    s.swd.swap(0, k);
                }
                _ if !s.swd.is_empty() => {
                    let k = ctx.tape.draw(s.swd.len() as u64) as usize;
                    s.swd[k] ^= bit32(ctx);
                }
                _ => {}
            }
            "densities"
        }
        15 => {
            let k = ctx.tape.draw((s.vrf.len() as u64 * 8).min(256)) as usize;
            s.vrf[k / 8] ^= 1 << (k % 8);
            "vrf"
        }
        16 => {
            s.currency ^= bit64(ctx);
            "currency"
        }
        17 => {
            s.slot ^= bit32(ctx);
            "slot"
        }
        18 if legacy => {
            s.spe ^= bit32(ctx);
            "slots per epoch"
        }
        19 => {
            s.slot_genesis ^= bit32(ctx);
            "slot since genesis"
        }
        20 => {
            s.ancestor = !s.ancestor;
            "ancestor"
        }
        21 => {
            s.supercharge = !s.supercharge;
            "supercharge"
        }
        22 => {
            s.epochs.swap(0, 1);
            "epochs exchanged"
        }
        23 | 24 => {
            let e = &mut s.epochs[ctx.tape.draw(2) as usize];
            match ctx.tape.draw(7) {
                0 => flip(ctx, &mut e.ledger, 254),
                1 => e.currency ^= bit64(ctx),
                2 => flip(ctx, &mut e.seed, 254),
                3 => flip(ctx, &mut e.start, 254),
                4 => flip(ctx, &mut e.lock, 254),
                5 => e.length ^= bit32(ctx),
                _ => std::mem::swap(&mut e.start, &mut e.lock),
            }
            "epoch data"
        }
        25 => {
            let k = ctx.tape.draw(3) as usize;
            match ctx.tape.draw(3) {
                0 => s.keys.swap(k, 0),
                1 => s.keys[k].1 = !s.keys[k].1,
                _ => flip(ctx, &mut s.keys[k].0, 254),
            }
            "key"
        }
        26 if legacy => {
            let (k, b) = (ctx.tape.draw(4) as usize, bit32(ctx));
            s.constants[k] ^= b;
            "constant"
        }
        27 if legacy => {
            s.genesis_time ^= bit64(ctx);
            "genesis time"
        }
        28 => {
            match ctx.tape.draw(3) {
                0 => std::mem::swap(&mut s.genesis_ledger, &mut s.snarked),
                1 => std::mem::swap(&mut s.staged, &mut s.snarked),
                _ => std::mem::swap(&mut s.aux, &mut s.coinbase_aux),
            }
            "ledger hashes exchanged"
        }
        _ => "",
    }
}
fn next(ctx: &mut Ctx, parent: &St, legacy: bool) -> St {
    let mut s = parent.clone();
    s.prev = hash(parent, legacy);
    s.len = parent.len.saturating_add(1);
    if ctx.tape.chance(1, 2) {
        for h in [&mut s.staged, &mut s.snarked, &mut s.coinbase_hash] {
            *h = h32(ctx);
        }
        s.vrf = h32(ctx).to_vec();
        s.vrf[31] &= 0x1f;
        s.aux = h32(ctx).to_vec();
        s.coinbase_aux = h32(ctx).to_vec();
        s.body_ref = if legacy { [0; 32] } else { h32(ctx) };
    }
    if ctx.tape.chance(1, 2) {
        s.slot = n32(ctx);
        s.slot_genesis = n32(ctx);
        s.epoch_count = n32(ctx);
        s.mwd = n32(ctx);
        s.currency = n64(ctx);
        s.time = n64(ctx);
        if legacy {
            s.next_token = n64(ctx);
            s.swd.rotate_left(1);
        }
    }
    if ctx.tape.chance(1, 3) {
        for k in &mut s.keys {
            *k = (h32(ctx), ctx.tape.chance(1, 2));
        }
    }
    if ctx.tape.chance(1, 3) {
        for e in &mut s.epochs {
            *e = Epoch { ledger: h32(ctx), currency: n64(ctx), seed: h32(ctx), start: h32(ctx), lock: h32(ctx), length: n32(ctx) };
        }
    }
    for _ in 0..ctx.tape.draw(3) {
        let prev = s.prev;
        change(ctx, &mut s, legacy);
        s.prev = prev;
    }
    s
}

// ---------------------------------------------------------------- a client that follows hashes backwards
#[derive(Clone)]
enum Form {
    Wire(Vec<u8>),
    Json(String),
}
#[derive(Clone)]
struct Msg {
    form: Form,
    /// what it says, if that is known
    says: Option<Rc<St>>,
}
fn form(ctx: &mut Ctx, s: &St, legacy: bool) -> Form {
    if !legacy {
        return Form::Json(graphql(s).to_string());
    }
    let mut w = wire(s);
    if ctx.tape.chance(1, 3) {
        let mut v = Value::Null;
        json::J::writer(String::new(), Value::Null).state(&mut v, &mut w).expect("state as JSON");
        return Form::Json(v.to_string());
    }
    let mut b = vec![];
    bin_prot::to_writer(&mut b, &w).unwrap();
    Form::Wire(b)
}
/// what the client makes of it: the state, its hash as text and as a number
fn read(f: &Form, legacy: bool) -> Option<(St, String, H, H)> {
    match f {
        Form::Wire(_) | Form::Json(_) if legacy => {
            let p: ProtocolStateLegacy = match f {
                Form::Wire(b) => bin_prot::from_reader_strict::<_, ProtocolStateV1>(&b[..]).ok()?.into(),
                Form::Json(t) => serde_json::from_str::<ProtocolStateJson>(t).ok()?.into(),
            };
            let h = p.state_hash();
            Some((unwire(&p.clone().into()), h.to_string(), le(&p.state_hash_fp()), of_hash(&h)))
        }
        Form::Json(t) => {
            let p = ProtocolState::from_graphql_json(&serde_json::from_str(t).ok()?).ok()?;
            let h = p.state_hash();
            Some((view(&p), h.to_string(), le(&p.state_hash_fp()), of_hash(&h)))
        }
        _ => unreachable!(),
    }
}
struct Client {
    legacy: bool,
    /// what survives a crash: the hash that is looked for, and what was found
    wants: String,
    found: Vec<St>,
    volatile: usize,
}
fn diff(a: &St, b: &St) -> String {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    let k = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(0).saturating_sub(40);
    format!("...{:.160} and ...{:.160}", &x[k..], &y[k..])
}
impl Client {
    fn take(&mut self, ctx: &mut Ctx, m: &Msg, chain: &[St]) -> Outcome {
        let fail = |class: &str, d: String| Err(Violation::new(class, d));
        let got = match catch_unwind(AssertUnwindSafe(|| read(&m.form, self.legacy))) {
            Ok(g) => g,
            Err(e) => {
                // bytes that nobody wrote may hold a hash that is none, which has no hash
                if m.says.is_none() {
                    ctx.probe("odd-hash");
                    return Ok(());
                }
                return fail("client-panics", simcore::runner::panic_msg(&e));
            }
        };
        ctx.nontrivial = true;
        let Some((s, text, fp, h)) = got else {
            ctx.probe("unreadable");
            return match &m.says {
                Some(s) => fail("state-unreadable", format!("{s:?}")),
                None => Ok(()),
            };
        };
        if let Some(w) = &m.says {
            if **w != s {
                return fail("state-misread", format!("read and said: {}", diff(&s, w)));
            }
        }
        let want = hash(&s, self.legacy);
        if fp != want {
            return fail("wrong-state-hash", format!("{}, expected {}, of {s:?}", simcore::hex(&fp), simcore::hex(&want)));
        }
        if h != fp || text != h58(0x10, &fp) || text.parse::<StateHash>().ok().map(|x| of_hash(&x)) != Some(fp) {
            return fail("hash-misrepresented", format!("{} as {text} and {}", simcore::hex(&fp), simcore::hex(&h)));
        }
        let k = chain.len() - 1 - self.found.len().min(chain.len() - 1);
        if text != self.wants {
            ctx.probe("refused");
            if self.found.len() < chain.len() && m.says.as_ref().is_some_and(|s| **s == chain[k]) {
                return fail("genuine-state-refused", format!("{text}, wanted {}", self.wants));
            }
            return Ok(());
        }
        ctx.probe("accepted");
        if self.found.len() >= chain.len() || essence(&s) != essence(&chain[k]) {
            return fail("forged-state-accepted", format!("as state {k}: {}", diff(&s, &chain[k])));
        }
        if s != chain[k] {
            ctx.probe("differs-in-what-is-not-hashed");
        }
        self.wants = h58(0x10, &s.prev);
        self.found.push(s);
        Ok(())
    }
}

/// the genesis blocks that the code knows are those recorded
fn genesis() -> Outcome {
    let et = ExternalTransition::from_genesis_config(&MAINNET_CONFIG);
    let got = blocks::encode(&et.clone().into());
    let want = blocks::fixture_bytes(blocks::FIXTURES[0]);
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b);
        return Err(Violation::new("other-genesis-block", format!("mainnet, at byte {k:?} of {} and {}", got.len(), want.len())));
    }
    let s = view(ProtocolState::berkeley());
    if s != berkeley_genesis() {
        return Err(Violation::new("other-genesis-block", format!("berkeley: {}", diff(&s, &berkeley_genesis()))));
    }
    for (h, legacy, s) in [(et.protocol_state.state_hash_fp(), true, unwire(&et.protocol_state.clone().into())), (ProtocolState::berkeley().state_hash_fp(), false, s)] {
        if le(&h) != hash(&s, legacy) {
            return Err(Violation::new("wrong-state-hash", format!("of the genesis block, mainnet: {legacy}")));
        }
    }
    Ok(())
}

pub fn c20(ctx: &mut Ctx) -> Outcome {
    if ctx.tape.draw(50) == 0 {
        genesis()?;
        ctx.probe("genesis");
    }
    let legacy = ctx.tape.draw(2) == 0;
    let first = if !legacy {
        berkeley_genesis()
    } else {
        let k = ctx.tape.draw(blocks::FIXTURES.len() as u64) as usize;
        MAINNET.with(|m| unwire(&m[k].t.protocol_state))
    };
    let mut chain = vec![first];
    for _ in 0..ctx.tape.range(1, 6) {
        let s = next(ctx, chain.last().unwrap(), legacy);
        chain.push(s);
    }
    let tip = h58(0x10, &hash(chain.last().unwrap(), legacy));
    let mut c = Client { legacy, wants: tip.clone(), found: vec![], volatile: 0 };
    let mut stored = (tip, 0);
    let mut flying: Vec<Msg> = vec![];
    for _ in 0..ctx.tape.range(4, 30) {
        match ctx.tape.draw(10) {
            0..=5 => {
                // some service answers: what it was asked for or another state, as it is or not
                let k = if ctx.tape.chance(2, 3) { chain.len() - 1 - c.found.len().min(chain.len() - 1) } else { ctx.tape.draw(chain.len() as u64) as usize };
                let mut s = chain[k].clone();
                let mut what = "";
                let lies = ctx.tape.chance(1, 2);
                if lies {
                    ctx.fault("service-lies");
                    what = change(ctx, &mut s, legacy);
                }
                let mut m = Msg { form: form(ctx, &s, legacy), says: Some(Rc::new(s)) };
                if ctx.tape.chance(1, 8) {
                    ctx.fault("message-damaged");
                    m.says = None;
                    what = "damaged";
                    match &mut m.form {
                        Form::Wire(b) => match ctx.tape.draw(3) {
                            0 => b.truncate(ctx.tape.draw(b.len() as u64) as usize),
                            1 => b.push(ctx.tape.draw(256) as u8),
                            _ => {
                                let k = ctx.tape.draw(b.len() as u64 * 8) as usize;
                                b[k / 8] ^= 1 << (k % 8);
                            }
                        },
                        Form::Json(t) => {
                            let k = ctx.tape.draw(t.len() as u64) as usize;
                            match ctx.tape.draw(2) {
                                0 => t.truncate(k),
                                _ => t.replace_range(k..k + 1, ["2", "Q", "9", "\"", "-"][ctx.tape.draw(5) as usize]),
                            }
                        }
                    }
                }
                ctx.event(|| format!("sends state {k} {what}"));
                flying.push(m);
            }
            6 => {
                ctx.fault("client-crash");
                c.wants = stored.0.clone();
                c.found.truncate(stored.1);
                c.volatile = 0;
                ctx.event(|| format!("client restarts with {} states", stored.1));
            }
            7 => stored = (c.wants.clone(), c.found.len()),
            _ if !flying.is_empty() => {
                let k = ctx.tape.draw(flying.len() as u64) as usize;
                match ctx.tape.draw(6) {
                    0 => {
                        ctx.fault("message-lost");
                        flying.swap_remove(k);
                    }
                    1 => {
                        ctx.fault("message-duplicated");
                        let m = flying[k].clone();
                        c.take(ctx, &m, &chain)?;
                    }
                    _ => {
                        let m = flying.swap_remove(k);
                        c.take(ctx, &m, &chain)?;
                    }
                }
                ctx.event(|| format!("client has {} states", c.found.len()));
            }
            _ => {}
        }
    }
    // the faults stop
    while c.found.len() < chain.len() {
        let n = c.found.len();
        let s = chain[chain.len() - 1 - n].clone();
        let m = Msg { form: form(ctx, &s, legacy), says: Some(Rc::new(s)) };
        c.take(ctx, &m, &chain)?;
        if c.found.len() == n {
            return Err(Violation::new("history-not-found", format!("stuck at {}", c.wants)));
        }
    }
    Ok(())
}
