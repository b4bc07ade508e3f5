//! C15: wallets sign commands, producers put them into blocks, links and producers change them; a node
//! adopts a block only if every command in it is signed by its signer over exactly what it says.
use crate::blocks;
use crate::c14::{self, *};
use crate::exec::*;
use crate::fork::Info;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::signed_command::builder::SignedTransferCommandBuilder;
use mina_rs_base::user_commands::{SignedCommand, SignedCommandMemo};
use mina_serialization_types::staged_ledger_diff as wire;
use mina_serialization_types::v1::ExternalTransitionV1;
use proof_systems::mina_hasher::{Fp, ROInput};
use proof_systems::mina_signer::{self, CompressedPubKey, Keypair, NetworkId};
use proof_systems::o1_utils::FieldHelpers;
use simcore::{Ctx, Outcome, Violation};
use std::cell::RefCell;
use std::rc::Rc;

type Key = ([u8; 32], bool);
/// What a command says, read off the wire
#[derive(Clone, Debug, PartialEq)]
pub struct Says {
    fee: u64,
    fee_token: u64,
    payer: Key,
    nonce: u32,
    valid_until: u32,
    memo: Vec<u8>,
    delegation: bool,
    source: Key,
    receiver: Key,
    token: u64,
    amount: u64,
}
fn key1(k: &mina_serialization_types::signatures::PublicKeyV1) -> Key {
    (k.0.t.t.x, k.0.t.t.is_odd)
}
pub fn says(c: &wire::SignedCommand) -> Says {
    let p = &c.payload.t.t;
    let m = &p.common.t.t.t;
    let (delegation, source, receiver, token, amount) = match &p.body.t.t {
        wire::SignedCommandPayloadBody::PaymentPayload(b) => {
            let b = &b.t.t;
            (false, key1(&b.source_pk), key1(&b.receiver_pk), b.token_id.t.t.t, b.amount.t.t)
        }
        wire::SignedCommandPayloadBody::StakeDelegation(b) => {
            let wire::StakeDelegation::SetDelegate { delegator, new_delegate } = &b.t;
            (true, key1(delegator), key1(new_delegate), 1, 0)
        }
    };
    Says {
        fee: m.fee.t.t,
        fee_token: m.fee_token.t.t.t,
        payer: key1(&m.fee_payer_pk),
        nonce: m.nonce.t.t as u32,
        valid_until: m.valid_until.t.t as u32,
        memo: m.memo.t.0.clone(),
        delegation,
        source,
        receiver,
        token,
        amount,
    }
}
/// The legacy random oracle input of a user command, from the Mina specification.
fn input(s: &Says) -> Option<ROInput> {
    let f = |k: &Key| Fp::from_bytes(&k.0).ok();
    let mut r = ROInput::new().append_field(f(&s.payer)?).append_field(f(&s.source)?).append_field(f(&s.receiver)?);
    r = r.append_bytes(&s.fee.to_le_bytes()).append_bytes(&s.fee_token.to_le_bytes()).append_bool(s.payer.1);
    r = r.append_bytes(&s.nonce.to_le_bytes()).append_bytes(&s.valid_until.to_le_bytes()).append_bytes(&s.memo);
    for b in [false, false, s.delegation, s.source.1, s.receiver.1] {
        r = r.append_bool(b);
    }
    Some(r.append_bytes(&s.token.to_le_bytes()).append_bytes(&s.amount.to_le_bytes()).append_bool(false))
}
fn domain(n: NetworkId) -> String {
    if n == NetworkId::MAINNET { "MinaSignatureMainnet" } else { "CodaSignature" }.into()
}
/// whether the command bears the signature its signer makes over what it says, on mainnet
pub fn signed(c: &wire::SignedCommand) -> bool {
    let k = &c.signer.0.t.0.t.t;
    let Ok(x) = Fp::from_bytes(&k.x) else { return false };
    if !mina_signer::on_curve(&x) {
        return false;
    }
    let Some(r) = input(&says(c)) else { return false };
    let want = mina_signer::mac(Some(domain(NetworkId::MAINNET)), &CompressedPubKey { x, is_odd: k.is_odd }, r);
    let (rx, s) = &c.signature.0.t.t;
    want.rx.to_bytes() == rx[..] && want.s.to_bytes() == s[..]
}
fn commands(b: &mut ExternalTransitionV1) -> Vec<&mut wire::UserCommandWithStatus> {
    let d = &mut b.t.staged_ledger_diff.t.diff.t;
    let second = d.1.as_mut().map(|x| &mut x.t.t.commands);
    d.0.t.t.commands.iter_mut().chain(second.into_iter().flatten()).map(|c| &mut c.t).collect()
}
fn cmd(c: &mut wire::UserCommandWithStatus) -> &mut wire::SignedCommand {
    let wire::UserCommand::SignedCommand(sc) = &mut c.data.t.t;
    &mut sc.t.t
}
pub fn all_signed(b: &mut ExternalTransitionV1) -> bool {
    commands(b).into_iter().all(|c| signed(cmd(c)))
}

thread_local! {
    static KEYS: Vec<Keypair> = ["164244176fddb5d769b7de2027469d027ad428fadcc0c02396e6280142efb718", "3414fc16e86e6ac272fda03cf8dcb4d7d47af91b4b726494dab43bf773ce1779", "264244176fddb5d769b7de2027469d027ad428fadcc0c02396e6280142efb718"].iter().map(|h| Keypair::from_hex(h).unwrap()).collect();
    static TEMPLATES: Vec<ExternalTransitionV1> = blocks::FIXTURES[..6].iter().map(|n| { let mut b = blocks::decode(&blocks::fixture_bytes(n)).unwrap(); blocks::resign(&mut b); b }).collect();
    /// commands with their status, from the fixtures
    static REAL: Vec<wire::UserCommandWithStatusV1> = TEMPLATES.with(|t| t.iter().flat_map(|b| {
        let d = &b.t.staged_ledger_diff.t.diff.t;
        d.0.t.t.commands.iter().chain(d.1.iter().flat_map(|x| x.t.t.commands.iter())).cloned().collect::<Vec<_>>()
    }).collect());
    static BROKEN: RefCell<Option<Violation>> = const { RefCell::new(None) };
}
fn broken(v: Violation) {
    BROKEN.with(|b| {
        b.borrow_mut().get_or_insert(v);
    })
}
fn kp(i: u64) -> Keypair {
    KEYS.with(|k| k[i as usize % k.len()].clone())
}
fn of(k: &CompressedPubKey) -> Key {
    (k.x.to_bytes().try_into().unwrap(), k.is_odd)
}
const NUMBERS: [u64; 10] = [0, 1, 127, 128, 65536, 1 << 31, u32::MAX as u64, 1 << 40, 1 << 62, i64::MAX as u64];
fn n64(sim: &Sim) -> u64 {
    NUMBERS[sim.draw(10) as usize]
}
fn n32(sim: &Sim) -> u32 {
    [0, 1, 200, 65535, 1 << 30, i32::MAX as u32, 1 << 31, u32::MAX][sim.draw(8) as usize]
}
/// A wallet makes a command for this network.
fn wallet(sim: &Sim, net: NetworkId) -> wire::SignedCommand {
    let me = kp(sim.draw(3));
    let (a, b, c) = (me.public.into_compressed(), kp(sim.draw(3)).public.into_compressed(), kp(sim.draw(3)).public.into_compressed());
    let nonce = n32(sim);
    let valid_until = n32(sim);
    let text: Vec<u8> = (0..[0, 1, 5, 31, 32, 33][sim.draw(6) as usize]).map(|i| b"Hello Mina!"[i % 11]).collect();
    let memo = SignedCommandMemo::try_from_text(&text);
    let mut m = vec![1, text.len() as u8];
    m.extend(&text);
    m.resize(34, 0);
    match &memo {
        Ok(x) if text.len() <= 32 => {
            if x.to_text().as_bytes() != &text[..] {
                broken(Violation::new("memo-altered", format!("{text:?} reads {:?}", x.to_text())));
            }
        }
        Err(_) if text.len() > 32 => {}
        _ => broken(Violation::new("memo-altered", format!("a memo of {} bytes: {memo:?}", text.len()))),
    }
    let mut want = Says {
        fee: n64(sim),
        fee_token: 1,
        payer: of(&a),
        nonce,
        valid_until,
        memo: m,
        delegation: false,
        source: of(&a),
        receiver: of(&b),
        token: 1,
        amount: n64(sim),
    };
    let mut t = SignedTransferCommandBuilder::new(a.clone(), b.clone(), want.amount, want.fee, nonce);
    match memo {
        Ok(x) if sim.chance(3, 4) => t = t.memo(x),
        _ => want.memo = [&[1u8, 0][..], &[0; 32]].concat(),
    }
    if sim.chance(3, 4) {
        t = t.valid_until(valid_until);
    } else {
        want.valid_until = u32::MAX;
    }
    if sim.chance(1, 3) {
        want.fee_token = n64(sim);
        t = t.fee_token(want.fee_token);
    }
    if sim.chance(1, 3) {
        want.token = n64(sim);
        t = t.transfer_token(want.token);
    }
    if sim.chance(1, 4) {
        want.payer = of(&c);
        t = t.fee_payer(c.clone());
    }
    let mut p = t.build();
    if sim.chance(1, 10) {
        // a signer may put any bytes there
        sim.fault("odd-memo");
        let raw: Vec<u8> = match sim.draw(5) {
            0 => vec![],
            1 => vec![1],
            2 => vec![1, 200, 65],
            3 => [&[1u8, 255][..], &[0x41; 32]].concat(),
            _ => vec![0xff; 40],
        };
        p.common.memo = SignedCommandMemo(raw.clone());
        want.memo = raw;
    }
    if sim.chance(1, 3) {
        p.body = mina_rs_base::user_commands::SignedCommandPayloadBody::StakeDelegation(mina_rs_base::user_commands::signed_command::StakeDelegation::SetDelegate { delegator: a.clone(), new_delegate: b });
        (want.delegation, want.token, want.amount) = (true, 1, 0);
        sim.probe("delegation");
    }
    let domain = domain(net.clone());
    let c: wire::SignedCommand = if sim.chance(1, 2) { SignedCommand::from_payload(p, me, net) } else { p.into_signed_command(me, net) }.into();
    let got = says(&c);
    let sig = mina_signer::mac(Some(domain), &a, input(&want).unwrap());
    let s = &c.signature.0.t.t;
    let k = &c.signer.0.t.0.t.t;
    if got != want {
        broken(Violation::new("wallet-command-altered", format!("asked for {want:?}, the command says {got:?}")));
    } else if (k.x, k.is_odd) != of(&a) || sig.rx.to_bytes() != s.0[..] || sig.s.to_bytes() != s.1[..] {
        broken(Violation::new("wallet-signature-wrong", format!("over {want:?}")));
    }
    c
}
fn other_x(sim: &Sim, x: &mut [u8; 32]) {
    match sim.draw(5) {
        // the modulus of the base field and more: not an element
        0 => *x = [0xff; 32],
        1 => *x = [&[0, 0, 0, 0, 0xed, 0x30, 0x2d, 0x99, 0x1b, 0xf9, 0x4c, 0x09, 0xfc, 0x98, 0x46, 0x22][..], &[0; 15], &[0x40]].concat().try_into().map(|mut v: [u8; 32]| { v[0] = 1; v }).unwrap(),
        // an element, most likely not the x of any point half of the time
        2 => x[sim.draw(31) as usize] ^= 1 << sim.draw(8),
        3 => x[0] ^= 1,
        _ => *x = of(&kp(sim.draw(3)).public.into_compressed()).0,
    }
}
fn key_of(c: &mut wire::SignedCommand, which: u64) -> (&mut [u8; 32], &mut bool) {
    let p = &mut c.payload.t.t;
    let k = match which {
        0 => &mut p.common.t.t.t.fee_payer_pk,
        w => match &mut p.body.t.t {
            wire::SignedCommandPayloadBody::PaymentPayload(b) => if w == 1 { &mut b.t.t.source_pk } else { &mut b.t.t.receiver_pk },
            wire::SignedCommandPayloadBody::StakeDelegation(b) => {
                let wire::StakeDelegation::SetDelegate { delegator, new_delegate } = &mut b.t;
                if w == 1 { delegator } else { new_delegate }
            }
        },
    };
    (&mut k.0.t.t.x, &mut k.0.t.t.is_odd)
}
fn bit64(sim: &Sim, v: &mut u64) {
    // the codec cannot carry more than 63 bits: known finding of C07
    *v ^= 1 << sim.draw(63)
}
/// one thing about one command changes
pub fn change(sim: &Sim, b: &mut ExternalTransitionV1) {
    let mut cs = commands(b);
    let n = cs.len() as u64;
    if n == 0 {
        return;
    }
    let k = sim.draw(n) as usize;
    let l = sim.draw(n) as usize;
    let kind = sim.draw(20);
    if kind >= 17 && k != l {
        let mut y = cmd(cs[l]).clone();
        let x = cmd(cs[k]);
        match kind {
            17 => std::mem::swap(&mut x.signature, &mut y.signature),
            18 => std::mem::swap(&mut x.payload, &mut y.payload),
            _ => std::mem::swap(&mut x.signer, &mut y.signer),
        }
        *cmd(cs[l]) = y;
        return;
    }
    if kind == 16 {
        // not covered by any signature
        sim.probe("status-changed");
        let s = cs[l].status.clone();
        cs[k].status = s;
        return;
    }
    let c = cmd(cs[k]);
    let m = &mut c.payload.t.t.common.t.t.t;
    match kind {
        0 => bit64(sim, &mut m.fee.t.t),
        1 => bit64(sim, &mut m.fee_token.t.t.t),
        2 => m.nonce.t.t ^= 1 << sim.draw(32),
        3 => m.valid_until.t.t ^= 1 << sim.draw(32),
        4 => {
            let v = &mut m.memo.t.0;
            match sim.draw(4) {
                0 => v.push(0),
                1 => drop(v.pop()),
                2 => v.clear(),
                _ => {
                    let len = v.len().max(1) as u64;
                    let k = sim.draw(len) as usize;
                    if let Some(x) = v.get_mut(k) {
                        *x ^= 1 << sim.draw(8)
                    }
                }
            }
        }
        5 | 6 | 7 => *key_of(c, kind - 5).1 ^= true,
        8 => other_x(sim, key_of(c, sim.draw(3)).0),
        9 => match &mut c.payload.t.t.body.t.t {
            wire::SignedCommandPayloadBody::PaymentPayload(p) => bit64(sim, &mut p.t.t.amount.t.t),
            _ => *key_of(c, 2).1 ^= true,
        },
        10 => match &mut c.payload.t.t.body.t.t {
            wire::SignedCommandPayloadBody::PaymentPayload(p) => bit64(sim, &mut p.t.t.token_id.t.t.t),
            _ => *key_of(c, 1).1 ^= true,
        },
        11 => {
            // the other kind of command with the same parties
            let s = says(c);
            let pk = |k: Key| mina_serialization_types::signatures::PublicKeyV1(mina_serialization_types::signatures::CompressedCurvePoint { x: k.0, is_odd: k.1 }.into());
            c.payload.t.t.body = if s.delegation {
                wire::SignedCommandPayloadBody::PaymentPayload(wire::PaymentPayload { source_pk: pk(s.source), receiver_pk: pk(s.receiver), token_id: 1u64.into(), amount: 0u64.into() }.into()).into()
            } else {
                wire::SignedCommandPayloadBody::StakeDelegation(wire::StakeDelegation::SetDelegate { delegator: pk(s.source), new_delegate: pk(s.receiver) }.into()).into()
            };
        }
        12 => {
            let k = &mut c.signer.0.t.0.t.t;
            k.is_odd ^= true;
        }
        13 => other_x(sim, &mut c.signer.0.t.0.t.t.x),
        14 => {
            let s = &mut c.signature.0.t.t;
            let x = if sim.chance(1, 2) { &mut s.0 } else { &mut s.1 };
            match sim.draw(4) {
                0 => *x = [0xff; 32],
                1 => *x = [0; 32],
                _ => x[sim.draw(32) as usize] ^= 1 << sim.draw(8),
            }
        }
        _ => {
            // signed for the test network
            *c = wallet(sim, NetworkId::TESTNET);
        }
    }
}

/// a command that failed is in the block, too, and pays its fee
fn set_failed(sim: &Sim, s: &mut wire::TransactionStatus) {
    use wire::TransactionStatusFailedType as F;
    if let wire::TransactionStatus::Applied(_, b) = s {
        let why = [F::Predicate, F::Overflow, F::SourceInsufficientBalance, F::IncorrectNonce];
        let why = (0..sim.draw(3)).map(|_| why[sim.draw(4) as usize].clone().into()).collect();
        *s = wire::TransactionStatus::Failed(why, b.clone());
    }
}

/// fills a block with commands
pub fn compose(sim: &Sim, v: &mut ExternalTransitionV1) {
    let with_status = |sim: &Sim| {
        let mut c = REAL.with(|r| r[sim.draw(r.len() as u64) as usize].clone());
        if sim.chance(2, 3) {
            *cmd(&mut c.t) = wallet(sim, NetworkId::MAINNET);
        }
        if sim.chance(1, 3) {
            sim.probe("failed-command");
            set_failed(sim, &mut c.t.status.t);
        }
        c
    };
    let many = |sim: &Sim| -> Vec<_> { (0..sim.draw(5)).map(|_| with_status(sim)).collect() };
    let d = &mut v.t.staged_ledger_diff.t.diff.t;
    d.0.t.t.commands = many(sim);
    d.1 = sim.chance(1, 2).then(|| {
        let mut x = d.0.clone();
        x.t.t.commands = many(sim);
        x
    });
    if sim.chance(1, 6) {
        // a producer that breaks the rules
        sim.fault("dishonest-producer");
        change(sim, v);
    }
}

pub struct Wallets;
#[derive(Clone)]
pub struct Signed(pub Rc<Vec<u8>>);
impl TryFrom<Net<Wallets>> for ExternalTransition {
    type Error = String;
    fn try_from(m: Net<Wallets>) -> Result<Self, String> {
        m.begin();
        let v = blocks::decode(&m.msg.0).map_err(|e| m.unreadable(e))?;
        Ok(v.into())
    }
}
/// a hash of the header that is not an element of the field
const NO_HASH: &str = "hash-not-a-field-element";
impl Flavor for Wallets {
    type Msg = Signed;
    type Header = ProtocolStateLegacy;
    type Block = ExternalTransition;
    type Frontier = <Mainnet as Flavor>::Frontier;
    const NAME: &'static str = "wallets'";
    fn new_frontier() -> Self::Frontier {
        Mainnet::new_frontier()
    }
    fn chain(f: &Self::Frontier) -> &mina_consensus::common::ProtocolStateChain<ProtocolStateLegacy> {
        f.get_best_chain()
    }
    fn header(b: &ExternalTransition) -> ProtocolStateLegacy {
        b.protocol_state.clone()
    }
    fn extra(_: &Self::Frontier) -> String {
        String::new()
    }
    fn extra_of(_: &Signed) -> String {
        String::new()
    }
    fn read(b: &ExternalTransition) {
        // what an explorer shows of the block
        let d = &b.staged_ledger_diff.diff;
        for c in d.diff_two().commands.iter().chain(d.diff_one().iter().flat_map(|x| x.commands.iter())) {
            let mina_rs_base::user_commands::UserCommand::SignedCommand(c) = &c.data;
            let _ = c.payload.common.memo.to_text();
        }
    }
    fn make(sim: &Sim, i: &mut Info, _: Option<&Info>, _: u64) -> (Signed, Verdict) {
        let k = sim.draw(6) as usize;
        let mut v = TEMPLATES.with(|t| t[k].clone());
        let mut p: ProtocolStateLegacy = v.t.protocol_state.clone().into();
        set_consensus(&mut p.body.consensus_state, i);
        p.previous_state_hash = (&Fp::from(sim.draw(4))).into();
        i.hash = hash_be(&p.state_hash_fp());
        v.t.protocol_state = p.into();
        compose(sim, &mut v);
        let verdict = judge(sim, &mut v);
        (Signed(Rc::new(blocks::encode(&v))), verdict)
    }
    fn spoil(sim: &Sim, m: &Signed) -> (Signed, Verdict) {
        let Ok(mut v) = blocks::decode(&m.0) else { return (m.clone(), BAD) };
        match sim.draw(12) {
            0 => {
                let k = sim.draw(m.0.len() as u64) as usize;
                return (Signed(Rc::new(m.0[..k].to_vec())), BAD);
            }
            1 => {
                let mut b = (*m.0).clone();
                b.extend((0..sim.range(1, 4)).map(|_| sim.draw(3) as u8));
                return (Signed(Rc::new(b)), BAD);
            }
            2 => {
                // one bit anywhere outside the header
                let mut b = (*m.0).clone();
                let k = sim.draw(b.len() as u64) as usize;
                b[k] ^= 1 << sim.draw(8);
                if let Ok(mut w) = blocks::decode(&b) {
                    if w.t.protocol_state == v.t.protocol_state {
                        sim.probe("bit-flip-readable");
                        let g = judge(sim, &mut w);
                        return (Signed(Rc::new(b)), g);
                    }
                } else {
                    return (Signed(Rc::new(b)), BAD);
                }
            }
            3 if sim.chance(1, 8) => {
                let s = &mut v.t.protocol_state.t.t;
                let body = &mut s.body.t.t;
                match sim.draw(4) {
                    0 => s.previous_state_hash.t = [0xff; 32],
                    1 => body.genesis_state_hash.t = [0xff; 32],
                    2 => body.blockchain_state.t.t.snarked_ledger_hash.t = [0xff; 32],
                    _ => body.consensus_state.t.t.staking_epoch_data.t.t.seed.t = [0xff; 32],
                }
                sim.fault("hash-outside-the-field");
                return (Signed(Rc::new(blocks::encode(&v))), Err(NO_HASH));
            }
            _ => {
                for _ in 0..sim.range(1, 2) {
                    change(sim, &mut v);
                }
            }
        }
        let g = judge(sim, &mut v);
        (Signed(Rc::new(blocks::encode(&v))), g)
    }
    fn again(_: &Sim, m: &Signed) -> Signed {
        m.clone()
    }
}
pub fn judge(sim: &Sim, v: &mut ExternalTransitionV1) -> Verdict {
    if all_signed(v) {
        sim.probe("all-signed");
        Ok(())
    } else {
        sim.probe("command-not-signed");
        BAD
    }
}

pub fn c15(ctx: &mut Ctx) -> Outcome {
    BROKEN.with(|b| *b.borrow_mut() = None);
    let r = c14::simulate::<Wallets>(ctx);
    match BROKEN.with(|b| b.borrow_mut().take()) {
        Some(v) => Err(v),
        None => r,
    }
}
