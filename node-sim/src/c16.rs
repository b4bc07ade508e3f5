//! C16: a genesis ledger read from its database holds exactly the accounts stored there, or says what it
//! could not read.
use crate::account::{self, Acc, Stored};
use mina_rs_base::BinProtSerializationType;
use mina_ledger::*;
use mina_merkle::{MerkleProof, MerkleTree};
use mina_rs_base::account::{Account, AccountLegacy, AuthRequired, Timing, TokenPermissions};
use proof_systems::mina_hasher::{Fp, Hashable};
use proof_systems::mina_signer::CompressedPubKey;
use proof_systems::o1_utils::FieldHelpers;
use rocksdb::{IteratorMode, Options, DB};
use simcore::{Ctx, Outcome, Violation};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub fn key(k: &CompressedPubKey) -> account::Key {
    (k.x.to_bytes().try_into().unwrap(), k.is_odd)
}
fn auth(a: &AuthRequired) -> u8 {
    match a {
        AuthRequired::None => 0,
        AuthRequired::Either => 1,
        AuthRequired::Proof => 2,
        AuthRequired::Signature => 3,
        AuthRequired::Both => 4,
        AuthRequired::Impossible => 5,
    }
}
fn timing(t: &Timing) -> Option<[u64; 5]> {
    match t {
        Timing::Untimed => None,
        Timing::Timed(t) => Some([t.initial_minimum_balance.0, t.cliff_time.0, t.cliff_amount.0, t.vesting_period.0, t.vesting_increment.0]),
    }
}
fn token(t: &TokenPermissions) -> (bool, bool) {
    match t {
        TokenPermissions::NotOwned { account_disabled } => (false, *account_disabled),
        TokenPermissions::TokenOwned { disable_new_accounts } => (true, *disable_new_accounts),
    }
}
/// Both kinds of account
pub trait Kind: Hashable<D = ()> + for<'a> BinProtSerializationType<'a> + Clone + 'static {
    const LEGACY: bool;
    const HASH: &'static str;
    fn view(&self) -> Acc;
    fn tree<const D: usize>(l: &'static RocksDbGenesisLedger<'static, D, Self>) -> Tree<Self>;
}
/// What the code under test says about the tree of a ledger
pub struct Tree<A> {
    pub root: Option<Fp>,
    pub count: usize,
    pub height: u32,
    /// for each leaf: its item, and whether the proof checks against the root
    pub proof: Box<dyn FnMut(usize, &Fp) -> Option<(A, bool)>>,
}
macro_rules! tree {
    ($t:expr) => {{
        let mut t = $t;
        Tree {
            root: t.root(),
            count: t.count(),
            height: t.height(),
            proof: Box::new(move |i, r| t.get_proof(i).map(|p| (p.item.clone(), p.verify(r)))),
        }
    }};
}
impl Kind for AccountLegacy {
    const LEGACY: bool = true;
    const HASH: &'static str = "legacy";
    fn view(&self) -> Acc {
        let p = &self.permissions;
        let mut perms = [0; 11];
        for (i, a) in [&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key].into_iter().enumerate() {
            perms[i] = auth(a);
        }
        let (owns_token, disabled) = token(&self.token_permissions);
        Acc {
            key: key(&self.public_key),
            token: self.token_id.0,
            owns_token,
            disabled,
            symbol: [0; 32],
            balance: self.balance.0,
            nonce: self.nonce.0 as u64,
            receipt: self.receipt_chain_hash.clone().into(),
            delegate: self.delegate.as_ref().map(key),
            voting: self.voting_for.clone().into(),
            timing: timing(&self.timing),
            stake: p.stake,
            perms,
            zkapp: self.snapp.is_some(),
            uri: false,
        }
    }
    fn tree<const D: usize>(l: &'static RocksDbGenesisLedger<'static, D, Self>) -> Tree<Self> {
        tree!(l.to_mina_merkle_ledger_legacy())
    }
}
impl Kind for Account {
    const LEGACY: bool = false;
    const HASH: &'static str = "kimchi";
    fn view(&self) -> Acc {
        let p = &self.permissions;
        let perms = [&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key, &p.set_zkapp_uri, &p.edit_sequence_state, &p.set_token_symbol, &p.increment_nonce, &p.set_voting_for].map(auth);
        let (owns_token, disabled) = token(&self.token_permissions);
        Acc {
            key: key(&self.public_key),
            token: self.token_id.0,
            owns_token,
            disabled,
            symbol: self.token_symbol.clone().into(),
            balance: self.balance.0,
            nonce: self.nonce.0 as u64,
            receipt: self.receipt_chain_hash.clone().into(),
            delegate: self.delegate.as_ref().map(key),
            voting: self.voting_for.clone().into(),
            timing: timing(&self.timing),
            stake: false,
            perms,
            zkapp: self.zkapp.is_some(),
            uri: self.zkapp_uri.is_some(),
        }
    }
    fn tree<const D: usize>(l: &'static RocksDbGenesisLedger<'static, D, Self>) -> Tree<Self> {
        tree!(l.to_mina_merkle_ledger())
    }
}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
/// the databases that come with the repository
fn shipped(legacy: bool) -> Rc<Map> {
    thread_local!(static DBS: RefCell<[Option<Rc<Map>>; 2]> = Default::default());
    DBS.with(|d| {
        let d = &mut d.borrow_mut()[legacy as usize];
        d.get_or_insert_with(|| {
            let name = if legacy { "6a887ea130e53b06380a9ab27b327468d28d4ce47515a0cc59759d4a3912f0ef" } else { "a99a1ff63d4ba4a07cc6bedbff3e23bd6c1f482f9ecef33abdf7fb817564cc89" };
            let db = DB::open_for_read_only(&Options, format!("/repo/ledger/test-data/genesis_ledger_{name}"), true).expect("the shipped database");
            Rc::new(db.iterator(IteratorMode::Start).map(|r| r.unwrap()).map(|(k, v)| (k.into_vec(), v.into_vec())).collect())
        })
        .clone()
    })
}
fn n64(ctx: &mut Ctx) -> u64 {
    match ctx.tape.draw(12) {
        11 => ctx.tape.draw64() >> 1,
        k => [0, 1, 127, 128, 32767, 32768, i32::MAX as u64, 1 << 31, u32::MAX as u64, 1 << 40, i64::MAX as u64][k as usize],
    }
}
fn hash32(ctx: &mut Ctx) -> [u8; 32] {
    let mut b = [0; 32];
    if ctx.tape.chance(3, 4) {
        for k in 0..4 {
            b[k * 8..k * 8 + 8].copy_from_slice(&ctx.tape.draw64().to_le_bytes());
        }
        b[31] &= 0x3f;
    }
    b
}
pub fn random_account(ctx: &mut Ctx, legacy: bool) -> Acc {
    let mut a = Acc {
        key: (hash32(ctx), ctx.tape.chance(1, 2)),
        token: [1, 0, 2][ctx.tape.draw(3) as usize],
        owns_token: ctx.tape.chance(1, 3),
        disabled: ctx.tape.chance(1, 3),
        balance: n64(ctx),
        nonce: n64(ctx) & 0x7fff_ffff,
        receipt: hash32(ctx),
        voting: hash32(ctx),
        ..Acc::default()
    };
    if ctx.tape.chance(1, 8) {
        a.token = n64(ctx);
    }
    if ctx.tape.chance(2, 3) {
        a.delegate = Some(if ctx.tape.chance(1, 2) { a.key } else { (hash32(ctx), ctx.tape.chance(1, 2)) });
    }
    if ctx.tape.chance(1, 2) {
        let mut t = [0; 5];
        for x in &mut t {
            *x = n64(ctx);
        }
        a.timing = Some(t);
    }
    for p in a.perms.iter_mut().take(if legacy { 6 } else { 11 }) {
        *p = ctx.tape.draw(6) as u8;
    }
    if legacy {
        a.stake = ctx.tape.chance(1, 2);
    } else {
        if ctx.tape.chance(1, 3) {
            a.symbol[..4].copy_from_slice(b"MINA");
            a.symbol[5] = ctx.tape.draw(256) as u8;
            a.symbol[31] = ctx.tape.draw(256) as u8;
        }
        a.uri = ctx.tape.chance(1, 8);
    }
    a.zkapp = ctx.tape.chance(1, 8);
    a
}
/// the location of the n-th account: 20 bits, left aligned
fn location(n: u64) -> Vec<u8> {
    let b = ((n as u32) << 4).to_be_bytes();
    vec![0xfe, b[1], b[2], b[3]]
}
/// What must come out for one record
#[derive(Clone)]
enum Want {
    Account(Box<Acc>),
    Error,
    Either,
}

fn build(ctx: &mut Ctx, legacy: bool) -> (Map, bool) {
    let mut m = Map::new();
    let real = shipped(legacy);
    let kind = ctx.tape.draw(400);
    if kind == 399 {
        ctx.probe("whole-shipped-database");
        return ((*real).clone(), true);
    }
    let n = match ctx.tape.draw(8) {
        0 => ctx.tape.draw(2),
        7 => ctx.tape.range(20, 70),
        _ => ctx.tape.range(2, 12),
    };
    let mut at = if ctx.tape.chance(1, 8) { ctx.tape.draw(1 << 20) } else { 0 };
    for _ in 0..n {
        let v = if kind % 4 == 0 {
            // a record of a shipped database
            let accounts = real.range(vec![0xfe]..vec![0xff]).count() as u64;
            let k = ctx.tape.draw(accounts);
            real.get(&location(k)).expect("locations are numbered").clone()
        } else {
            let mut a = random_account(ctx, legacy);
            if ctx.tape.chance(1, 400) {
                ctx.fault("hash-outside-the-field");
                a.receipt = [0xff; 32];
            }
            account::encode(&a, legacy)
        };
        m.insert(location(at & 0xfffff), v);
        at += if ctx.tape.chance(1, 16) { ctx.tape.range(2, 9) } else { 1 };
    }
    // what else such a database holds: hashes of nodes, indices, metadata
    for _ in 0..ctx.tape.draw(4) {
        let mut k = location(ctx.tape.draw(40));
        k[0] = [0, 1, 20, 0xfd, 0xff][ctx.tape.draw(5) as usize];
        if k[0] == 0xff && ctx.tape.chance(1, 2) {
            k = b"\xfflast_account_location".to_vec();
        }
        let v = hash32(ctx).to_vec();
        m.insert(k, v);
    }
    (m, false)
}

fn spoil(ctx: &mut Ctx, m: &mut Map) {
    let keys: Vec<Vec<u8>> = m.range(vec![0xfe]..vec![0xff]).map(|(k, _)| k.clone()).collect();
    if keys.is_empty() {
        return;
    }
    let k = &keys[ctx.tape.draw(keys.len() as u64) as usize];
    let v = m.get_mut(k).unwrap();
    match ctx.tape.draw(6) {
        0 => {
            ctx.fault("record-cut");
            let n = ctx.tape.draw(v.len() as u64) as usize;
            v.truncate(n);
        }
        1 => {
            ctx.fault("record-extended");
            v.extend((0..ctx.tape.range(1, 5)).map(|_| 0));
        }
        2 => {
            ctx.fault("record-bit-flipped");
            let n = v.len().max(1) as u64;
            let i = ctx.tape.draw(n) as usize;
            if let Some(b) = v.get_mut(i) {
                *b ^= 1 << ctx.tape.draw(8);
            }
        }
        3 => {
            ctx.fault("record-garbage");
            let n = ctx.tape.range(0, 60);
            *v = (0..n).map(|_| ctx.tape.draw(256) as u8).collect();
        }
        4 => {
            ctx.fault("record-lost");
            m.remove(k);
        }
        _ => {
            ctx.fault("torn-key");
            let v = v.clone();
            m.remove(k);
            let n = ctx.tape.range(1, 3).min(k.len() as u64) as usize;
            m.insert(k[..n].to_vec(), v);
        }
    }
}

/// the fields that are not the same
fn differ(stored: &Acc, read: &Acc) -> String {
    let fields = |a: &Acc| -> Vec<String> { format!("{a:#?}").lines().map(|l| l.trim().to_string()).collect() };
    let (x, y) = (fields(stored), fields(read));
    let k = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(0);
    format!("stored ..{}.. read ..{}..", x[k..].iter().take(8).cloned().collect::<Vec<_>>().join(" "), y[k..].iter().take(8).cloned().collect::<Vec<_>>().join(" "))
}

/// one pass over the accounts, interleaved with others: what it gave so far
struct Pass<A: Kind> {
    it: Box<dyn Iterator<Item = Result<A, String>>>,
    got: usize,
    fail_at: Option<u64>,
    done: bool,
}

fn run<A: Kind>(ctx: &mut Ctx) -> Outcome {
    let (mut m, whole) = build(ctx, A::LEGACY);
    if ctx.tape.chance(1, 3) {
        for _ in 0..ctx.tape.range(1, 3) {
            spoil(ctx, &mut m);
        }
    }
    let want: Vec<(Vec<u8>, Want)> = m
        .range(vec![0xfe]..)
        .take_while(|(k, _)| k[0] == 0xfe)
        .map(|(k, v)| {
            let w = match account::decode(v, A::LEGACY) {
                Stored::Valid(a) => Want::Account(Box::new(a)),
                Stored::Invalid => Want::Error,
                Stored::Unsure => Want::Either,
            };
            (k.clone(), w)
        })
        .collect();
    ctx.nontrivial = true;
    ctx.event(|| format!("{} records under the account prefix of {}", want.len(), m.len()));
    let content = m.iter().fold(simcore::FNV0, |h, (k, v)| simcore::fnv(simcore::fnv(h, k), v));
    ctx.event(|| format!("content {content:016x}"));
    // the read of the running reader that fails
    let current: Rc<RefCell<Option<u64>>> = Rc::default();
    let db: &'static DB = {
        let current = current.clone();
        Box::leak(Box::new(DB::simulated(m, move |n| (*current.borrow() == Some(n)).then(|| format!("IO error: read {n}")))))
    };
    let ledger: &'static RocksDbGenesisLedger<'static, 20, A> = Box::leak(Box::new(RocksDbGenesisLedger::new(db)));
    let r = passes(ctx, ledger, &want, &current, whole);
    // nothing refers to them any more
    unsafe {
        drop(Box::from_raw(ledger as *const _ as *mut RocksDbGenesisLedger<'static, 20, A>));
        drop(Box::from_raw(db as *const _ as *mut DB));
    }
    r
}
fn passes<A: Kind>(ctx: &mut Ctx, ledger: &'static RocksDbGenesisLedger<'static, 20, A>, want: &[(Vec<u8>, Want)], current: &Rc<RefCell<Option<u64>>>, whole: bool) -> Outcome {
    if ledger.depth() != 20 {
        return Err(Violation::new("wrong-depth", format!("{}", ledger.depth())));
    }
    // one to three readers at a time
    let mut open: Vec<Pass<A>> = vec![];
    let mut left = ctx.tape.range(1, 3);
    loop {
        let new = left > 0 && (open.is_empty() || ctx.tape.chance(1, 4));
        if new {
            left -= 1;
            let fail_at = if ctx.tape.chance(1, 3) {
                ctx.fault("db-read-error");
                Some(ctx.tape.draw(want.len() as u64 + 2))
            } else {
                None
            };
            ctx.event(|| format!("a reader starts, its read {fail_at:?} fails"));
            open.push(Pass { it: Box::new(ledger.accounts().map(|r| r.map_err(|e| e.to_string()))), got: 0, fail_at, done: false });
        }
        if open.is_empty() {
            break;
        }
        let k = ctx.tape.draw(open.len() as u64) as usize;
        let steps = if whole { 10_000 } else { ctx.tape.range(1, 8) };
        let p = &mut open[k];
        for _ in 0..steps {
            *current.borrow_mut() = p.fail_at;
            let item = p.it.next();
            *current.borrow_mut() = None;
            step(ctx, p, item, want)?;
            if p.done {
                open.swap_remove(k);
                break;
            }
        }
        if !open.is_empty() && ctx.tape.chance(1, 12) {
            ctx.fault("reader-gives-up");
            open.swap_remove(0);
        }
    }
    tree(ctx, ledger, want, current)
}
fn step<A: Kind>(ctx: &mut Ctx, p: &mut Pass<A>, item: Option<Result<A, String>>, want: &[(Vec<u8>, Want)]) -> Outcome {
    let i = p.got;
    p.got += 1;
    let at = || format!("record {i} of {}", want.len());
    if p.fail_at == Some(i as u64) && i <= want.len() {
        // whether more accounts follow is unknown here
        p.done = true;
        return match item {
            Some(Err(_)) => {
                ctx.event(|| "the failed read is reported".into());
                // and nothing comes after it
                match p.it.next() {
                    None => Ok(()),
                    Some(_) => Err(Violation::new("account-after-failed-read", at())),
                }
            }
            Some(Ok(a)) => Err(Violation::new("account-invented", format!("{}: {:?}", at(), a.view()))),
            None => Err(Violation::new("failed-read-hidden", format!("the database could not read {}, the iterator just ended", at()))),
        };
    }
    match (item, want.get(i)) {
        (None, None) => {
            p.done = true;
            ctx.event(|| "end".into());
            Ok(())
        }
        (None, Some(_)) => Err(Violation::new("accounts-missing", format!("the iterator ended before {}", at()))),
        (Some(r), None) => Err(Violation::new("account-invented", format!("{:?} after all {} records", r.map(|a| a.view()), want.len()))),
        (Some(r), Some((_, w))) => match (r, w) {
            (Ok(a), Want::Account(b)) => {
                ctx.probe("account-read");
                let a = a.view();
                if a == **b {
                    Ok(())
                } else {
                    Err(Violation::new("account-misread", format!("{}: {}", at(), differ(b, &a))))
                }
            }
            (Ok(a), Want::Error) => Err(Violation::new("corrupt-record-accepted", format!("{}: {:?}", at(), a.view()))),
            (Err(_), Want::Error) => {
                ctx.probe("corrupt-record-reported");
                Ok(())
            }
            (Err(e), Want::Account(b)) => Err(Violation::new("account-refused", format!("{}, {b:?}: {e:.120}", at()))),
            (_, Want::Either) => Ok(()),
        },
    }
}
fn tree<A: Kind>(ctx: &mut Ctx, ledger: &'static RocksDbGenesisLedger<'static, 20, A>, want: &[(Vec<u8>, Want)], current: &Rc<RefCell<Option<u64>>>) -> Outcome {
    let fail_at = if ctx.tape.chance(1, 6) { Some(ctx.tape.draw(want.len() as u64 + 2)) } else { None };
    if want.iter().any(|w| matches!(w.1, Want::Either)) {
        return Ok(());
    }
    let upto = fail_at.map_or(want.len(), |f| (f as usize).min(want.len()));
    let readable: Vec<&Acc> = want[..upto].iter().filter_map(|w| if let Want::Account(a) = &w.1 { Some(&**a) } else { None }).collect();
    let failing = fail_at.is_some_and(|f| f as usize <= want.len());
    let all = readable.len() == want.len() && !failing;
    if failing {
        ctx.fault("db-read-error");
    }
    let hashes: Option<Vec<Fp>> = readable.iter().map(|a| account::leaf_hash(a, A::LEGACY)).collect();
    *current.borrow_mut() = fail_at;
    let t = catch_unwind(AssertUnwindSafe(|| A::tree(ledger)));
    *current.borrow_mut() = None;
    let Some(hashes) = hashes else {
        return match t {
            Ok(_) => Err(Violation::new("tree-of-unhashable-account", "an account holds a value outside of the field, the tree has a root all the same".to_string())),
            Err(_) => Err(Violation::new("hash-not-a-field-element", "an account with a receipt chain hash outside of the field is accepted, and hashing it panics".to_string())),
        };
    };
    let mut t = t.map_err(|p| Violation::new("panic", simcore::runner::panic_msg(&p)))?;
    let expect = account::root(&hashes, 20, A::HASH);
    if t.height != 20 {
        return Err(Violation::new("tree-height", t.height.to_string()));
    }
    if t.count != readable.len() {
        return Err(Violation::new("tree-wrong", format!("{} leaves for {} accounts", t.count, readable.len())));
    }
    if t.root != Some(expect) {
        return Err(Violation::new("tree-wrong", format!("root {:?} of {} accounts, not {expect:?}", t.root, readable.len())));
    }
    if !all {
        return Err(Violation::new("unreadable-account-left-out", format!("{} of {} accounts could be read, the tree holds only those and nothing says so", readable.len(), want.len())));
    }
    ctx.probe("tree-right");
    for _ in 0..3.min(hashes.len()) {
        let i = ctx.tape.draw(hashes.len() as u64) as usize;
        let Some((a, ok)) = (t.proof)(i, &expect) else {
            return Err(Violation::new("no-proof", format!("leaf {i} of {}", hashes.len())));
        };
        if a.view() != *readable[i] || !ok {
            return Err(Violation::new("proof-wrong", format!("leaf {i} of {}: {}", hashes.len(), if ok { "another account" } else { "does not check against the root" })));
        }
        let other = hashes[i] + Fp::from(1u64);
        if (t.proof)(i, &other).is_some_and(|p| p.1) {
            return Err(Violation::new("proof-of-anything", format!("leaf {i} of {} checks against another root", hashes.len())));
        }
        ctx.probe("proof-right");
    }
    Ok(())
}
pub fn c16(ctx: &mut Ctx) -> Outcome {
    if ctx.tape.chance(1, 2) {
        run::<AccountLegacy>(ctx)
    } else {
        run::<Account>(ctx)
    }
}
