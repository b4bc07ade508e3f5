//! A mainnet block as JSON, as the explorer service gives it: one description, written from the Mina JSON format
//! and the field lists, that both writes and reads. What it reads and how sure it is decides what the code under
//! test may do with a text.
use mina_serialization_types::signatures::{CompressedCurvePoint, PublicKey2V1, PublicKeyV1};
use mina_serialization_types::staged_ledger_diff as wire;
use mina_serialization_types::v1::ExternalTransitionV1;
use proof_systems::mina_hasher::Fp;
use proof_systems::mina_signer::ScalarField;
use proof_systems::o1_utils::FieldHelpers;
use serde_json::{json, Value};

pub struct J {
    pub write: bool,
    /// the text may be refused: it is not how the service writes
    pub odd: bool,
    /// the description does not say what this means
    pub unsure: bool,
    /// a part that is not described has changed
    pub opaque: bool,
    /// the parts that are only described by the code under test, as the template has them
    pub proof: String,
    pub works: Value,
}
type R = Option<()>;

pub fn b58(version: u8, payload: &[u8]) -> String {
    bs58::encode(payload).with_check_version(version).into_string()
}
pub fn un58(s: &str, version: u8) -> Option<Vec<u8>> {
    Some(bs58::decode(s).with_check(Some(version)).into_vec().ok()?[1..].to_vec())
}
const GIGA: u64 = 1_000_000_000;
pub fn decimal(v: u64) -> String {
    let (q, r) = (v / GIGA, v % GIGA);
    if r == 0 {
        return q.to_string();
    }
    let mut s = format!("{q}.{r:09}");
    while s.ends_with('0') {
        s.pop();
    }
    s
}
pub const URL_SAFE: base64::Config = base64::URL_SAFE;

impl J {
    pub fn writer(proof: String, works: Value) -> J {
        J { write: true, odd: false, unsure: false, opaque: false, proof, works }
    }
    pub fn reader(proof: String, works: Value) -> J {
        J { write: false, odd: false, unsure: false, opaque: false, proof, works }
    }
    /// the member of an object
    fn m<'a>(&mut self, v: &'a mut Value, k: &str) -> Option<&'a mut Value> {
        if self.write && !v.is_object() {
            *v = json!({});
        }
        let o = v.as_object_mut()?;
        self.odd |= !self.write && !o.contains_key(k);
        Some(o.entry(k).or_insert(Value::Null))
    }
    fn s<'a>(&self, v: &'a mut Value) -> Option<&'a str> {
        v.as_str()
    }
    fn digits(&mut self, s: &str) -> Option<u128> {
        let t = s.strip_prefix('+').unwrap_or(s);
        if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        self.odd |= t.len() != s.len() || t.len() > 1 && t.starts_with('0');
        let t = t.trim_start_matches('0');
        if t.len() > 30 {
            return None;
        }
        Some(if t.is_empty() { 0 } else { t.parse().ok()? })
    }
    fn n64(&mut self, v: &mut Value, x: &mut u64) -> R {
        if self.write {
            *v = x.to_string().into();
            return Some(());
        }
        *x = self.digits(self.s(v)?.to_owned().as_str())?.try_into().ok()?;
        Some(())
    }
    fn n32(&mut self, v: &mut Value, x: &mut u32) -> R {
        let mut y = *x as u64;
        self.n64(v, &mut y)?;
        *x = y.try_into().ok()?;
        Some(())
    }
    fn i32(&mut self, v: &mut Value, x: &mut i32) -> R {
        let mut y = *x as u32;
        self.n32(v, &mut y)?;
        *x = y as i32;
        Some(())
    }
    fn dec(&mut self, v: &mut Value, x: &mut u64) -> R {
        if self.write {
            *v = decimal(*x).into();
            return Some(());
        }
        let s = self.s(v)?.to_owned();
        let (q, r) = s.split_once('.').unwrap_or((&s, "0"));
        self.odd |= q.is_empty() || r.is_empty() || r.len() > 1 && r.ends_with('0') || s.ends_with(".0");
        let q = if q.is_empty() { 0 } else { self.digits(q)? };
        if !r.bytes().all(|b| b.is_ascii_digit()) || r.is_empty() && s == "." {
            return None;
        }
        let r = r.trim_end_matches('0');
        if r.len() > 9 {
            return None;
        }
        let r: u64 = if r.is_empty() { 0 } else { format!("{r:0<9}").parse().ok()? };
        *x = q.checked_mul(GIGA as u128)?.checked_add(r as u128)?.try_into().ok()?;
        Some(())
    }
    fn bit(&mut self, v: &mut Value, x: &mut bool) -> R {
        if self.write {
            *v = (*x).into();
        }
        *x = v.as_bool()?;
        Some(())
    }
    fn hash(&mut self, v: &mut Value, version: u8, x: &mut [u8; 32]) -> R {
        if self.write {
            *v = b58(version, &[&[1][..], x].concat()).into();
            return Some(());
        }
        let b = un58(self.s(v)?, version)?;
        // what another inner version means is not settled
        self.unsure |= b.first() != Some(&1);
        *x = b.get(1..)?.try_into().ok()?;
        Some(())
    }
    fn bytes(&mut self, v: &mut Value, version: u8, x: &mut Vec<u8>) -> R {
        if self.write {
            *v = b58(version, x).into();
            return Some(());
        }
        *x = un58(self.s(v)?, version)?;
        Some(())
    }
    fn key(&mut self, v: &mut Value, k: &mut CompressedCurvePoint) -> R {
        if self.write {
            *v = b58(0xcb, &[&[1, 1][..], &k.x, &[k.is_odd as u8]].concat()).into();
            return Some(());
        }
        let b = un58(self.s(v)?, 0xcb)?;
        if b.len() != 35 || b[..2] != [1, 1] || b[34] > 1 {
            return None;
        }
        let x: [u8; 32] = b[2..34].try_into().ok()?;
        Fp::from_bytes(&x).ok()?;
        *k = CompressedCurvePoint { x, is_odd: b[34] == 1 };
        Some(())
    }
    fn pk(&mut self, v: &mut Value, k: &mut PublicKeyV1) -> R {
        self.key(v, &mut k.0.t.t)
    }
    fn pk2(&mut self, v: &mut Value, k: &mut PublicKey2V1) -> R {
        self.key(v, &mut k.0.t.0.t.t)
    }
    fn opt<T: Clone>(&mut self, v: &mut Value, x: &mut Option<T>, zero: T, mut f: impl FnMut(&mut J, &mut Value, &mut T) -> R) -> R {
        if self.write {
            *v = Value::Null;
            return match x {
                None => Some(()),
                Some(x) => f(self, v, x),
            };
        }
        if v.is_null() {
            *x = None;
            return Some(());
        }
        let mut y = zero;
        f(self, v, &mut y)?;
        *x = Some(y);
        Some(())
    }
    fn vec<T: Clone>(&mut self, v: &mut Value, x: &mut Vec<T>, zero: T, mut f: impl FnMut(&mut J, &mut Value, &mut T) -> R) -> R {
        if self.write {
            *v = Value::Array(vec![Value::Null; x.len()]);
        }
        let a = v.as_array_mut()?;
        if !self.write {
            *x = vec![zero; a.len()];
        }
        a.iter_mut().zip(x).try_for_each(|(v, x)| f(self, v, x))
    }
    /// the parts of an array of this length
    fn parts<'a>(&self, v: &'a mut Value, n: usize) -> Option<&'a mut [Value]> {
        if self.write {
            *v = Value::Array(vec![Value::Null; n]);
        }
        let a = v.as_array_mut()?;
        (a.len() == n).then_some(&mut a[..])
    }
    /// [tag, ...]: how many parts follow each tag
    fn tag(&mut self, v: &mut Value, tags: &[(&'static str, usize)], now: &str) -> Option<&'static str> {
        if self.write {
            let (t, n) = tags.iter().find(|(t, _)| *t == now)?;
            *v = Value::Array(vec![Value::Null; n + 1]);
            v[0] = (*t).into();
            return Some(t);
        }
        let a = v.as_array()?;
        let t = a.first()?.as_str()?;
        let (t, n) = tags.iter().find(|(x, _)| *x == t)?;
        if *n == 0 && a.len() == 2 && a[1].is_null() {
            self.odd = true;
            return Some(t);
        }
        (a.len() == n + 1).then_some(*t)
    }

    pub fn block(&mut self, v: &mut Value, b: &mut ExternalTransitionV1) -> R {
        let b = &mut b.t;
        let p = self.m(v, "protocol_state")?;
        self.state(p, &mut b.protocol_state)?;
        let o = self.m(v, "protocol_state_proof")?;
        if self.write {
            *o = self.proof.clone().into();
        } else if o.as_str()? != self.proof {
            let bytes = base64::decode_config(o.as_str()?, URL_SAFE).ok()?;
            b.protocol_state_proof = bin_prot::from_reader_strict(&bytes[..]).ok()?;
            self.unsure = true;
        }
        let d = self.m(v, "staged_ledger_diff")?;
        let d = self.m(d, "diff")?;
        let two = self.parts(d, 2)?;
        let t = &mut b.staged_ledger_diff.t.diff.t;
        let (one, second) = two.split_at_mut(1);
        self.pre_diff(&mut one[0], &mut t.0)?;
        let mut zero = t.0.clone();
        zero.t.t.completed_works = vec![];
        self.opt(&mut second[0], &mut t.1, zero, |j, v, x| {
            // only the first one has proofs here
            let w = std::mem::replace(&mut j.works, json!([]));
            let r = j.pre_diff(v, x);
            j.works = w;
            r
        })?;
        let c = self.m(v, "delta_transition_chain_proof")?;
        let two = self.parts(c, 2)?;
        let (one, second) = two.split_at_mut(1);
        let c = &mut b.delta_transition_chain_proof;
        self.hash(&mut one[0], 5, &mut c.0.t)?;
        self.vec(&mut second[0], &mut c.1, [0; 32].into(), |j, v, x| j.hash(v, 5, &mut x.t))
    }
    pub fn state(&mut self, v: &mut Value, p: &mut mina_serialization_types::v1::ProtocolStateV1) -> R {
        let p = &mut p.t.t;
        let o = self.m(v, "previous_state_hash")?;
        self.hash(o, 0x10, &mut p.previous_state_hash.t)?;
        let v = self.m(v, "body")?;
        let p = &mut p.body.t.t;
        let o = self.m(v, "genesis_state_hash")?;
        self.hash(o, 0x10, &mut p.genesis_state_hash.t)?;
        {
            let v = self.m(v, "blockchain_state")?;
            let p = &mut p.blockchain_state.t.t;
            let o = self.m(v, "snarked_ledger_hash")?;
            self.hash(o, 5, &mut p.snarked_ledger_hash.t)?;
            let o = self.m(v, "genesis_ledger_hash")?;
            self.hash(o, 5, &mut p.genesis_ledger_hash.t)?;
            let o = self.m(v, "snarked_next_available_token")?;
            self.n64(o, &mut p.snarked_next_available_token.t.t.t)?;
            let o = self.m(v, "timestamp")?;
            self.n64(o, &mut p.timestamp.t.t)?;
            let v = self.m(v, "staged_ledger_hash")?;
            let p = &mut p.staged_ledger_hash.t.t;
            let o = self.m(v, "pending_coinbase_hash")?;
            self.hash(o, 0x0c, &mut p.pending_coinbase_hash.t.t)?;
            let v = self.m(v, "non_snark")?;
            let p = &mut p.non_snark.t;
            let o = self.m(v, "ledger_hash")?;
            self.hash(o, 5, &mut p.ledger_hash.t)?;
            let o = self.m(v, "aux_hash")?;
            self.bytes(o, 0x0e, &mut p.aux_hash.t.0)?;
            let o = self.m(v, "pending_coinbase_aux")?;
            self.bytes(o, 0x0f, &mut p.pending_coinbase_aux.t.0)?;
        }
        {
            let v = self.m(v, "constants")?;
            let p = &mut p.constants.t.t;
            let o = self.m(v, "k")?;
            self.n32(o, &mut p.k.t.t)?;
            let o = self.m(v, "slots_per_epoch")?;
            self.n32(o, &mut p.slots_per_epoch.t.t)?;
            let o = self.m(v, "slots_per_sub_window")?;
            self.n32(o, &mut p.slots_per_sub_window.t.t)?;
            let o = self.m(v, "delta")?;
            self.n32(o, &mut p.delta.t.t)?;
            let o = self.m(v, "genesis_state_timestamp")?;
            self.n64(o, &mut p.genesis_state_timestamp.t.t)?;
        }
        let v = self.m(v, "consensus_state")?;
        let p = &mut p.consensus_state.t.t;
        let o = self.m(v, "blockchain_length")?;
        self.n32(o, &mut p.blockchain_length.t.t)?;
        let o = self.m(v, "epoch_count")?;
        self.n32(o, &mut p.epoch_count.t.t)?;
        let o = self.m(v, "min_window_density")?;
        self.n32(o, &mut p.min_window_density.t.t)?;
        let o = self.m(v, "sub_window_densities")?;
        self.vec(o, &mut p.sub_window_densities, 0.into(), |j, v, x| j.n32(v, &mut x.t.t))?;
        let o = self.m(v, "last_vrf_output")?;
        if self.write {
            *o = base64::encode_config(&p.last_vrf_output.t.0, URL_SAFE).into();
        } else {
            p.last_vrf_output.t.0 = base64::decode_config(o.as_str()?, URL_SAFE).ok()?;
        }
        let o = self.m(v, "total_currency")?;
        self.n64(o, &mut p.total_currency.t.t)?;
        {
            let v = self.m(v, "curr_global_slot")?;
            let p = &mut p.curr_global_slot.t.t;
            let o = self.m(v, "slot_number")?;
            self.n32(o, &mut p.slot_number.t.t)?;
            let o = self.m(v, "slots_per_epoch")?;
            self.n32(o, &mut p.slots_per_epoch.t.t)?;
        }
        let o = self.m(v, "global_slot_since_genesis")?;
        self.n32(o, &mut p.global_slot_since_genesis.t.t)?;
        for (k, p) in [("staking_epoch_data", &mut p.staking_epoch_data), ("next_epoch_data", &mut p.next_epoch_data)] {
            let v = self.m(v, k)?;
            let p = &mut p.t.t;
            let o = self.m(v, "seed")?;
            self.hash(o, 0x0d, &mut p.seed.t)?;
            let o = self.m(v, "start_checkpoint")?;
            self.hash(o, 0x10, &mut p.start_checkpoint.t)?;
            let o = self.m(v, "lock_checkpoint")?;
            self.hash(o, 0x10, &mut p.lock_checkpoint.t)?;
            let o = self.m(v, "epoch_length")?;
            self.n32(o, &mut p.epoch_length.t.t)?;
            let v = self.m(v, "ledger")?;
            let p = &mut p.ledger.t.t;
            let o = self.m(v, "hash")?;
            self.hash(o, 5, &mut p.hash.t)?;
            let o = self.m(v, "total_currency")?;
            self.n64(o, &mut p.total_currency.t.t)?;
        }
        let o = self.m(v, "has_ancestor_in_same_checkpoint_window")?;
        self.bit(o, &mut p.has_ancestor_in_same_checkpoint_window)?;
        let o = self.m(v, "block_stake_winner")?;
        self.pk(o, &mut p.block_stake_winner)?;
        let o = self.m(v, "block_creator")?;
        self.pk(o, &mut p.block_creator)?;
        let o = self.m(v, "coinbase_receiver")?;
        self.pk(o, &mut p.coinbase_receiver)?;
        let o = self.m(v, "supercharge_coinbase")?;
        self.bit(o, &mut p.supercharge_coinbase)
    }
    fn pre_diff(&mut self, v: &mut Value, d: &mut wire::StagedLedgerPreDiffV1) -> R {
        let d = &mut d.t.t;
        let o = self.m(v, "completed_works")?;
        if self.write {
            *o = self.works.clone();
        } else if *o != self.works {
            o.as_array()?;
            self.opaque = true;
        }
        let o = self.m(v, "commands")?;
        self.vec(o, &mut d.commands, zero_command(), |j, v, x| j.command(v, &mut x.t))?;
        let o = self.m(v, "coinbase")?;
        use wire::CoinBase::*;
        let now = match &d.coinbase.t {
            Zero => "Zero",
            One(_) => "One",
            Two(..) => "Two",
        };
        let zero = || -> wire::CoinBaseFeeTransferV1 { wire::CoinBaseFeeTransfer { receiver_pk: zero_key(), fee: 0.into() }.into() };
        let f = |j: &mut J, v: &mut Value, x: &mut wire::CoinBaseFeeTransferV1| {
            let o = j.m(v, "receiver_pk")?;
            j.pk(o, &mut x.t.t.receiver_pk)?;
            let o = j.m(v, "fee")?;
            j.dec(o, &mut x.t.t.fee.t.t)
        };
        let t = self.tag(o, &[("Zero", 0), ("One", 1), ("Two", 2)], now)?;
        if !self.write {
            d.coinbase.t = match t {
                "Zero" => Zero,
                "One" => One(None),
                _ => Two(None, None),
            };
        }
        match &mut d.coinbase.t {
            Zero => {}
            One(x) => self.opt(&mut o[1], x, zero(), f)?,
            Two(x, y) => {
                self.opt(&mut o[1], x, zero(), f)?;
                self.opt(&mut o[2], y, zero(), f)?;
            }
        }
        let o = self.m(v, "internal_command_balances")?;
        let zero: wire::InternalCommandBalanceDataV1 = wire::InternalCommandBalanceData::CoinBase(wire::CoinBaseBalanceData { coinbase_receiver_balance: 0.into(), fee_transfer_receiver_balance: None }.into()).into();
        self.vec(o, &mut d.internal_command_balances, zero, |j, v, x| {
            use wire::InternalCommandBalanceData::*;
            let now = match &x.t {
                CoinBase(_) => "Coinbase",
                FeeTransfer(_) => "Fee_transfer",
            };
            let t = j.tag(v, &[("Coinbase", 1), ("Fee_transfer", 1)], now)?;
            if !j.write && t == "Fee_transfer" {
                x.t = FeeTransfer(wire::FeeTransferBalanceData { receiver1_balance: 0.into(), receiver2_balance: None }.into());
            }
            let (a, b, first, second) = match &mut x.t {
                CoinBase(c) => ("coinbase_receiver_balance", "fee_transfer_receiver_balance", &mut c.t.coinbase_receiver_balance, &mut c.t.fee_transfer_receiver_balance),
                FeeTransfer(c) => ("receiver1_balance", "receiver2_balance", &mut c.t.receiver1_balance, &mut c.t.receiver2_balance),
            };
            let o = j.m(&mut v[1], a)?;
            j.n64(o, &mut first.t.t.t)?;
            let o = j.m(&mut v[1], b)?;
            j.opt(o, second, 0.into(), |j, v, x| j.n64(v, &mut x.t.t.t))
        })
    }
    fn command(&mut self, v: &mut Value, c: &mut wire::UserCommandWithStatus) -> R {
        let o = self.m(v, "status")?;
        self.status(o, &mut c.status.t)?;
        let o = self.m(v, "data")?;
        self.tag(o, &[("Signed_command", 1)], "Signed_command")?;
        let v = &mut o[1];
        let wire::UserCommand::SignedCommand(c) = &mut c.data.t.t;
        let c = &mut c.t.t;
        let o = self.m(v, "signer")?;
        self.pk2(o, &mut c.signer)?;
        let o = self.m(v, "signature")?;
        let mut raw = [&[1][..], &c.signature.0.t.t.0, &c.signature.0.t.t.1].concat();
        self.bytes(o, 0x9a, &mut raw)?;
        if raw.len() != 65 {
            return None;
        }
        self.unsure |= raw[0] != 1;
        c.signature.0.t.t = (raw[1..33].try_into().ok()?, raw[33..].try_into().ok()?);
        if !self.write {
            Fp::from_bytes(&raw[1..33]).ok()?;
            ScalarField::from_bytes(&raw[33..]).ok()?;
        }
        let v = self.m(v, "payload")?;
        let c = &mut c.payload.t.t;
        {
            let v = self.m(v, "common")?;
            let c = &mut c.common.t.t.t;
            let o = self.m(v, "fee")?;
            self.dec(o, &mut c.fee.t.t)?;
            let o = self.m(v, "fee_token")?;
            self.n64(o, &mut c.fee_token.t.t.t)?;
            let o = self.m(v, "fee_payer_pk")?;
            self.pk(o, &mut c.fee_payer_pk)?;
            let o = self.m(v, "nonce")?;
            self.i32(o, &mut c.nonce.t.t)?;
            let o = self.m(v, "valid_until")?;
            self.i32(o, &mut c.valid_until.t.t)?;
            let o = self.m(v, "memo")?;
            self.bytes(o, 0x14, &mut c.memo.t.0)?;
        }
        let v = self.m(v, "body")?;
        use wire::SignedCommandPayloadBody::*;
        let now = if matches!(c.body.t.t, PaymentPayload(_)) { "Payment" } else { "Stake_delegation" };
        let t = self.tag(v, &[("Payment", 1), ("Stake_delegation", 1)], now)?;
        if !self.write {
            c.body.t.t = if t == "Payment" {
                PaymentPayload(wire::PaymentPayload { source_pk: zero_key(), receiver_pk: zero_key(), token_id: 0.into(), amount: 0.into() }.into())
            } else {
                StakeDelegation(wire::StakeDelegation::SetDelegate { delegator: zero_key(), new_delegate: zero_key() }.into())
            };
        }
        let v = &mut v[1];
        match &mut c.body.t.t {
            PaymentPayload(p) => {
                let p = &mut p.t.t;
                let o = self.m(v, "source_pk")?;
                self.pk(o, &mut p.source_pk)?;
                let o = self.m(v, "receiver_pk")?;
                self.pk(o, &mut p.receiver_pk)?;
                let o = self.m(v, "token_id")?;
                self.n64(o, &mut p.token_id.t.t.t)?;
                let o = self.m(v, "amount")?;
                self.n64(o, &mut p.amount.t.t)
            }
            StakeDelegation(s) => {
                self.tag(v, &[("Set_delegate", 1)], "Set_delegate")?;
                let wire::StakeDelegation::SetDelegate { delegator, new_delegate } = &mut s.t;
                let o = self.m(&mut v[1], "delegator")?;
                self.pk(o, delegator)?;
                let o = self.m(&mut v[1], "new_delegate")?;
                self.pk(o, new_delegate)
            }
        }
    }
    fn status(&mut self, v: &mut Value, s: &mut wire::TransactionStatus) -> R {
        use wire::TransactionStatus::*;
        let now = if matches!(s, Applied(..)) { "Applied" } else { "Failed" };
        let t = self.tag(v, &[("Applied", 2), ("Failed", 2)], now)?;
        if !self.write {
            let b: wire::TransactionStatusBalanceDataV1 = wire::TransactionStatusBalanceData { fee_payer_balance: None, source_balance: None, receiver_balance: None }.into();
            *s = if t == "Applied" {
                Applied(wire::TransactionStatusAuxiliaryData { fee_payer_account_creation_fee_paid: None, receiver_account_creation_fee_paid: None, created_token: None }.into(), b)
            } else {
                Failed(vec![], b)
            };
        }
        let b = match s {
            Applied(a, b) => {
                let a = &mut a.t;
                let o = self.m(&mut v[1], "fee_payer_account_creation_fee_paid")?;
                self.opt(o, &mut a.fee_payer_account_creation_fee_paid, 0.into(), |j, v, x| j.n64(v, &mut x.t.t))?;
                let o = self.m(&mut v[1], "receiver_account_creation_fee_paid")?;
                self.opt(o, &mut a.receiver_account_creation_fee_paid, 0.into(), |j, v, x| j.n64(v, &mut x.t.t))?;
                let o = self.m(&mut v[1], "created_token")?;
                self.opt(o, &mut a.created_token, 0.into(), |j, v, x| j.n64(v, &mut x.t.t.t))?;
                b
            }
            Failed(f, b) => {
                self.vec(&mut v[1], f, wire::TransactionStatusFailedType::Predicate.into(), |j, v, x| {
                    let names: Vec<&str> = FAILURES.iter().map(|f| f.0).collect();
                    if j.write {
                        *v = FAILURES.iter().find(|f| f.1 == x.t)?.0.into();
                    }
                    let k = names.iter().position(|n| Some(*n) == v.as_str())?;
                    x.t = FAILURES[k].1.clone();
                    Some(())
                })?;
                b
            }
        };
        for (k, x) in [("fee_payer_balance", &mut b.t.fee_payer_balance), ("source_balance", &mut b.t.source_balance), ("receiver_balance", &mut b.t.receiver_balance)] {
            let o = self.m(&mut v[2], k)?;
            self.opt(o, x, 0.into(), |j, v, x| j.n64(v, &mut x.t.t.t))?;
        }
        Some(())
    }
}
use wire::TransactionStatusFailedType as F;
pub const FAILURES: [(&str, F); 15] = [
    ("Predicate", F::Predicate),
    ("Source_not_present", F::SourceNotPresent),
    ("Receiver_not_present", F::ReceiverNotPresent),
    ("Amount_insufficient_to_create_account", F::AmountInsufficientToCreateAccount),
    ("Cannot_pay_creation_fee_in_token", F::CannotPayCreationFeeInToken),
    ("Source_insufficient_balance", F::SourceInsufficientBalance),
    ("Source_minimum_balance_violation", F::SourceMinimumBalanceViolation),
    ("Receiver_already_exists", F::ReceiverAlreadyExists),
    ("Not_token_owner", F::NotTokenOwner),
    ("Mismatched_token_permissions", F::MismatchedTokenPermissions),
    ("Overflow", F::Overflow),
    ("Signed_command_on_snapp_account", F::SignedCommandOnSnappAccount),
    ("Snapp_account_not_present", F::SnappAccountNotPresent),
    ("Update_not_permitted", F::UpdateNotPermitted),
    ("Incorrect_nonce", F::IncorrectNonce),
];
pub fn zero_key() -> PublicKeyV1 {
    PublicKeyV1(CompressedCurvePoint { x: [0; 32], is_odd: false }.into())
}
fn zero_command() -> wire::UserCommandWithStatusV1 {
    let common = wire::SignedCommandPayloadCommon { fee: 0.into(), fee_token: 0.into(), fee_payer_pk: zero_key(), nonce: 0.into(), valid_until: 0.into(), memo: wire::SignedCommandMemo(vec![]).into() };
    let body = wire::SignedCommandPayloadBody::StakeDelegation(wire::StakeDelegation::SetDelegate { delegator: zero_key(), new_delegate: zero_key() }.into());
    let c = wire::SignedCommand {
        payload: wire::SignedCommandPayload { common: common.into(), body: body.into() }.into(),
        signer: PublicKey2V1(zero_key().into()),
        signature: mina_serialization_types::signatures::SignatureV1(([0; 32], [0; 32]).into()),
    };
    let b: wire::TransactionStatusBalanceDataV1 = wire::TransactionStatusBalanceData { fee_payer_balance: None, source_balance: None, receiver_balance: None }.into();
    wire::UserCommandWithStatus { data: wire::UserCommand::SignedCommand(c.into()).into(), status: wire::TransactionStatus::Failed(vec![], b).into() }.into()
}
