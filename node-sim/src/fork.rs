//! Reference fork choice, over plain values. Written from the Mina consensus specification (short-range
//! and long-range rule, longest chain, VRF and state hash tie-breaks); the projection of the sub-window
//! densities follows the values the repository's own test density.rs pins.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Info {
    pub len: u32,
    pub epoch: u32,
    pub slot: u32,
    pub spe: u32,
    pub staking_lock: String,
    pub next_lock: String,
    pub vrf: Vec<u8>,
    pub mwd: u32,
    pub swd: Vec<u32>,
    /// as the state hash orders: most significant byte first
    pub hash: Vec<u8>,
}

const SLOTS_PER_EPOCH: u32 = 7140;
const SUB_WINDOWS: usize = 11;
const SLOTS_PER_SUB_WINDOW: u32 = 7;
const GRACE_END: u32 = 1440;

pub fn blake2b(b: &[u8]) -> Vec<u8> {
    use blake2::digest::{Update, VariableOutput};
    let mut h = blake2::Blake2bVar::new(32).unwrap();
    h.update(b);
    h.finalize_boxed().to_vec()
}

pub fn short_range(a: &Info, b: &Info) -> bool {
    let ahead = |hi: &Info, lo: &Info| {
        hi.epoch.checked_sub(1) == Some(lo.epoch)
            && lo.spe != 0
            && lo.slot % lo.spe >= SLOTS_PER_EPOCH * 2 / 3
            && hi.staking_lock == lo.next_lock
    };
    if a.epoch == b.epoch {
        a.staking_lock == b.staking_lock
    } else {
        ahead(a, b) || ahead(b, a)
    }
}

/// None: the block's window is too short for the computation
fn density(a: &Info, b: &Info) -> Option<u64> {
    let max = a.slot.max(b.slot);
    if max < GRACE_END {
        return Some(a.mwd as u64);
    }
    let shift = (max - a.slot.saturating_sub(1)).min(SUB_WINDOWS as u32);
    let mut w: Vec<u64> = a.swd.iter().map(|x| *x as u64).collect();
    let mut i = (a.slot as usize / SUB_WINDOWS) % SUB_WINDOWS;
    for _ in 0..shift {
        i = (i + 1) % SUB_WINDOWS;
        *w.get_mut(i)? = 0;
    }
    Some((a.mwd as u64).min(w.iter().sum()))
}

fn longer(cur: &Info, cand: &Info) -> bool {
    match cand.len.cmp(&cur.len) {
        Ordering::Greater => true,
        Ordering::Less => false,
        Ordering::Equal => match blake2b(&cand.vrf).cmp(&blake2b(&cur.vrf)) {
            Ordering::Greater => true,
            Ordering::Less => false,
            Ordering::Equal => cand.hash > cur.hash,
        },
    }
}

/// Ok(true): the candidate replaces the tip. Err: the comparison cannot be made, the tip stays.
pub fn select(cur: &Info, cand: &Info) -> Result<bool, ()> {
    if short_range(cur, cand) {
        return Ok(longer(cur, cand));
    }
    if cand.swd.len() != SUB_WINDOWS || cand.swd.iter().any(|s| *s > SLOTS_PER_SUB_WINDOW) {
        return Ok(false);
    }
    let (t, c) = (density(cur, cand).ok_or(())?, density(cand, cur).ok_or(())?);
    Ok(match c.cmp(&t) {
        Ordering::Greater => true,
        Ordering::Less => false,
        Ordering::Equal => longer(cur, cand),
    })
}
