//! C17: over any history of a Merkle tree its root is that of its items, and a proof that travels to someone
//! who holds the root checks exactly if it leads from that item at that place to that root.
use crate::account;
use mina_merkle::*;
use num::{BigUint, Num};
use proof_systems::mina_hasher::{hash_of, Fp, Hashable, ROInput};
use proof_systems::o1_utils::FieldHelpers;
use simcore::{splitmix, Ctx, Outcome, Violation};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An application of the tree: what it stores and how it hashes.
pub trait App: 'static {
    type Item: Clone + PartialEq + Debug;
    type Hash: Clone + PartialEq + Debug;
    type Hasher: MerkleHasher<Item = Self::Item, Hash = Self::Hash>;
    type Merger: MerkleMerger<Hash = Self::Hash>;
    const NAME: &'static str;
    fn item(x: u64) -> Self::Item;
    fn leaf(i: &Self::Item, depth: u32) -> Self::Hash;
    fn join(c: [Option<Self::Hash>; 2], depth: u32, height: u32) -> Option<Self::Hash>;
    fn other(h: &Self::Hash) -> Self::Hash;
    /// how the path of this proof reads in a GraphQL answer, if this application has those
    fn path(_: &Proof<Self>, _height: u32) -> Option<String> {
        None
    }
    /// the verdict of the code on such a path; the index it finds
    fn check_path(_: &str, _: Self::Item, _: &Self::Hash) -> Option<(usize, bool)> {
        None
    }
    fn parse_hash(_: &str) -> Option<Self::Hash> {
        None
    }
}
pub struct Proof<A: App + ?Sized> {
    index: usize,
    item: A::Item,
    peers: Vec<usize>,
    hashes: Vec<Option<A::Hash>>,
}
impl<A: App + ?Sized> Debug for Proof<A> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "proof that {:?} is leaf {} with peers {:?} {:?}", self.item, self.index, self.peers, self.hashes)
    }
}
fn mix(xs: &[u64]) -> u64 {
    let mut s = 0;
    for x in xs {
        s ^= *x;
        s = splitmix(&mut s);
    }
    s
}

/// a missing child counts as its sibling; nothing of nothing (as in the repository's tests)
pub struct DupOdd;
impl MerkleHasher for DupOdd {
    type Item = u64;
    type Hash = u64;
    fn hash(i: &u64, _: MerkleTreeNodeMetadata) -> u64 {
        <DupOdd as App>::leaf(i, 0)
    }
}
impl MerkleMerger for DupOdd {
    type Hash = u64;
    fn merge(c: [Option<u64>; 2], _: MerkleTreeNodeMetadata) -> Option<u64> {
        <DupOdd as App>::join(c, 0, 0)
    }
}
impl App for DupOdd {
    type Item = u64;
    type Hash = u64;
    type Hasher = DupOdd;
    type Merger = DupOdd;
    const NAME: &'static str = "duplicate-odd";
    fn item(x: u64) -> u64 {
        x
    }
    fn leaf(i: &u64, _: u32) -> u64 {
        mix(&[1, *i])
    }
    fn join(c: [Option<u64>; 2], _: u32, _: u32) -> Option<u64> {
        match c {
            [Some(l), r] => Some(mix(&[2, l, r.unwrap_or(l)])),
            [None, Some(r)] => Some(mix(&[3, r])),
            [None, None] => None,
        }
    }
    fn other(h: &u64) -> u64 {
        h ^ 1
    }
}
/// the height of a node is part of its hash, a missing child is an empty subtree
pub struct Heights;
fn empty(height: u32) -> u64 {
    (0..height).fold(7, |e, h| mix(&[4, h as u64 + 1, e, e]))
}
impl MerkleHasher for Heights {
    type Item = u64;
    type Hash = u64;
    fn hash(i: &u64, m: MerkleTreeNodeMetadata) -> u64 {
        mix(&[1, *i, m.height() as u64])
    }
}
impl MerkleMerger for Heights {
    type Hash = u64;
    fn merge(c: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> {
        <Heights as App>::join(c, 0, m.height())
    }
}
impl App for Heights {
    type Item = u64;
    type Hash = u64;
    type Hasher = Heights;
    type Merger = Heights;
    const NAME: &'static str = "heights";
    fn item(x: u64) -> u64 {
        x
    }
    fn leaf(i: &u64, _: u32) -> u64 {
        mix(&[1, *i, 0])
    }
    fn join(c: [Option<u64>; 2], _: u32, h: u32) -> Option<u64> {
        let [l, r] = c.map(|x| x.unwrap_or_else(|| empty(h - 1)));
        Some(mix(&[4, h as u64, l, r]))
    }
    fn other(h: &u64) -> u64 {
        h ^ 1
    }
}
/// the depth of a node is part of its hash, that of a leaf too
pub struct Depths;
impl MerkleHasher for Depths {
    type Item = u64;
    type Hash = u64;
    fn hash(i: &u64, m: MerkleTreeNodeMetadata) -> u64 {
        <Depths as App>::leaf(i, m.depth())
    }
}
impl MerkleMerger for Depths {
    type Hash = u64;
    fn merge(c: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> {
        <Depths as App>::join(c, m.depth(), m.height())
    }
}
impl App for Depths {
    type Item = u64;
    type Hash = u64;
    type Hasher = Depths;
    type Merger = Depths;
    const NAME: &'static str = "depths";
    fn item(x: u64) -> u64 {
        x
    }
    fn leaf(i: &u64, d: u32) -> u64 {
        mix(&[1, *i, d as u64])
    }
    fn join(c: [Option<u64>; 2], d: u32, _: u32) -> Option<u64> {
        match c {
            [Some(l), r] => Some(mix(&[5, d as u64, l, r.unwrap_or(l)])),
            [None, Some(r)] => Some(mix(&[6, d as u64, r])),
            [None, None] => None,
        }
    }
    fn other(h: &u64) -> u64 {
        h ^ 1
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Leaf(u64);
impl Hashable for Leaf {
    type D = ();
    fn to_roinput(&self) -> ROInput {
        ROInput::new().append_u64(self.0)
    }
    fn domain_string(_: ()) -> Option<String> {
        Some("Leaf".into())
    }
}
macro_rules! poseidon {
    ($name:ident, $text:literal, $kind:literal, $hasher:ty, $merger:ty) => {
        pub struct $name;
        impl App for $name {
            type Item = Leaf;
            type Hash = Fp;
            type Hasher = $hasher;
            type Merger = $merger;
            const NAME: &'static str = $text;
            fn item(x: u64) -> Leaf {
                Leaf(x)
            }
            fn leaf(i: &Leaf, _: u32) -> Fp {
                hash_of($kind, Some("Leaf".into()), &ROInput::new().append_bytes(&i.0.to_le_bytes()))
            }
            fn join(c: [Option<Fp>; 2], _: u32, h: u32) -> Option<Fp> {
                let [l, r] = c.map(|x| x.unwrap_or_else(|| account::empty(h - 1, $kind)));
                Some(account::node(&l, &r, h, $kind))
            }
            fn other(h: &Fp) -> Fp {
                *h + Fp::from(1u64)
            }
            fn path(p: &Proof<Self>, _: u32) -> Option<String> {
                let mut i = p.index;
                let mut v = vec![];
                for (h, x) in p.hashes.iter().enumerate() {
                    let x = x.unwrap_or_else(|| account::empty(h as u32, $kind));
                    let s = BigUint::from_bytes_le(&x.to_bytes()).to_str_radix(10);
                    v.push(if i % 2 == 1 { serde_json::json!({"left": s, "right": null}) } else { serde_json::json!({"left": null, "right": s}) });
                    i = i.checked_sub(1)? / 2;
                }
                serde_json::to_string(&v).ok()
            }
            fn check_path(s: &str, item: Leaf, root: &Fp) -> Option<(usize, bool)> {
                let path: MerklePath = serde_json::from_str(s).ok()?;
                let p = path.to_proof::<Leaf, $hasher, $merger>(item).ok()?;
                Some((p.index, p.verify(root)))
            }
            fn parse_hash(s: &str) -> Option<Fp> {
                let b = BigUint::from_str_radix(s, 10).ok()?;
                let mut v = b.to_bytes_le();
                if v.len() > 32 {
                    return None;
                }
                v.resize(32, 0);
                Fp::from_bytes(&v).ok()
            }
        }
    };
}
poseidon!(Legacy, "poseidon-legacy", "legacy", MinaPoseidonMerkleHasherLegacy<Leaf>, MinaPoseidonMerkleMergerLegacy);
poseidon!(Kimchi, "poseidon-kimchi", "kimchi", MinaPoseidonMerkleHasher<Leaf>, MinaPoseidonMerkleMerger);

/// the hash of the node of this height (and depth) at this place of its row; None where there are no items
fn subtree<A: App>(items: &[A::Item], depth: u32, height: u32, place: usize) -> Option<A::Hash> {
    if height >= usize::BITS || place.checked_shl(height).map_or(true, |f| f >= items.len()) {
        if !(place == 0 && !items.is_empty()) {
            return None;
        }
    }
    if height == 0 {
        return Some(A::leaf(&items[place], depth));
    }
    A::join([subtree::<A>(items, depth + 1, height - 1, place * 2), subtree::<A>(items, depth + 1, height - 1, place * 2 + 1)], depth, height)
}
fn root_of<A: App>(items: &[A::Item], height: u32) -> Option<A::Hash> {
    if items.is_empty() && height > 0 {
        return A::join([None, None], 0, height);
    }
    subtree::<A>(items, 0, height, 0)
}
fn height_of(n: usize) -> u32 {
    let mut h = 0;
    while 1usize << h < n {
        h += 1;
    }
    h
}
/// The root this proof leads to, if it is a path from a leaf to a root at all
fn leads_to<A: App>(p: &Proof<A>) -> Option<A::Hash> {
    let n = p.peers.len();
    if n == 0 || n >= usize::BITS as usize || p.hashes.len() != n {
        return None;
    }
    let first = (1usize << n) - 1;
    if p.index < first || p.index - first >= 1 << n {
        return None;
    }
    let mut i = p.index;
    let mut h = Some(A::leaf(&p.item, n as u32));
    for k in 0..n {
        let left = i % 2 == 1;
        if p.peers[k] != if left { i + 1 } else { i - 1 } {
            return None;
        }
        let peer = p.hashes[k].clone();
        i = (i - 1) / 2;
        h = A::join(if left { [h, peer] } else { [peer, h] }, (n - k - 1) as u32, k as u32 + 1);
    }
    h
}

/// The tree under test in either of its modes
pub trait Tree<A: App> {
    fn add(&mut self, i: A::Item);
    fn add_batch(&mut self, i: Vec<A::Item>);
    fn root(&mut self) -> Option<A::Hash>;
    fn count(&self) -> usize;
    fn height(&self) -> u32;
    fn proof(&mut self, i: usize) -> Option<Proof<A>>;
}
macro_rules! tree {
    ($m:ty) => {
        impl<A: App> Tree<A> for MinaMerkleTree<A::Item, A::Hash, A::Hasher, A::Merger, $m> {
            fn add(&mut self, i: A::Item) {
                MerkleTree::add(self, i)
            }
            fn add_batch(&mut self, i: Vec<A::Item>) {
                MerkleTree::add_batch(self, i)
            }
            fn root(&mut self) -> Option<A::Hash> {
                MerkleTree::root(self)
            }
            fn count(&self) -> usize {
                MerkleTree::count(self)
            }
            fn height(&self) -> u32 {
                MerkleTree::height(self)
            }
            fn proof(&mut self, i: usize) -> Option<Proof<A>> {
                self.get_proof(i).map(|p| Proof { index: p.index, item: p.item, peers: p.peer_indices, hashes: p.peer_hashes })
            }
        }
    };
}
tree!(FixedHeightMode);
tree!(VariableHeightMode);
fn new_tree<A: App>(ctx: &mut Ctx, fixed: Option<u32>) -> Box<dyn Tree<A>> {
    match fixed {
        Some(h) => Box::new(MinaMerkleTree::<A::Item, A::Hash, A::Hasher, A::Merger, FixedHeightMode>::new(h)),
        None if ctx.tape.chance(1, 3) => Box::new(MinaMerkleTree::<A::Item, A::Hash, A::Hasher, A::Merger, VariableHeightMode>::with_capacity(ctx.tape.draw(70) as usize)),
        None => Box::new(MinaMerkleTree::<A::Item, A::Hash, A::Hasher, A::Merger, VariableHeightMode>::new()),
    }
}

enum Msg<A: App> {
    /// and whether nobody changed it
    Proof(Proof<A>, A::Hash, bool),
    Path(String, A::Item, A::Hash, Option<usize>),
}
fn tamper<A: App>(ctx: &mut Ctx, p: &mut Proof<A>, all: usize) {
    let n = p.peers.len().max(1) as u64;
    let k = ctx.tape.draw(n) as usize;
    let far = |ctx: &mut Ctx| [0usize, 1, 2, usize::MAX, usize::MAX - 1, 1 << 20][ctx.tape.draw(6) as usize];
    match ctx.tape.draw(14) {
        0 => p.item = A::item(ctx.tape.draw(all as u64 + 2)),
        1 => p.index = p.index.wrapping_add(1),
        2 => p.index = p.index.wrapping_sub(1),
        3 => p.index = far(ctx),
        4 => p.peers[k] = p.peers[k].wrapping_add(1 + ctx.tape.draw(2) as usize),
        5 => p.peers[k] = p.peers[k].wrapping_sub(1 + ctx.tape.draw(2) as usize),
        6 => p.peers[k] = far(ctx),
        7 => p.hashes[k] = p.hashes[k].as_ref().map(|h| A::other(h)),
        8 => p.hashes[k] = None,
        9 => {
            let j = ctx.tape.draw(n) as usize;
            p.hashes.swap(k, j);
        }
        10 => {
            p.peers.pop();
            p.hashes.pop();
        }
        11 => {
            p.peers.push(far(ctx));
            p.hashes.push(None);
        }
        12 => {
            // the whole path one place to the side, or its index and first peer exchanged
            if ctx.tape.chance(1, 2) {
                let i = p.index;
                p.index = p.peers[0];
                p.peers[0] = i;
            } else {
                let d = if ctx.tape.chance(1, 2) { 1usize } else { usize::MAX };
                p.index = p.index.wrapping_add(d);
                p.peers[0] = p.peers[0].wrapping_add(d);
            }
        }
        _ => {
            p.hashes.pop();
        }
    }
}
fn garble(ctx: &mut Ctx, s: &mut String) {
    let mut b = std::mem::take(s).into_bytes();
    match ctx.tape.draw(6) {
        0 => {
            let n = ctx.tape.draw(b.len() as u64) as usize;
            b.truncate(n);
        }
        1 | 2 => {
            let n = ctx.tape.draw(b.len() as u64) as usize;
            b[n] ^= 1 << ctx.tape.draw(7);
        }
        k => {
            // other nodes: fewer, more, exchanged, ambiguous
            if let Ok(serde_json::Value::Array(mut v)) = serde_json::from_slice::<serde_json::Value>(&b) {
                if !v.is_empty() {
                    let i = ctx.tape.draw(v.len() as u64) as usize;
                    let j = ctx.tape.draw(v.len() as u64) as usize;
                    match k {
                        3 => v.swap(i, j),
                        4 => {
                            let (l, r) = (v[i]["left"].clone(), v[i]["right"].clone());
                            match ctx.tape.draw(3) {
                                0 => {
                                    v[i]["left"] = r;
                                    v[i]["right"] = l;
                                }
                                1 => {
                                    if l.is_null() {
                                        v[i]["left"] = r;
                                    } else {
                                        v[i]["right"] = l;
                                    }
                                }
                                _ => {
                                    v[i]["left"] = serde_json::Value::Null;
                                    v[i]["right"] = serde_json::Value::Null;
                                }
                            }
                        }
                        _ => match ctx.tape.draw(4) {
                            0 => drop(v.remove(i)),
                            1 => v.insert(i, v[j].clone()),
                            2 => v.clear(),
                            _ => {
                                let x = v[i].clone();
                                v.resize([63, 64, 65, 200][ctx.tape.draw(4) as usize], x);
                            }
                        },
                    }
                }
                b = serde_json::to_vec(&v).unwrap();
            }
        }
    }
    *s = String::from_utf8_lossy(&b).into_owned();
}
/// what a path says: the index of the leaf and the root it leads to
fn path_leads_to<A: App>(s: &str, item: &A::Item) -> Option<(usize, A::Hash)> {
    let v: serde_json::Value = serde_json::from_str(s).ok()?;
    let v = v.as_array()?;
    if v.is_empty() || v.len() >= usize::BITS as usize {
        return None;
    }
    let mut h = A::leaf(item, v.len() as u32);
    let mut place = 0usize;
    for (k, n) in v.iter().enumerate() {
        let get = |f: &str| match &n[f] {
            serde_json::Value::Null => Some(None),
            serde_json::Value::String(s) => A::parse_hash(s).map(Some),
            _ => None,
        };
        n.as_object()?;
        h = match (get("left")?, get("right")?) {
            (Some(x), None) => A::join([Some(h), Some(x)], 0, k as u32 + 1)?,
            (None, Some(x)) => {
                place += 1 << k;
                A::join([Some(x), Some(h)], 0, k as u32 + 1)?
            }
            _ => return None,
        };
    }
    Some(((1usize << v.len()) - 1 + place, h))
}

fn deliver<A: App>(ctx: &mut Ctx, m: &Msg<A>) -> Outcome {
    match m {
        Msg::Proof(p, root, honest) => {
            let want = leads_to::<A>(p).as_ref() == Some(root);
            let real = DefaultMerkleProof::<A::Item, A::Hash, A::Hasher, A::Merger> {
                index: p.index,
                item: p.item.clone(),
                peer_indices: p.peers.clone(),
                peer_hashes: p.hashes.clone(),
                _hasher: Default::default(),
                _merger: Default::default(),
            };
            let got = catch_unwind(AssertUnwindSafe(|| (real.verify(root), real.root_hash().ok().as_ref() == Some(root))));
            let at = || format!("{}: {p:?} against {root:?}", A::NAME);
            ctx.event(|| format!("a proof arrives: {want}"));
            match got {
                Err(e) => Err(Violation::new("verifier-panics", format!("{}: {}", at(), simcore::runner::panic_msg(&e)))),
                Ok((true, _)) if !want => Err(Violation::new("bad-proof-accepted", at())),
                Ok((false, _)) if want => Err(Violation::new(if *honest { "honest-proof-refused" } else { "good-proof-refused" }, at())),
                Ok((a, b)) if a != b => Err(Violation::new("verify-and-root-disagree", at())),
                Ok(_) => {
                    if *honest && !want {
                        return Err(Violation::new("proof-wrong", at()));
                    }
                    ctx.probe(if want { "proof-accepted" } else { "proof-refused" });
                    Ok(())
                }
            }
        }
        Msg::Path(s, item, root, honest) => {
            let want = path_leads_to::<A>(s, item);
            let got = catch_unwind(AssertUnwindSafe(|| A::check_path(s, item.clone(), root)));
            let at = || format!("{}: {item:?} {s:.400} against {root:?}", A::NAME);
            ctx.event(|| format!("a path arrives: {}", want.is_some()));
            let Ok(got) = got else { return Err(Violation::new("verifier-panics", at())) };
            match (&got, &want) {
                (Some((i, ok)), Some((j, r))) => {
                    if i != j {
                        return Err(Violation::new("path-index", format!("{}: {i}, not {j}", at())));
                    }
                    if *ok != (r == root) {
                        return Err(Violation::new(if *ok { "bad-path-accepted" } else { "good-path-refused" }, at()));
                    }
                    ctx.probe(if *ok { "path-accepted" } else { "path-refused" });
                    if let Some(k) = honest {
                        if !ok || k != i {
                            return Err(Violation::new("honest-path-refused", at()));
                        }
                    }
                    Ok(())
                }
                (None, None) => {
                    ctx.probe("path-unreadable");
                    Ok(())
                }
                (Some(_), None) => Err(Violation::new("odd-path-read", at())),
                (None, Some(_)) => Err(Violation::new("good-path-unreadable", at())),
            }
        }
    }
}

fn run<A: App>(ctx: &mut Ctx) -> Outcome {
    let fixed = if ctx.tape.chance(1, 2) { Some([20, 1, 2, 3, 5, 8, 0, 35][ctx.tape.draw(8) as usize]) } else { None };
    let cap = fixed.map_or(usize::MAX, |h: u32| 1usize << h);
    history::<A>(ctx, fixed, cap)
}
fn history<A: App>(ctx: &mut Ctx, fixed: Option<u32>, cap: usize) -> Outcome {
    let mut t = new_tree::<A>(ctx, fixed);
    let mut items: Vec<A::Item> = vec![];
    let mut flying: Vec<Msg<A>> = vec![];
    let big = ctx.tape.chance(1, 12);
    let steps = ctx.tape.range(4, 30);
    let dups = ctx.tape.chance(1, 4);
    ctx.event(|| format!("{} {fixed:?}", A::NAME));
    let fail = |class: &str, d: String| Err(Violation::new(class, format!("{} tree, fixed height {fixed:?}: {d}", A::NAME)));
    for _ in 0..steps {
        let n = items.len();
        let height = fixed.unwrap_or_else(|| height_of(n));
        let make = |ctx: &mut Ctx, k: usize| A::item(if dups { ctx.tape.draw(3) } else { (n + k) as u64 });
        match ctx.tape.draw(10) {
            0 | 1 if n < cap => {
                ctx.event(|| "add".into());
                let i = make(ctx, 0);
                items.push(i.clone());
                t.add(i);
            }
            2 => {
                let k = if big { ctx.tape.draw(300) } else { ctx.tape.draw(9) } as usize;
                let k = k.min(cap - n);
                ctx.event(|| format!("add {k}"));
                let b: Vec<A::Item> = (0..k).map(|j| make(ctx, j)).collect();
                items.extend(b.iter().cloned());
                t.add_batch(b);
            }
            3 => {
                let want = root_of::<A>(&items, height);
                let got = t.root();
                ctx.event(|| format!("root of {n}: {got:?}"));
                ctx.nontrivial = true;
                if got != want {
                    return fail("wrong-root", format!("{got:?} of {n} items, not {want:?}"));
                }
            }
            4 | 5 if n > 0 => {
                let i = ctx.tape.draw(n as u64) as usize;
                let got = catch_unwind(AssertUnwindSafe(|| t.proof(i)));
                let got = match got {
                    Ok(g) => g,
                    Err(e) => return fail("proof-panics", format!("item {i} of {n}: {}", simcore::runner::panic_msg(&e))),
                };
                let root = root_of::<A>(&items, height);
                ctx.event(|| format!("proof of {i} of {n}: {}", got.is_some()));
                match (got, root) {
                    (None, _) if height == 0 => ctx.probe("no-proof-without-height"),
                    (None, Some(_)) => return fail("no-proof", format!("item {i} of {n}")),
                    (None, None) => {}
                    (Some(_), None) => return fail("proof-of-nothing", format!("item {i} of {n}")),
                    (Some(p), Some(root)) => {
                        ctx.nontrivial = true;
                        if p.item != items[i] || height == 0 || p.index != (1usize << height) - 1 + i || p.peers.len() != height as usize {
                            return fail("proof-wrong", format!("item {i} of {n}: {p:?}"));
                        }
                        // to someone who trusts this root
                        if ctx.tape.chance(1, 3) {
                            if let Some(s) = A::path(&p, height) {
                                let mut s = s;
                                let mut honest = Some(p.index);
                                if ctx.tape.chance(1, 2) {
                                    ctx.fault("path-garbled");
                                    garble(ctx, &mut s);
                                    honest = None;
                                }
                                flying.push(Msg::Path(s, p.item.clone(), root, honest));
                                continue;
                            }
                        }
                        let mut p = p;
                        let mut root = root;
                        let mut honest = true;
                        if ctx.tape.chance(1, 2) {
                            ctx.fault("proof-tampered");
                            honest = false;
                            for _ in 0..ctx.tape.range(1, 2) {
                                if p.peers.is_empty() || p.hashes.len() != p.peers.len() {
                                    break;
                                }
                                tamper(ctx, &mut p, n);
                            }
                        } else if ctx.tape.chance(1, 6) {
                            ctx.fault("stale-root");
                            // the holder knows the root of fewer items
                            let k = ctx.tape.draw(n as u64) as usize;
                            if let Some(r) = root_of::<A>(&items[..k], fixed.unwrap_or_else(|| height_of(k))) {
                                honest = r == root;
                                root = r;
                            }
                        }
                        flying.push(Msg::Proof(p, root, honest));
                    }
                }
            }
            6 | 7 if !flying.is_empty() => {
                let k = ctx.tape.draw(flying.len() as u64) as usize;
                deliver(ctx, &flying[k])?;
                match ctx.tape.draw(4) {
                    0 => ctx.fault("message-duplicated"),
                    _ => drop(flying.swap_remove(k)),
                }
            }
            8 if ctx.tape.chance(1, 2) => {
                // the owner dies; another tree is made of the items it had stored, in other batches
                ctx.fault("crash-restart");
                t = new_tree::<A>(ctx, fixed);
                let lost = if ctx.tape.chance(1, 4) { ctx.tape.draw(n as u64 + 1) as usize } else { 0 };
                items.truncate(n - lost);
                ctx.event(|| format!("restart with {} of {n}", n - lost));
                let mut rest = &items[..];
                while !rest.is_empty() {
                    let k = if ctx.tape.chance(1, 2) { rest.len() } else { ctx.tape.range(1, rest.len() as u64) as usize };
                    t.add_batch(rest[..k].to_vec());
                    rest = &rest[k..];
                    if ctx.tape.chance(1, 4) {
                        t.root();
                    }
                }
            }
            9 => {
                if t.count() != items.len() {
                    return fail("wrong-count", format!("{} of {n}", t.count()));
                }
                if t.height() != height {
                    return fail("wrong-height", format!("{} of {n}, not {height}", t.height()));
                }
            }
            _ => {}
        }
    }
    // the network calms down
    while let Some(m) = flying.pop() {
        deliver(ctx, &m)?;
    }
    let n = items.len();
    let height = fixed.unwrap_or_else(|| height_of(n));
    let want = root_of::<A>(&items, height);
    let got = t.root();
    if got != want {
        return fail("wrong-root", format!("{got:?} of {n} items in the end, not {want:?}"));
    }
    if n > 0 && catch_unwind(AssertUnwindSafe(|| t.proof(n))).is_ok_and(|p| p.is_some()) && height > 0 {
        return fail("proof-of-nothing", format!("item {n} of {n}"));
    }
    if let Some(h) = fixed.filter(|h| *h <= 5) {
        if ctx.tape.chance(1, 4) {
            // more items than there is room for: a root would leave some of them out
            ctx.probe("overfull");
            let k = (1 << h) + 1 - n;
            t.add_batch((0..k).map(|j| A::item(j as u64)).collect());
            if catch_unwind(AssertUnwindSafe(|| t.root())).is_ok_and(|r| r.is_some()) {
                return fail("root-of-overfull-tree", format!("{} items", (1 << h) + 1));
            }
        }
    }
    Ok(())
}
pub fn c17(ctx: &mut Ctx) -> Outcome {
    match ctx.tape.draw(6) {
        0 => run::<DupOdd>(ctx),
        1 => run::<Heights>(ctx),
        2 => run::<Depths>(ctx),
        3 => run::<Legacy>(ctx),
        _ => run::<Kimchi>(ctx),
    }
}
