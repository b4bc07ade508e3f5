//! C09: values that travel between nodes as versioned wire types and are held as internal types.
use crate::io::*;
use crate::model::{gen_int, gen_str};
use crate::props::bad;
use bin_prot::{from_reader_strict, to_writer};
use mina_serialization_types_macros::AutoFrom;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use simcore::runner::guarded;
use simcore::{hex, Ctx, Outcome, Tape};
use versioned::Versioned;

// ---- wire types, as a peer would define them
macro_rules! newtype { ($n:ident, $t:ty) => {
    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub struct $n(pub $t);
    impl From<$t> for $n { fn from(x: $t) -> Self { $n(x) } }
    impl From<$n> for $t { fn from(x: $n) -> Self { x.0 } }
} }
newtype!(WI64, i64);
newtype!(WU32, u32);
newtype!(WStr, String);

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct WNamed {
    a: WI64,
    b: WI64,
    c: WStr,
    d: Vec<WI64>,
    e: Option<WI64>,
    f: Box<WI64>,
    g: Vec<WStr>,
    h: Option<WStr>,
}
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(WNamed)]
#[auto_from(WNamed2)]
pub struct Named {
    a: i64,
    b: i64,
    c: String,
    d: Vec<i64>,
    e: Option<i64>,
    f: Box<i64>,
    g: Vec<String>,
    h: Option<String>,
}
/// the same fields, laid out in another order on the wire
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct WNamed2 {
    h: Option<WStr>,
    f: Box<WI64>,
    b: WI64,
    g: Vec<WStr>,
    a: WI64,
    e: Option<WI64>,
    d: Vec<WI64>,
    c: WStr,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct WTuple(WI64, WI64, Vec<WI64>, Option<WI64>, Box<WI64>, WI64);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(WTuple)]
pub struct Tup(i64, i64, Vec<i64>, Option<i64>, Box<i64>, i64);

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum WEnum {
    V1,
    V2(WI64),
    V3(WI64, Option<WI64>, Vec<WI64>, Box<WI64>, WI64),
    V4 { f1: WI64 },
    V5 { f1: WI64, f2: Option<WI64>, f3: Vec<WI64>, f4: Box<WI64>, f5: WI64 },
    V6(Vec<WStr>, Vec<WStr>),
    V7,
}
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(WEnum)]
pub enum Enum {
    V1,
    V2(i64),
    V3(i64, Option<i64>, Vec<i64>, Box<i64>, i64),
    V4 { f1: i64 },
    V5 { f1: i64, f2: Option<i64>, f3: Vec<i64>, f4: Box<i64>, f5: i64 },
    V6(Vec<String>, Vec<String>),
    V7,
}
/// conversions inside conversions: the fields are versioned wire types themselves
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct WOuter {
    head: Versioned<WNamed, 1>,
    list: Vec<Versioned<WEnum, 3>>,
    opt: Option<Versioned<WTuple, 2>>,
    boxed: Box<WEnum>,
}
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(WOuter)]
pub struct Outer {
    head: Named,
    list: Vec<Enum>,
    opt: Option<Tup>,
    boxed: Box<Enum>,
}

// ---- the helper macros of `versioned`
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Amount(pub u32);
versioned::impl_from_versioned!(Amount);
pub struct Fee(pub u32);
pub type FeeV = Versioned<Versioned<u32, 4>, 9>;
versioned::impl_from_for_newtype!(Fee, FeeV);

// internal <-> json via a versioned intermediate
#[derive(Debug, Clone, PartialEq)]
pub struct Acct(pub i64, pub String);
pub type AcctV = Versioned<WPair, 5>;
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct WPair(pub i64, pub String);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct JsonAcct {
    pub n: String,
    pub s: String,
}
impl From<Acct> for AcctV { fn from(x: Acct) -> Self { WPair(x.0, x.1).into() } }
impl From<AcctV> for Acct { fn from(x: AcctV) -> Self { let (p,): (WPair,) = x.into(); Acct(p.0, p.1) } }
impl From<AcctV> for JsonAcct { fn from(x: AcctV) -> Self { let (p,): (WPair,) = x.into(); JsonAcct { n: p.0.to_string(), s: p.1 } } }
impl From<JsonAcct> for AcctV { fn from(x: JsonAcct) -> Self { WPair(x.n.parse().unwrap(), x.s).into() } }
versioned::impl_from_with_proxy!(Acct, AcctV, JsonAcct);

#[derive(Debug, Clone, PartialEq)]
pub struct Acct2(pub i64, pub String);
impl From<Acct2> for WPair { fn from(x: Acct2) -> Self { WPair(x.0, x.1) } }
impl From<WPair> for Acct2 { fn from(x: WPair) -> Self { Acct2(x.0, x.1) } }
pub type PairV = Versioned<WPair, 6>;
versioned::impl_from_for_versioned_with_proxy!(Acct2, WPair, PairV);

#[derive(Debug, Clone, PartialEq)]
pub struct Acct3(pub i64, pub String);
impl From<Acct3> for WPair { fn from(x: Acct3) -> Self { WPair(x.0, x.1) } }
impl From<WPair> for Acct3 { fn from(x: WPair) -> Self { Acct3(x.0, x.1) } }
pub type PairVV = Versioned<Versioned<WPair, 2>, 3>;
versioned::impl_from_for_generic_with_proxy!(Acct3, WPair, PairVV);

// ---- generators
fn i(t: &mut Tape) -> i64 {
    gen_int(t, i64::MIN as i128, i64::MAX as i128) as i64
}
fn s(t: &mut Tape) -> String {
    let n = t.draw(6) as usize;
    gen_str(t, n)
}
fn vi(t: &mut Tape) -> Vec<i64> {
    (0..t.draw(5)).map(|_| i(t)).collect()
}
fn vs(t: &mut Tape) -> Vec<String> {
    (0..t.draw(4)).map(|_| s(t)).collect()
}
fn o<T>(t: &mut Tape, f: impl Fn(&mut Tape) -> T) -> Option<T> {
    if t.draw(2) == 0 { None } else { Some(f(t)) }
}
fn named(t: &mut Tape) -> Named {
    Named { a: i(t), b: i(t), c: s(t), d: vi(t), e: o(t, i), f: Box::new(i(t)), g: vs(t), h: o(t, s) }
}
fn tup(t: &mut Tape) -> Tup {
    Tup(i(t), i(t), vi(t), o(t, i), Box::new(i(t)), i(t))
}
fn enm(t: &mut Tape) -> Enum {
    match t.draw(7) {
        0 => Enum::V1,
        1 => Enum::V2(i(t)),
        2 => Enum::V3(i(t), o(t, i), vi(t), Box::new(i(t)), i(t)),
        3 => Enum::V4 { f1: i(t) },
        4 => Enum::V5 { f1: i(t), f2: o(t, i), f3: vi(t), f4: Box::new(i(t)), f5: i(t) },
        5 => Enum::V6(vs(t), vs(t)),
        _ => Enum::V7,
    }
}
fn outer(t: &mut Tape) -> Outer {
    Outer { head: named(t), list: (0..t.draw(4)).map(|_| enm(t)).collect(), opt: o(t, tup), boxed: Box::new(enm(t)) }
}

// ---- the expected wire encoding, written out by hand from the internal value
struct E(Vec<u8>);
impl E {
    fn ver(&mut self, v: u16) -> &mut Self { crate::model::enc_int(&mut self.0, v as i64); self }
    fn i(&mut self, v: i64) -> &mut Self { crate::model::enc_int(&mut self.0, v); self }
    fn s(&mut self, v: &str) -> &mut Self { crate::model::enc_nat0(&mut self.0, v.len() as u64); self.0.extend_from_slice(v.as_bytes()); self }
    fn vi(&mut self, v: &[i64]) -> &mut Self { crate::model::enc_nat0(&mut self.0, v.len() as u64); for x in v { self.i(*x); } self }
    fn vs(&mut self, v: &[String]) -> &mut Self { crate::model::enc_nat0(&mut self.0, v.len() as u64); for x in v { self.s(x); } self }
    fn oi(&mut self, v: &Option<i64>) -> &mut Self { match v { None => self.0.push(0), Some(x) => { self.0.push(1); self.i(*x); } } self }
    fn os(&mut self, v: &Option<String>) -> &mut Self { match v { None => self.0.push(0), Some(x) => { self.0.push(1); self.s(x); } } self }
    fn named(&mut self, n: &Named) -> &mut Self { self.i(n.a).i(n.b).s(&n.c).vi(&n.d).oi(&n.e).i(*n.f).vs(&n.g).os(&n.h) }
    fn named2(&mut self, n: &Named) -> &mut Self { self.os(&n.h).i(*n.f).i(n.b).vs(&n.g).i(n.a).oi(&n.e).vi(&n.d).s(&n.c) }
    fn tup(&mut self, n: &Tup) -> &mut Self { self.i(n.0).i(n.1).vi(&n.2).oi(&n.3).i(*n.4).i(n.5) }
    fn enm(&mut self, n: &Enum) -> &mut Self {
        match n {
            Enum::V1 => { self.0.push(0); self }
            Enum::V2(a) => { self.0.push(1); self.i(*a) }
            Enum::V3(a, b, c, d, e) => { self.0.push(2); self.i(*a).oi(b).vi(c).i(**d).i(*e) }
            Enum::V4 { f1 } => { self.0.push(3); self.i(*f1) }
            Enum::V5 { f1, f2, f3, f4, f5 } => { self.0.push(4); self.i(*f1).oi(f2).vi(f3).i(**f4).i(*f5) }
            Enum::V6(a, b) => { self.0.push(5); self.vs(a).vs(b) }
            Enum::V7 => { self.0.push(6); self }
        }
    }
    fn outer(&mut self, n: &Outer) -> &mut Self {
        self.ver(1).named(&n.head);
        crate::model::enc_nat0(&mut self.0, n.list.len() as u64);
        for x in &n.list {
            self.ver(3).enm(x);
        }
        match &n.opt { None => self.0.push(0), Some(x) => { self.0.push(1); self.ver(2).tup(x); } }
        self.enm(&n.boxed)
    }
}

/// one value through `hops` links: internal -> wire -> faulty link -> wire -> internal.
/// A hop may crash after storing the received bytes and restart from them.
fn travel<I, W>(ctx: &mut Ctx, start: I, want: Vec<u8>, hops: u64) -> Outcome
where
    I: Clone + PartialEq + std::fmt::Debug + From<W>,
    W: Clone + PartialEq + std::fmt::Debug + From<I> + Serialize + DeserializeOwned,
{
    let mut here = start.clone();
    for hop in 0..hops {
        let f = Faults::soft(&mut ctx.tape, want.len());
        let g = Faults::soft(&mut ctx.tape, want.len());
        let crash = ctx.tape.draw(4) == 3;
        ctx.event(|| format!("hop {hop}: {here:.200?} as {} crash {crash} {f:?} {g:?}", std::any::type_name::<W>()));
        let next = shared(ctx, |env| {
            let step = guarded(|| {
                let wire: W = here.clone().into();
                let mut w = SimWriter::new(env, f);
                to_writer(&mut w, &wire).map(|_| (wire, w.out))
            });
            let (wire, bytes) = match step {
                Ok(Ok(x)) => x,
                Ok(Err(e)) => return bad("wire-refused", format!("{e:?}")).map(|_| None),
                Err(p) => return bad("panic", p).map(|_| None),
            };
            if bytes != want {
                return bad("wrong-wire-encoding", format!("hop {hop}: {start:.300?} as {}: {} instead of {}", std::any::type_name::<W>(), hex(&bytes), hex(&want))).map(|_| None);
            }
            let times = if crash { env.with(|c| c.fault("node-crash-restart")); 2 } else { 1 };
            let mut got: Option<I> = None;
            for _ in 0..times {
                // after a restart only the stored bytes are left
                let mut r = SimReader::new(env, &bytes, g.clone());
                match guarded(|| from_reader_strict::<_, W>(&mut r)) {
                    Ok(Ok(w2)) => {
                        if w2 != wire {
                            return bad("wire-value-changed", format!("{wire:.300?} arrived as {w2:.300?}")).map(|_| None);
                        }
                        got = Some(I::from(w2));
                    }
                    Ok(Err(e)) => return bad("wire-refused", format!("{e:?}")).map(|_| None),
                    Err(p) => return bad("panic", p).map(|_| None),
                }
            }
            Ok(got)
        })?;
        here = next.unwrap();
        if here != start {
            return bad("conversion-changed-value", format!("hop {hop} via {}: {start:.400?} became {here:.400?}", std::any::type_name::<W>()));
        }
    }
    ctx.probe("value-kept");
    Ok(())
}

/// newtype wrappers so that foreign impls can be used through From
pub fn c09(ctx: &mut Ctx) -> Outcome {
    let hops = ctx.tape.range(1, 3);
    let which = ctx.tape.draw(20);
    let t = &mut ctx.tape;
    let mut e = E(vec![]);
    match which {
        0 => { let v = named(t); e.named(&v); travel::<Named, WNamed>(ctx, v, e.0, hops) }
        1 => { let v = named(t); e.ver(1).named(&v); travel::<Named, Versioned<WNamed, 1>>(ctx, v, e.0, hops) }
        2 => { let v = named(t); e.ver(7).ver(2).named(&v); travel::<Named, Versioned<Versioned<WNamed, 2>, 7>>(ctx, v, e.0, hops) }
        3 => { let v = named(t); e.named2(&v); travel::<Named, WNamed2>(ctx, v, e.0, hops) }
        4 => { let v = named(t); e.ver(300).named2(&v); travel::<Named, Versioned<WNamed2, 300>>(ctx, v, e.0, hops) }
        5 => { let v = tup(t); e.tup(&v); travel::<Tup, WTuple>(ctx, v, e.0, hops) }
        6 => { let v = tup(t); e.ver(40).ver(200).tup(&v); travel::<Tup, Versioned<Versioned<WTuple, 200>, 40>>(ctx, v, e.0, hops) }
        7 => { let v = enm(t); e.enm(&v); travel::<Enum, WEnum>(ctx, v, e.0, hops) }
        8 => { let v = enm(t); e.ver(1).enm(&v); travel::<Enum, Versioned<WEnum, 1>>(ctx, v, e.0, hops) }
        9 => { let v = outer(t); e.outer(&v); travel::<Outer, WOuter>(ctx, v, e.0, hops) }
        10 => { let v = outer(t); e.ver(1).outer(&v); travel::<Outer, Versioned<WOuter, 1>>(ctx, v, e.0, hops) }
        11 => {
            // the version wrappers themselves, up to four deep
            let v = Amount(gen_int(t, 0, u32::MAX as i128) as u32);
            match t.draw(3) {
                0 => { e.ver(11).i(v.0 as i64); travel::<Amount, Versioned<Amount, 11>>(ctx, v, e.0, hops) }
                1 => { e.ver(12).ver(11).i(v.0 as i64); travel::<Amount, Versioned<Versioned<Amount, 11>, 12>>(ctx, v, e.0, hops) }
                _ => {
                    e.ver(4).ver(3).ver(2).ver(1).i(v.0 as i64);
                    travel::<Deep, Versioned<Versioned<Versioned<Versioned<u32, 1>, 2>, 3>, 4>>(ctx, Deep(v.0), e.0, hops)
                }
            }
        }
        12 => {
            let n = gen_int(t, 0, u32::MAX as i128) as u32;
            e.ver(9).ver(4).i(n as i64);
            travel::<FeeI, FeeV>(ctx, FeeI(n), e.0, hops)
        }
        15 => { let v = named(t); e.ver(9).ver(7).ver(2).named(&v); travel::<Named, Versioned<Versioned<Versioned<WNamed, 2>, 7>, 9>>(ctx, v, e.0, hops) }
        16 => { let v = enm(t); e.ver(1).ver(9).ver(7).ver(2).enm(&v); travel::<Enum, Versioned<Versioned<Versioned<Versioned<WEnum, 2>, 7>, 9>, 1>>(ctx, v, e.0, hops) }
        17 => { let v = tup(t); e.ver(3).ver(2).ver(1).tup(&v); travel::<Tup, Versioned<Versioned<Versioned<WTuple, 1>, 2>, 3>>(ctx, v, e.0, hops) }
        18 => { let v = outer(t); e.ver(500).ver(40).ver(3).ver(127).outer(&v); travel::<Outer, Versioned<Versioned<Versioned<Versioned<WOuter, 127>, 3>, 40>, 500>>(ctx, v, e.0, hops) }
        19 => {
            // accessors and default of the wrapper
            let n = gen_int(t, 0, u32::MAX as i128) as u32;
            ctx.nontrivial = true;
            let r = guarded(|| {
                let v = Versioned::<u32, 77>::new(n);
                let d = Versioned::<Versioned<Vec<u8>, 3>, 200>::default();
                let mut out = vec![];
                to_writer(&mut out, &d).map(|_| (v.version(), v.clone().inner(), v.version, v.t, d.version(), d.t.version(), d.t.t.len(), out))
            });
            let mut want = E(vec![]);
            want.ver(200).ver(3).i(0);
            match r {
                Ok(Ok(x)) if x == (77, n, 77, n, 200, 3, 0, want.0.clone()) => Ok(()),
                x => bad("wrong-version", format!("new({n}) and default() give {x:?}")),
            }
        }
        13 => {
            let (n, st) = (i(t), s(t));
            let a = Acct(n, st.clone());
            // to JSON and back through the versioned intermediate
            let j: JsonAcct = a.clone().into();
            if j.n != n.to_string() || j.s != st {
                return bad("conversion-changed-value", format!("{a:?} became {j:?}"));
            }
            let b: Acct = j.into();
            if b != a {
                return bad("conversion-changed-value", format!("{a:?} became {b:?}"));
            }
            e.ver(5).i(n).s(&st);
            travel::<Acct, AcctV>(ctx, a, e.0, hops)
        }
        _ => {
            let (n, st) = (i(t), s(t));
            if t.draw(2) == 0 {
                e.ver(6).i(n).s(&st);
                travel::<Acct2, PairV>(ctx, Acct2(n, st), e.0, hops)
            } else {
                e.ver(3).ver(2).i(n).s(&st);
                travel::<Acct3, PairVV>(ctx, Acct3(n, st), e.0, hops)
            }
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Deep(u32);
type DeepV = Versioned<Versioned<Versioned<Versioned<u32, 1>, 2>, 3>, 4>;
impl From<Deep> for DeepV { fn from(x: Deep) -> Self { x.0.into() } }
impl From<DeepV> for Deep { fn from(x: DeepV) -> Self { let (n,): (u32,) = x.into(); Deep(n) } }
#[derive(Debug, Clone, PartialEq)]
struct FeeI(u32);
impl From<FeeI> for FeeV { fn from(x: FeeI) -> Self { Fee(x.0).into() } }
impl From<FeeV> for FeeI { fn from(x: FeeV) -> Self { FeeI(Fee::from(x).0) } }
