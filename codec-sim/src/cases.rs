//! What is sent: dynamic types (drawn from the tape) and a table of ordinary derived types.
use crate::model::*;
use bin_prot::error::Error;
use bin_prot::{from_reader, from_reader_strict, to_writer, Deserializer};
use serde::de::{Deserialize, DeserializeOwned, DeserializeSeed};
use serde::Serialize;
use simcore::Tape;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::rc::Rc;
use versioned::Versioned;

pub type Res<T> = Result<T, Error>;

thread_local! { static CUR: RefCell<Rc<Ty>> = RefCell::new(Rc::new(Ty::Unit)); }

/// lets the convenience functions (which want a `Deserialize` type) decode a dynamic type
struct DynVal(Val);
impl<'de> Deserialize<'de> for DynVal {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = CUR.with(|c| c.borrow().clone());
        Seed(&t).deserialize(d).map(DynVal)
    }
}

pub enum Case {
    Dyn(Rc<Ty>),
    Static(&'static Ops),
}
pub struct Ops {
    pub name: &'static str,
    pub ty: fn() -> Ty,
    pub enc: fn(&mut dyn Write, &Val) -> Res<()>,
    pub dec: fn(&mut dyn Read) -> Res<Val>,
    pub strict: fn(&mut dyn Read) -> Res<Val>,
    pub stream: fn(&mut dyn Read, &mut dyn FnMut(Res<Val>, usize) -> bool),
}

impl Case {
    pub fn ty(&self) -> Rc<Ty> {
        match self {
            Case::Dyn(t) => t.clone(),
            Case::Static(o) => Rc::new((o.ty)()),
        }
    }
    pub fn name(&self) -> String {
        match self {
            Case::Dyn(t) => format!("{t:?}"),
            Case::Static(o) => o.name.into(),
        }
    }
    pub fn encode(&self, w: &mut dyn Write, v: &Val) -> Res<()> {
        let mut w = w;
        match self {
            Case::Dyn(t) => to_writer(&mut w, &Dyn(t, v)),
            Case::Static(o) => (o.enc)(w, v),
        }
    }
    /// from_reader
    pub fn decode(&self, r: &mut dyn Read) -> Res<Val> {
        match self {
            Case::Dyn(t) => {
                CUR.with(|c| *c.borrow_mut() = t.clone());
                from_reader::<_, DynVal>(r).map(|v| v.0)
            }
            Case::Static(o) => (o.dec)(r),
        }
    }
    /// from_reader_strict
    pub fn strict(&self, r: &mut dyn Read) -> Res<Val> {
        match self {
            Case::Dyn(t) => {
                CUR.with(|c| *c.borrow_mut() = t.clone());
                from_reader_strict::<_, DynVal>(r).map(|v| v.0)
            }
            Case::Static(o) => (o.strict)(r),
        }
    }
    /// one deserializer for a whole stream; `on(result, bytes left in its buffer)` returns false to stop
    pub fn stream(&self, r: &mut dyn Read, on: &mut dyn FnMut(Res<Val>, usize) -> bool) {
        match self {
            Case::Dyn(t) => {
                let mut de = Deserializer::from_reader(r);
                loop {
                    let v = Seed(t).deserialize(&mut de);
                    let left = de.rdr.buffer().len();
                    if !on(v, left) {
                        break;
                    }
                }
            }
            Case::Static(o) => (o.stream)(r, on),
        }
    }
}

/// a message with a part of thousands of bytes, around the sizes where buffers and length encodings change
fn big(t: &mut Tape) -> (Case, Val) {
    let n = *t.pick(&[4096usize, 8192, 8192, 16384, 32768, 65536, 65536, 131072]) + t.draw(9) as usize - 4;
    let s = match t.draw(2) {
        0 => "s".repeat(n),
        _ => (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect(),
    };
    let (ty, v) = match t.draw(5) {
        0 => (Ty::Str, Val::Str(s)),
        1 => (Ty::Seq(Box::new(Ty::U8)), Val::Seq(s.bytes().map(|b| Val::Int(b as i128)).collect())),
        2 => {
            let (a, va) = gen_typed(t, 1);
            let (b, vb) = gen_typed(t, 1);
            (Ty::Tuple(vec![a, Ty::Str, b]), Val::Prod(vec![va, Val::Str(s), vb]))
        }
        3 => {
            let k = n / 8;
            (Ty::Seq(Box::new(Ty::I64)), Val::Seq((0..k).map(|i| Val::Int(i as i128 * 0x0102_0304_0506 - 70_000)).collect()))
        }
        _ => (Ty::Seq(Box::new(Ty::Str)), Val::Seq(s.as_bytes().chunks(700).map(|c| Val::Str(String::from_utf8(c.to_vec()).unwrap())).collect())),
    };
    (Case::Dyn(Rc::new(ty)), v)
}
pub fn gen_case(t: &mut Tape, depth: u32) -> (Case, Val) {
    if t.draw(400) == 399 {
        return big(t);
    }
    if t.draw(3) == 2 {
        let o = t.pick(&STATICS);
        let ty = (o.ty)();
        let mut b = 1200;
        let v = gen_val(t, &ty, &mut b);
        (Case::Static(o), v)
    } else {
        let (ty, v) = gen_typed(t, depth);
        (Case::Dyn(Rc::new(ty)), v)
    }
}
/// another value of the same case
pub fn gen_more(t: &mut Tape, c: &Case) -> Val {
    let mut b = 600;
    gen_val(t, &c.ty(), &mut b)
}

// ---------------------------------------------------------------- static types

pub trait Modeled: Serialize + DeserializeOwned {
    fn ty() -> Ty;
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}
macro_rules! m_int { ($($t:ty => $k:ident),*) => { $(impl Modeled for $t {
    fn ty() -> Ty { Ty::$k }
    fn to_val(&self) -> Val { Val::Int(*self as i128) }
    fn from_val(v: &Val) -> Self { match v { Val::Int(n) => *n as $t, _ => panic!("model") } }
})* } }
m_int!(i8 => I8, i16 => I16, i32 => I32, i64 => I64, u8 => U8, u16 => U16, u32 => U32, u64 => U64);
impl Modeled for bool {
    fn ty() -> Ty { Ty::Bool }
    fn to_val(&self) -> Val { Val::Bool(*self) }
    fn from_val(v: &Val) -> Self { *v == Val::Bool(true) }
}
impl Modeled for () {
    fn ty() -> Ty { Ty::Unit }
    fn to_val(&self) -> Val { Val::Unit }
    fn from_val(_: &Val) -> Self {}
}
impl Modeled for char {
    fn ty() -> Ty { Ty::Char }
    fn to_val(&self) -> Val { Val::Char(u8::try_from(*self as u32).unwrap_or(b'?')) }
    fn from_val(v: &Val) -> Self { match v { Val::Char(c) => *c as char, _ => panic!("model") } }
}
impl Modeled for f32 {
    fn ty() -> Ty { Ty::F32 }
    fn to_val(&self) -> Val { Val::F32(self.to_bits()) }
    fn from_val(v: &Val) -> Self { match v { Val::F32(c) => f32::from_bits(*c), _ => panic!("model") } }
}
impl Modeled for f64 {
    fn ty() -> Ty { Ty::F64 }
    fn to_val(&self) -> Val { Val::F64(self.to_bits()) }
    fn from_val(v: &Val) -> Self { match v { Val::F64(c) => f64::from_bits(*c), _ => panic!("model") } }
}
impl Modeled for String {
    fn ty() -> Ty { Ty::Str }
    fn to_val(&self) -> Val { Val::Str(self.clone()) }
    fn from_val(v: &Val) -> Self { match v { Val::Str(s) => s.clone(), _ => panic!("model") } }
}
impl<T: Modeled> Modeled for Option<T> {
    fn ty() -> Ty { Ty::Option(Box::new(T::ty())) }
    fn to_val(&self) -> Val { match self { None => Val::None, Some(x) => Val::Some(Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Some(x) => Some(T::from_val(x)), _ => None } }
}
impl<T: Modeled> Modeled for Vec<T> {
    fn ty() -> Ty { Ty::Seq(Box::new(T::ty())) }
    fn to_val(&self) -> Val { Val::Seq(self.iter().map(|x| x.to_val()).collect()) }
    fn from_val(v: &Val) -> Self { match v { Val::Seq(x) => x.iter().map(T::from_val).collect(), _ => panic!("model") } }
}
impl<T: Modeled> Modeled for Box<T> {
    fn ty() -> Ty { T::ty() }
    fn to_val(&self) -> Val { (**self).to_val() }
    fn from_val(v: &Val) -> Self { Box::new(T::from_val(v)) }
}
fn parts(v: &Val) -> &[Val] {
    match v { Val::Prod(p) => p, Val::Variant(_, p) => p, _ => panic!("model") }
}
macro_rules! m_tuple { ($($n:ident $i:tt),*) => { impl<$($n: Modeled),*> Modeled for ($($n,)*) {
    fn ty() -> Ty { Ty::Tuple(vec![$($n::ty()),*]) }
    fn to_val(&self) -> Val { Val::Prod(vec![$(self.$i.to_val()),*]) }
    fn from_val(v: &Val) -> Self { let p = parts(v); ($($n::from_val(&p[$i]),)*) }
} } }
m_tuple!(A 0, B 1);
m_tuple!(A 0, B 1, C 2);
macro_rules! m_arr { ($($n:literal),*) => { $(impl<T: Modeled + std::fmt::Debug> Modeled for [T; $n] {
    fn ty() -> Ty { Ty::Tuple((0..$n).map(|_| T::ty()).collect()) }
    fn to_val(&self) -> Val { Val::Prod(self.iter().map(|x| x.to_val()).collect()) }
    fn from_val(v: &Val) -> Self { let x: Vec<T> = parts(v).iter().map(T::from_val).collect(); x.try_into().unwrap() }
})* } }
m_arr!(3, 32);
impl<T: Modeled, const V: u16> Modeled for Versioned<T, V> {
    fn ty() -> Ty { Ty::Struct(vec![Ty::U16, T::ty()]) }
    fn to_val(&self) -> Val { Val::Prod(vec![Val::Int(self.version as i128), self.t.to_val()]) }
    fn from_val(v: &Val) -> Self {
        let p = parts(v);
        let mut x = Versioned::new(T::from_val(&p[1]));
        x.version = u16::from_val(&p[0]);
        x
    }
}
macro_rules! m_struct { ($name:ident { $($f:ident : $t:ty),* }) => {
    #[derive(Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
    pub struct $name { $(pub $f: $t),* }
    impl Modeled for $name {
        fn ty() -> Ty { Ty::Struct(vec![$(<$t>::ty()),*]) }
        fn to_val(&self) -> Val { Val::Prod(vec![$(self.$f.to_val()),*]) }
        #[allow(unused_assignments)]
        fn from_val(v: &Val) -> Self { let p = parts(v); let mut i = 0; $(let $f = <$t>::from_val(&p[i]); i += 1;)* $name { $($f),* } }
    }
} }
m_struct!(Payment { receiver: Vec<u8>, amount: u64, memo: String, fee: Option<u32> });
m_struct!(Header { version: i64, hash: [u8; 32], weight: f64, flag: bool });
m_struct!(Block { header: Versioned<Header, 1>, body: Versioned<Vec<Versioned<Payment, 1>>, 1>, tail: Option<Box<Msg>>, kind: Poly });
m_struct!(Mixed { a: i8, b: i16, c: i32, d: u16, e: f32, f: char, g: (), h: (u8, String), i: Option<Option<bool>> });

#[derive(Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
pub enum Msg {
    Ping,
    Num(i64),
    Pair(u32, String),
    Rec { x: Vec<i32>, y: Option<f64> },
    Deep(Option<Vec<(u16, bool)>>),
}
impl Modeled for Msg {
    fn ty() -> Ty {
        Ty::Enum {
            poly: None,
            variants: vec![
                Shape::Unit,
                Shape::Newtype(Ty::I64),
                Shape::Tuple(vec![Ty::U32, Ty::Str]),
                Shape::Struct(vec![Vec::<i32>::ty(), Option::<f64>::ty()]),
                Shape::Newtype(Option::<Vec<(u16, bool)>>::ty()),
            ],
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Msg::Ping => Val::Variant(0, vec![]),
            Msg::Num(n) => Val::Variant(1, vec![n.to_val()]),
            Msg::Pair(a, b) => Val::Variant(2, vec![a.to_val(), b.to_val()]),
            Msg::Rec { x, y } => Val::Variant(3, vec![x.to_val(), y.to_val()]),
            Msg::Deep(x) => Val::Variant(4, vec![x.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        let p = parts(v);
        match v {
            Val::Variant(0, _) => Msg::Ping,
            Val::Variant(1, _) => Msg::Num(i64::from_val(&p[0])),
            Val::Variant(2, _) => Msg::Pair(u32::from_val(&p[0]), String::from_val(&p[1])),
            Val::Variant(3, _) => Msg::Rec { x: Modeled::from_val(&p[0]), y: Modeled::from_val(&p[1]) },
            _ => Msg::Deep(Modeled::from_val(&p[0])),
        }
    }
}

#[derive(Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
#[serde(rename = "Polyvar")]
pub enum Poly {
    One(i32),
    Two(String),
    A,
    None(bool, u8),
    #[serde(rename = "z")]
    Z { q: Option<i64> },
}
impl Modeled for Poly {
    fn ty() -> Ty {
        Ty::Enum {
            poly: Some((false, 0)),
            variants: vec![
                Shape::Newtype(Ty::I32),
                Shape::Newtype(Ty::Str),
                Shape::Unit,
                Shape::Tuple(vec![Ty::Bool, Ty::U8]),
                Shape::Struct(vec![Option::<i64>::ty()]),
            ],
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Poly::One(n) => Val::Variant(0, vec![n.to_val()]),
            Poly::Two(n) => Val::Variant(1, vec![n.to_val()]),
            Poly::A => Val::Variant(2, vec![]),
            Poly::None(a, b) => Val::Variant(3, vec![a.to_val(), b.to_val()]),
            Poly::Z { q } => Val::Variant(4, vec![q.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        let p = parts(v);
        match v {
            Val::Variant(0, _) => Poly::One(Modeled::from_val(&p[0])),
            Val::Variant(1, _) => Poly::Two(Modeled::from_val(&p[0])),
            Val::Variant(2, _) => Poly::A,
            Val::Variant(3, _) => Poly::None(Modeled::from_val(&p[0]), Modeled::from_val(&p[1])),
            _ => Poly::Z { q: Modeled::from_val(&p[0]) },
        }
    }
}
#[derive(Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
pub struct Wrap(pub Vec<Msg>);
impl Modeled for Wrap {
    fn ty() -> Ty { Ty::Newtype(Box::new(Vec::<Msg>::ty())) }
    fn to_val(&self) -> Val { self.0.to_val() }
    fn from_val(v: &Val) -> Self { Wrap(Modeled::from_val(v)) }
}
#[derive(Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
pub struct Pt(pub i32, pub f32);
impl Modeled for Pt {
    fn ty() -> Ty { Ty::TupleStruct(vec![Ty::I32, Ty::F32]) }
    fn to_val(&self) -> Val { Val::Prod(vec![self.0.to_val(), self.1.to_val()]) }
    fn from_val(v: &Val) -> Self { let p = parts(v); Pt(Modeled::from_val(&p[0]), Modeled::from_val(&p[1])) }
}

fn s_enc<T: Modeled>(w: &mut dyn Write, v: &Val) -> Res<()> {
    let mut w = w;
    to_writer(&mut w, &T::from_val(v))
}
fn s_dec<T: Modeled>(r: &mut dyn Read) -> Res<Val> {
    from_reader::<_, T>(r).map(|v| v.to_val())
}
fn s_strict<T: Modeled>(r: &mut dyn Read) -> Res<Val> {
    from_reader_strict::<_, T>(r).map(|v| v.to_val())
}
fn s_stream<T: Modeled>(r: &mut dyn Read, on: &mut dyn FnMut(Res<Val>, usize) -> bool) {
    let mut de = Deserializer::from_reader(r);
    loop {
        let v = T::deserialize(&mut de).map(|v| v.to_val());
        let left = de.rdr.buffer().len();
        if !on(v, left) {
            break;
        }
    }
}
macro_rules! ops { ($($t:ty),* $(,)?) => { [$(Ops { name: stringify!($t), ty: <$t as Modeled>::ty, enc: s_enc::<$t>, dec: s_dec::<$t>, strict: s_strict::<$t>, stream: s_stream::<$t> }),*] } }
pub static STATICS: [Ops; 16] = ops![
    Payment,
    Header,
    Block,
    Mixed,
    Msg,
    Poly,
    Wrap,
    Pt,
    Vec<Poly>,
    Versioned<Versioned<Msg, 2>, 7>,
    Versioned<Versioned<Versioned<Versioned<u64, 1>, 2>, 3>, 200>,
    Option<Vec<Option<Box<Mixed>>>>,
    (String, Vec<u8>, f64),
    Vec<[u8; 32]>,
    [Msg; 3],
    Vec<f32>,
];
