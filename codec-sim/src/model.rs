//! Reference model of the bin_prot wire format: types, values, an independent encoder and
//! decoder, and the glue that drives the real serializer/deserializer with dynamic types.
use serde::de::{DeserializeSeed, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    Serialize, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use simcore::Tape;
use std::fmt;

pub static NAMES: [&str; 16] = [
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p",
];
/// polyvar labels; windows of this table are used as the variant lists
pub static LABELS: [&str; 24] = [
    "One", "Two", "A", "None", "z", "Some", "Fee", "B", "Dog", "Cat", "ok", "Err", "P1", "P2",
    "Vest", "Full", "x", "yz", "Tick", "Tock", "No", "Yes", "Left", "Rght",
];
/// lists that contain labels outside ASCII (those variants are never sent)
pub static LABELS_NA: [&str; 6] = ["One", "né", "Two", "Fee", "日", "Cat"];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unit,
    Bool,
    Char,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Str,
    Option(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Struct(Vec<Ty>),
    UnitStruct,
    Newtype(Box<Ty>),
    /// polyvar: Some(label table window); shapes per variant
    Enum { poly: Option<(bool, usize)>, variants: Vec<Shape> },
}
#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Unit,
    Newtype(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    Char(u8),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    Prod(Vec<Val>),
    Variant(usize, Vec<Val>),
}

pub fn variant_names(poly: &Option<(bool, usize)>, n: usize) -> &'static [&'static str] {
    match poly {
        None => &NAMES[..n],
        Some((false, off)) => &LABELS[*off..*off + n],
        Some((true, off)) => &LABELS_NA[*off..*off + n],
    }
}

/// OCaml's variant hash (31 bits)
pub fn ocaml_hash(label: &str) -> u32 {
    let mut a: u64 = 0;
    for b in label.bytes() {
        a = (223 * a + b as u64) & 0x7fff_ffff;
    }
    a as u32
}

pub fn int_bounds(t: &Ty) -> Option<(i128, i128)> {
    Some(match t {
        Ty::I8 => (i8::MIN as i128, i8::MAX as i128),
        Ty::I16 => (i16::MIN as i128, i16::MAX as i128),
        Ty::I32 => (i32::MIN as i128, i32::MAX as i128),
        Ty::I64 => (i64::MIN as i128, i64::MAX as i128),
        Ty::U8 => (0, 255),
        Ty::U16 => (0, u16::MAX as i128),
        Ty::U32 => (0, u32::MAX as i128),
        Ty::U64 => (0, i64::MAX as i128), // the format has no unsigned 64 bit encoding, see known findings
        _ => return None,
    })
}

// ---------------------------------------------------------------- generation

pub fn gen_ty(t: &mut Tape, depth: u32, zero_width_ok: bool) -> Ty {
    let n = if depth == 0 { 14 } else { 24 };
    match t.draw(n) {
        0 => Ty::U8,
        1 => Ty::Bool,
        2 => Ty::I64,
        3 => Ty::Char,
        4 => Ty::I8,
        5 => Ty::I16,
        6 => Ty::I32,
        7 => Ty::U16,
        8 => Ty::U32,
        9 => Ty::U64,
        10 => Ty::F32,
        11 => Ty::F64,
        12 => Ty::Str,
        13 => Ty::Unit,
        14 => Ty::UnitStruct,
        15 => Ty::Option(Box::new(gen_ty(t, depth - 1, zero_width_ok))),
        16 | 17 => Ty::Seq(Box::new(gen_ty(t, depth - 1, false))),
        18 => Ty::Tuple(gen_tys(t, depth - 1, 1, 4, zero_width_ok)),
        19 => Ty::TupleStruct(gen_tys(t, depth - 1, 2, 4, zero_width_ok)),
        20 | 21 => {
            let lo = if zero_width_ok { 0 } else { 1 };
            Ty::Struct(gen_tys(t, depth - 1, lo, 6, zero_width_ok))
        }
        22 => Ty::Newtype(Box::new(gen_ty(t, depth - 1, zero_width_ok))),
        _ => {
            let poly = match t.draw(4) {
                0 | 1 => None,
                2 => Some((false, t.draw(17) as usize)),
                _ => Some((true, t.draw(3) as usize)),
            };
            let max = match poly { Some((true, _)) => 3, Some(_) => 7, None => 7 };
            let k = t.range(1, max) as usize;
            let mut variants = vec![];
            for _ in 0..k {
                variants.push(match t.draw(4) {
                    0 => Shape::Unit,
                    1 => Shape::Newtype(gen_ty(t, depth - 1, true)),
                    2 => Shape::Tuple(gen_tys(t, depth - 1, 2, 3, true)),
                    _ => Shape::Struct(gen_tys(t, depth - 1, 1, 3, true)),
                });
            }
            Ty::Enum { poly, variants }
        }
    }
}
fn gen_tys(t: &mut Tape, depth: u32, lo: u64, hi: u64, z: bool) -> Vec<Ty> {
    let n = t.range(lo, hi);
    (0..n).map(|_| gen_ty(t, depth, z)).collect()
}

pub fn gen_int(t: &mut Tape, lo: i128, hi: i128) -> i128 {
    let v = match t.draw(6) {
        0 => t.draw(128) as i128,
        1 => {
            // around a power of two
            let k = t.draw(64);
            let d = t.draw(5) as i128 - 2;
            let s = if t.draw(2) == 1 { -1 } else { 1 };
            s * (1i128 << k) + d
        }
        2 => -(t.draw(300) as i128),
        3 => lo + t.draw(4) as i128,
        4 => hi - t.draw(4) as i128,
        _ => t.draw64() as i64 as i128,
    };
    if v >= lo && v <= hi { v } else { lo + v.rem_euclid(hi - lo + 1) }
}

/// length of a sequence or string, biased to the places where the length prefix changes size
pub fn gen_len(t: &mut Tape, budget: &mut i64) -> usize {
    let n = match t.draw(16) {
        0..=10 => t.draw(6),
        11 | 12 => t.draw(40),
        13 => 126 + t.draw(5),
        14 => 300 + t.draw(300),
        _ => *t.pick(&[0u64, 127, 128, 255, 256, 1000]),
    } as i64;
    let n = n.min((*budget).max(0));
    *budget -= n;
    n as usize
}

pub fn gen_str(t: &mut Tape, n: usize) -> String {
    let mut s = String::new();
    let style = t.draw(4);
    for _ in 0..n {
        s.push(match style {
            0 | 1 => (b'a' + t.draw(26) as u8) as char,
            2 => *t.pick(&['a', 'é', '日', '\u{0}', '\u{7f}', '\u{10FFFF}']),
            _ => t.draw(128) as u8 as char,
        });
    }
    s
}

pub fn gen_val(t: &mut Tape, ty: &Ty, budget: &mut i64) -> Val {
    *budget -= 1;
    if let Some((lo, hi)) = int_bounds(ty) {
        return Val::Int(gen_int(t, lo, hi));
    }
    match ty {
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Bool => Val::Bool(t.draw(2) == 1),
        Ty::Char => Val::Char(t.draw(256) as u8),
        Ty::F32 => Val::F32(match t.draw(4) {
            0 => (t.draw(100) as f32).to_bits(),
            1 => *t.pick(&[f32::NAN.to_bits(), f32::INFINITY.to_bits(), (-0.0f32).to_bits(), 1]),
            _ => t.draw(1 << 32) as u32,
        }),
        Ty::F64 => Val::F64(match t.draw(4) {
            0 => (t.draw(100) as f64).to_bits(),
            1 => *t.pick(&[f64::NAN.to_bits(), f64::INFINITY.to_bits(), (-0.0f64).to_bits(), 1]),
            _ => t.draw64(),
        }),
        Ty::Str => {
            let n = gen_len(t, budget);
            Val::Str(gen_str(t, n))
        }
        Ty::Option(i) => {
            if t.draw(3) == 0 { Val::None } else { Val::Some(Box::new(gen_val(t, i, budget))) }
        }
        Ty::Seq(i) => {
            let n = gen_len(t, budget);
            Val::Seq((0..n).map(|_| gen_val(t, i, budget)).collect())
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => {
            Val::Prod(ts.iter().map(|x| gen_val(t, x, budget)).collect())
        }
        Ty::Newtype(i) => gen_val(t, i, budget),
        Ty::Enum { poly, variants } => {
            let names = variant_names(poly, variants.len());
            let mut k = t.draw(variants.len() as u64) as usize;
            if poly.is_some() {
                for _ in 0..variants.len() {
                    if names[k].is_ascii() {
                        break;
                    }
                    k = (k + 1) % variants.len();
                }
            }
            let parts = match &variants[k] {
                Shape::Unit => vec![],
                Shape::Newtype(x) => vec![gen_val(t, x, budget)],
                Shape::Tuple(xs) | Shape::Struct(xs) => xs.iter().map(|x| gen_val(t, x, budget)).collect(),
            };
            Val::Variant(k, parts)
        }
        _ => unreachable!(),
    }
}

/// a polyvar type all of whose labels are non-ASCII has no value
pub fn inhabited(ty: &Ty) -> bool {
    match ty {
        Ty::Option(i) | Ty::Seq(i) | Ty::Newtype(i) => inhabited(i),
        Ty::Tuple(v) | Ty::TupleStruct(v) | Ty::Struct(v) => v.iter().all(inhabited),
        Ty::Enum { poly, variants } => {
            (poly.is_none() || variant_names(poly, variants.len()).iter().any(|n| n.is_ascii()))
                && variants.iter().all(|s| match s {
                    Shape::Unit => true,
                    Shape::Newtype(t) => inhabited(t),
                    Shape::Tuple(v) | Shape::Struct(v) => v.iter().all(inhabited),
                })
        }
        _ => true,
    }
}

pub fn gen_typed(t: &mut Tape, depth: u32) -> (Ty, Val) {
    let d = t.draw(depth as u64 + 1) as u32;
    let ty = gen_ty(t, d, false);
    let ty = if inhabited(&ty) { ty } else { Ty::Str };
    let mut budget = 1500;
    let v = gen_val(t, &ty, &mut budget);
    (ty, v)
}

// ---------------------------------------------------------------- reference encoder

pub fn enc_nat0(o: &mut Vec<u8>, n: u64) {
    if n < 0x80 {
        o.push(n as u8)
    } else if n < 0x1_0000 {
        o.push(0xfe);
        o.extend_from_slice(&(n as u16).to_le_bytes())
    } else if n < 0x1_0000_0000 {
        o.push(0xfd);
        o.extend_from_slice(&(n as u32).to_le_bytes())
    } else {
        o.push(0xfc);
        o.extend_from_slice(&n.to_le_bytes())
    }
}
pub fn enc_int(o: &mut Vec<u8>, n: i64) {
    if (0..0x80).contains(&n) {
        o.push(n as u8)
    } else if (-0x80..0).contains(&n) {
        o.push(0xff);
        o.push(n as i8 as u8)
    } else if n >= -0x8000 && n < 0x8000 {
        o.push(0xfe);
        o.extend_from_slice(&(n as i16).to_le_bytes())
    } else if n >= -0x8000_0000 && n < 0x8000_0000 {
        o.push(0xfd);
        o.extend_from_slice(&(n as i32).to_le_bytes())
    } else {
        o.push(0xfc);
        o.extend_from_slice(&n.to_le_bytes())
    }
}

/// `lens`: positions of every length prefix (offset, width) are appended
pub fn enc(ty: &Ty, v: &Val, o: &mut Vec<u8>, lens: &mut Vec<(usize, usize)>) {
    match (ty, v) {
        (Ty::Newtype(t), v) => enc(t, v, o, lens),
        (Ty::Unit, _) | (Ty::UnitStruct, _) => o.push(0),
        (Ty::Bool, Val::Bool(b)) => o.push(*b as u8),
        (Ty::Char, Val::Char(c)) => o.push(*c),
        (Ty::U8, Val::Int(n)) => o.push(*n as u8),
        (Ty::F32, Val::F32(b)) => o.extend_from_slice(&b.to_le_bytes()),
        (Ty::F64, Val::F64(b)) => o.extend_from_slice(&b.to_le_bytes()),
        (_, Val::Int(n)) => enc_int(o, *n as i64),
        (Ty::Str, Val::Str(s)) => {
            let p = o.len();
            enc_nat0(o, s.len() as u64);
            lens.push((p, o.len() - p));
            o.extend_from_slice(s.as_bytes())
        }
        (Ty::Option(_), Val::None) => o.push(0),
        (Ty::Option(t), Val::Some(v)) => {
            o.push(1);
            enc(t, v, o, lens)
        }
        (Ty::Seq(t), Val::Seq(vs)) => {
            let p = o.len();
            enc_nat0(o, vs.len() as u64);
            lens.push((p, o.len() - p));
            for v in vs {
                enc(t, v, o, lens)
            }
        }
        (Ty::Tuple(ts), Val::Prod(vs)) | (Ty::TupleStruct(ts), Val::Prod(vs)) | (Ty::Struct(ts), Val::Prod(vs)) => {
            for (t, v) in ts.iter().zip(vs) {
                enc(t, v, o, lens)
            }
        }
        (Ty::Enum { poly, variants }, Val::Variant(k, parts)) => {
            match poly {
                None => o.push(*k as u8),
                Some(_) => {
                    let h = ocaml_hash(variant_names(poly, variants.len())[*k]);
                    o.extend_from_slice(&((h << 1) | 1).to_le_bytes())
                }
            }
            match &variants[*k] {
                Shape::Unit => {}
                Shape::Newtype(t) => enc(t, &parts[0], o, lens),
                Shape::Tuple(ts) | Shape::Struct(ts) => {
                    for (t, v) in ts.iter().zip(parts) {
                        enc(t, v, o, lens)
                    }
                }
            }
        }
        (t, v) => panic!("model: {v:?} is not a {t:?}"),
    }
}
pub fn encode(ty: &Ty, v: &Val) -> Vec<u8> {
    let mut o = vec![];
    enc(ty, v, &mut o, &mut vec![]);
    o
}

// ---------------------------------------------------------------- reference decoder

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad {
    /// more bytes are needed
    Eof,
    /// not in the format, or does not fit the destination
    Invalid,
    /// the format definition leaves room (an untagged polyvar tag); either verdict is accepted
    Unsure,
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.b.len() - self.p < n {
            self.p = self.b.len();
            return Err(Bad::Eof);
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, Bad> {
        Ok(self.take(1)?[0])
    }
    fn le(&mut self, n: usize) -> Result<u64, Bad> {
        let mut a = [0u8; 8];
        a[..n].copy_from_slice(self.take(n)?);
        Ok(u64::from_le_bytes(a))
    }
    pub fn nat0(&mut self) -> Result<u64, Bad> {
        match self.u8()? {
            0xfe => self.le(2),
            0xfd => self.le(4),
            0xfc => self.le(8),
            x if x < 0x80 => Ok(x as u64),
            _ => Err(Bad::Invalid),
        }
    }
    pub fn int(&mut self) -> Result<i128, Bad> {
        Ok(match self.u8()? {
            0xff => self.u8()? as i8 as i128,
            0xfe => self.le(2)? as u16 as i16 as i128,
            0xfd => self.le(4)? as u32 as i32 as i128,
            0xfc => self.le(8)? as i64 as i128,
            x if x < 0x80 => x as i128,
            _ => return Err(Bad::Invalid),
        })
    }
    pub fn bytes(&mut self) -> Result<&'a [u8], Bad> {
        let n = self.nat0()?;
        if n > (self.b.len() - self.p) as u64 {
            self.p = self.b.len();
            return Err(Bad::Eof);
        }
        self.take(n as usize)
    }
    pub fn tag(&mut self) -> Result<u32, Bad> {
        let x = self.le(4)? as u32;
        if x & 1 == 0 {
            return Err(Bad::Unsure);
        }
        Ok(x >> 1)
    }
    pub fn f64(&mut self) -> Result<u64, Bad> {
        self.le(8)
    }
}

pub fn dec(ty: &Ty, r: &mut Rd) -> Result<Val, Bad> {
    Ok(match ty {
        Ty::Unit | Ty::UnitStruct => {
            if r.u8()? != 0 {
                return Err(Bad::Invalid);
            }
            Val::Unit
        }
        Ty::Bool => match r.u8()? {
            0 => Val::Bool(false),
            1 => Val::Bool(true),
            _ => return Err(Bad::Invalid),
        },
        Ty::Char => Val::Char(r.u8()?),
        Ty::U8 => Val::Int(r.u8()? as i128),
        Ty::F32 => Val::F32(r.le(4)? as u32),
        Ty::F64 => Val::F64(r.le(8)?),
        Ty::Str => match std::str::from_utf8(r.bytes()?) {
            Ok(s) => Val::Str(s.to_string()),
            Err(_) => return Err(Bad::Invalid),
        },
        Ty::Option(t) => match r.u8()? {
            0 => Val::None,
            1 => Val::Some(Box::new(dec(t, r)?)),
            _ => return Err(Bad::Invalid),
        },
        Ty::Seq(t) => {
            let n = r.nat0()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(dec(t, r)?);
            }
            Val::Seq(v)
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => {
            let mut v = vec![];
            for t in ts {
                v.push(dec(t, r)?);
            }
            Val::Prod(v)
        }
        Ty::Newtype(t) => dec(t, r)?,
        Ty::Enum { poly, variants } => {
            let k = match poly {
                None => r.u8()? as usize,
                Some(_) => {
                    let h = r.tag()?;
                    match variant_names(poly, variants.len())
                        .iter()
                        .position(|n| n.is_ascii() && ocaml_hash(n) == h)
                    {
                        Some(k) => k,
                        None => return Err(Bad::Invalid),
                    }
                }
            };
            let shape = variants.get(k).ok_or(Bad::Invalid)?;
            let mut parts = vec![];
            match shape {
                Shape::Unit => {}
                Shape::Newtype(t) => parts.push(dec(t, r)?),
                Shape::Tuple(ts) | Shape::Struct(ts) => {
                    for t in ts {
                        parts.push(dec(t, r)?)
                    }
                }
            }
            Val::Variant(k, parts)
        }
        t => {
            let (lo, hi) = int_bounds(t).unwrap();
            let n = r.int()?;
            if n < lo || n > hi {
                return Err(Bad::Invalid);
            }
            Val::Int(n)
        }
    })
}

// ---------------------------------------------------------------- driving the real serializer

pub struct Dyn<'a>(pub &'a Ty, pub &'a Val);

impl<'a> Serialize for Dyn<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("U"),
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c as char),
            (Ty::I8, Val::Int(n)) => s.serialize_i8(*n as i8),
            (Ty::I16, Val::Int(n)) => s.serialize_i16(*n as i16),
            (Ty::I32, Val::Int(n)) => s.serialize_i32(*n as i32),
            (Ty::I64, Val::Int(n)) => s.serialize_i64(*n as i64),
            (Ty::U8, Val::Int(n)) => s.serialize_u8(*n as u8),
            (Ty::U16, Val::Int(n)) => s.serialize_u16(*n as u16),
            (Ty::U32, Val::Int(n)) => s.serialize_u32(*n as u32),
            (Ty::U64, Val::Int(n)) => s.serialize_u64(*n as u64),
            (Ty::F32, Val::F32(b)) => s.serialize_f32(f32::from_bits(*b)),
            (Ty::F64, Val::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Ty::Str, Val::Str(x)) => s.serialize_str(x),
            (Ty::Option(_), Val::None) => s.serialize_none(),
            (Ty::Option(t), Val::Some(v)) => s.serialize_some(&Dyn(t, v)),
            (Ty::Seq(t), Val::Seq(vs)) => {
                let mut q = s.serialize_seq(Some(vs.len()))?;
                for v in vs {
                    q.serialize_element(&Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), Val::Prod(vs)) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_element(&Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::Prod(vs)) => {
                let mut q = s.serialize_tuple_struct("T", ts.len())?;
                for (t, v) in ts.iter().zip(vs) {
                    q.serialize_field(&Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::Struct(ts), Val::Prod(vs)) => {
                let mut q = s.serialize_struct("S", ts.len())?;
                for (i, (t, v)) in ts.iter().zip(vs).enumerate() {
                    q.serialize_field(NAMES[i], &Dyn(t, v))?;
                }
                q.end()
            }
            (Ty::Newtype(t), v) => s.serialize_newtype_struct("N", &Dyn(t, v)),
            (Ty::Enum { poly, variants }, Val::Variant(k, parts)) => {
                let name = if poly.is_some() { "Polyvar" } else { "E" };
                let names = variant_names(poly, variants.len());
                match &variants[*k] {
                    Shape::Unit => s.serialize_unit_variant(name, *k as u32, names[*k]),
                    Shape::Newtype(t) => {
                        s.serialize_newtype_variant(name, *k as u32, names[*k], &Dyn(t, &parts[0]))
                    }
                    Shape::Tuple(ts) => {
                        let mut q = s.serialize_tuple_variant(name, *k as u32, names[*k], ts.len())?;
                        for (t, v) in ts.iter().zip(parts) {
                            q.serialize_field(&Dyn(t, v))?;
                        }
                        q.end()
                    }
                    Shape::Struct(ts) => {
                        let mut q = s.serialize_struct_variant(name, *k as u32, names[*k], ts.len())?;
                        for (i, (t, v)) in ts.iter().zip(parts).enumerate() {
                            q.serialize_field(NAMES[i], &Dyn(t, v))?;
                        }
                        q.end()
                    }
                }
            }
            (t, v) => panic!("model: {v:?} is not a {t:?}"),
        }
    }
}

// ---------------------------------------------------------------- driving the real deserializer

#[derive(Clone, Copy)]
pub struct Seed<'a>(pub &'a Ty);

impl<'de, 'a> DeserializeSeed<'de> for Seed<'a> {
    type Value = Val;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let v = V(self.0);
        match self.0 {
            Ty::Unit => d.deserialize_unit(v),
            Ty::UnitStruct => d.deserialize_unit_struct("U", v),
            Ty::Bool => d.deserialize_bool(v),
            Ty::Char => d.deserialize_char(v),
            Ty::I8 => d.deserialize_i8(v),
            Ty::I16 => d.deserialize_i16(v),
            Ty::I32 => d.deserialize_i32(v),
            Ty::I64 => d.deserialize_i64(v),
            Ty::U8 => d.deserialize_u8(v),
            Ty::U16 => d.deserialize_u16(v),
            Ty::U32 => d.deserialize_u32(v),
            Ty::U64 => d.deserialize_u64(v),
            Ty::F32 => d.deserialize_f32(v),
            Ty::F64 => d.deserialize_f64(v),
            Ty::Str => d.deserialize_string(v),
            Ty::Option(_) => d.deserialize_option(v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), v),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("T", ts.len(), v),
            Ty::Struct(ts) => d.deserialize_struct("S", &NAMES[..ts.len()], v),
            Ty::Newtype(_) => d.deserialize_newtype_struct("N", v),
            Ty::Enum { poly, variants } => d.deserialize_enum(
                if poly.is_some() { "Polyvar" } else { "E" },
                variant_names(poly, variants.len()),
                v,
            ),
        }
    }
}

struct V<'a>(&'a Ty);
macro_rules! int_visit {
    ($($f:ident $t:ty),*) => { $( fn $f<E>(self, x: $t) -> Result<Val, E> { Ok(Val::Int(x as i128)) } )* };
}
fn collect<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Vec<Val>, A::Error> {
    let mut v = vec![];
    for t in ts {
        match a.next_element_seed(Seed(t))? {
            Some(x) => v.push(x),
            None => return Err(serde::de::Error::custom("too few elements")),
        }
    }
    Ok(v)
}
impl<'de, 'a> Visitor<'de> for V<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    int_visit!(visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64);
    fn visit_bool<E>(self, b: bool) -> Result<Val, E> {
        Ok(Val::Bool(b))
    }
    fn visit_char<E: serde::de::Error>(self, c: char) -> Result<Val, E> {
        match u8::try_from(c as u32) {
            Ok(b) => Ok(Val::Char(b)),
            Err(_) => Err(E::custom("char beyond one byte")),
        }
    }
    fn visit_f32<E>(self, x: f32) -> Result<Val, E> {
        Ok(Val::F32(x.to_bits()))
    }
    fn visit_f64<E>(self, x: f64) -> Result<Val, E> {
        Ok(Val::F64(x.to_bits()))
    }
    fn visit_str<E>(self, x: &str) -> Result<Val, E> {
        Ok(Val::Str(x.to_string()))
    }
    fn visit_string<E>(self, x: String) -> Result<Val, E> {
        Ok(Val::Str(x))
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Option(t) => Ok(Val::Some(Box::new(Seed(t).deserialize(d)?))),
            _ => Err(serde::de::Error::custom("unexpected Some")),
        }
    }
    fn visit_newtype_struct<D: serde::Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Seed(t).deserialize(d),
            _ => Err(serde::de::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut v = vec![];
                while let Some(x) = a.next_element_seed(Seed(t))? {
                    v.push(x);
                }
                Ok(Val::Seq(v))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Ok(Val::Prod(collect(ts, a)?)),
            _ => Err(serde::de::Error::custom("unexpected sequence")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let Ty::Enum { variants, .. } = self.0 else {
            return Err(serde::de::Error::custom("unexpected enum"));
        };
        let (k, va) = a.variant_seed(Ident(variants.len()))?;
        match &variants[k] {
            Shape::Unit => {
                va.unit_variant()?;
                Ok(Val::Variant(k, vec![]))
            }
            Shape::Newtype(t) => Ok(Val::Variant(k, vec![va.newtype_variant_seed(Seed(t))?])),
            Shape::Tuple(ts) => Ok(Val::Variant(k, va.tuple_variant(ts.len(), Parts(ts))?)),
            Shape::Struct(ts) => Ok(Val::Variant(k, va.struct_variant(&NAMES[..ts.len()], Parts(ts))?)),
        }
    }
}
struct Parts<'a>(&'a [Ty]);
impl<'de, 'a> Visitor<'de> for Parts<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant fields")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> {
        collect(self.0, a)
    }
}
struct Ident(usize);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = usize;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant identifier")
    }
    fn visit_u64<E: serde::de::Error>(self, x: u64) -> Result<usize, E> {
        if (x as usize) < self.0 && x < 1 << 32 {
            Ok(x as usize)
        } else {
            Err(E::custom(format!("invalid variant index {x}")))
        }
    }
}
