//! Decoding driven by a layout (types known only at run time) into `bin_prot::Value`.
use crate::io::*;
use crate::model::{enc_int, enc_nat0, gen_int, gen_len, Bad, Rd};
use crate::props::{bad, io_kind, memory_bound};
use bin_prot::error::Error;
use bin_prot::value::layout::BinProtRule;
use bin_prot::{to_writer, Deserializer, Value};
use serde::{Deserialize, Serialize};
use simcore::runner::guarded;
use simcore::{hex, json_str, Ctx, Outcome, Tape, Violation};
use std::io::Read;

/// the model of a layout
#[derive(Clone, Debug)]
pub enum L {
    Unit,
    Bool,
    Str,
    Char,
    Int(&'static str),
    Float,
    Option(Box<L>),
    Record(Vec<(String, L)>),
    Tuple(Vec<L>),
    Sum(Vec<(String, Vec<L>)>),
    Poly(Vec<(String, u32, Vec<L>)>),
    List(Box<L>),
    /// a resolved reference to another module's type
    Ref(String, Box<L>),
    /// types with a hand-written encoding, recognised by module path
    Big(&'static str),
    Vector(&'static str, usize, Box<L>),
    /// a rule the library does not support (its JSON); meeting it in the data is an error
    Unsupported(&'static str),
}

const UNSUPPORTED: [&str; 14] = [
    r#"["Nat0"]"#,
    r#"["Bigstring"]"#,
    r#"["Vec",3,["Bool"]]"#,
    r#"["Vec",0,["Int"]]"#,
    r#"["Hashtable",{"key_rule":["Int"],"value_rule":["Bool"]}]"#,
    r#"["Type_var","a"]"#,
    r#"["Self_reference",[]]"#,
    r#"["Self_reference",[["Int"]]]"#,
    r#"["Type_abstraction",["a"],["Int"]]"#,
    r#"["Type_closure",[["a",["Int"]]],["Bool"]]"#,
    r#"["Reference",["Unresolved",{"params":[["Int"]],"layout_id":"M.t"}]]"#,
    r#"["Polyvar",[["Inherited",["Int"]]]]"#,
    r#"["Reference",["Resolved",{"source_type_decl":"t","source_module_path":"Nowhere.Known","ref_rule":["Custom",[]]}]]"#,
    r#"["Reference",["Resolved",{"source_type_decl":"t","source_module_path":"Pickles_types.Vector.Vector4","ref_rule":["Custom",[]]}]]"#,
];

const BIG: [&str; 10] = [
    "Ledger_hash0", "State_hash", "Pending_coinbase.Stack_hash", "State_body_hash", "Pending_coinbase.Hash_builder",
    "Snark_params.Make_inner_curve_scalar", "Snark_params.Tick", "Epoch_seed",
    "Zexe_backend.Zexe_backend_common.Stable.Field", "Pending_coinbase.Coinbase_stack",
];
const VECTORS: [(&str, usize); 6] = [
    ("Pickles_type.Vector.Vector2", 2), ("Pickles_types.Vector.Vector2", 2), ("Pickles_types.Vector.Vector4", 4),
    ("Pickles_types.Vector.Vector8", 8), ("Pickles_types.Vector.Vector17", 17), ("Pickles_types.Vector.Vector18", 18),
];

pub fn gen_layout(t: &mut Tape, depth: u32, zero_ok: bool) -> L {
    let n = if depth == 0 { 6 } else { 16 };
    match t.draw(n) {
        0 => L::Int(*t.pick(&["Int", "Int32", "Int64", "Native_int"])),
        1 => L::Bool,
        2 => L::Str,
        3 => L::Char,
        4 => L::Float,
        5 => L::Unit,
        6 => L::Option(Box::new(gen_layout(t, depth - 1, zero_ok))),
        7 | 8 => {
            let lo = if zero_ok { 0 } else { 1 };
            let k = t.range(lo, 5);
            L::Record((0..k).map(|i| (format!("f{i}{}", t.draw(3)), gen_layout(t, depth - 1, zero_ok))).collect())
        }
        9 => {
            let lo = if zero_ok { 0 } else { 1 };
            let k = t.range(lo, 4);
            L::Tuple((0..k).map(|_| gen_layout(t, depth - 1, zero_ok)).collect())
        }
        10 | 11 => {
            let k = t.range(1, 6);
            L::Sum((0..k).map(|i| {
                let a = t.draw(4);
                (format!("C{i}"), (0..a).map(|_| gen_layout(t, depth - 1, true)).collect())
            }).collect())
        }
        12 => {
            let k = t.range(1, 4) as u32;
            L::Poly((0..k).map(|i| {
                let a = t.draw(3);
                // hashes of one-letter labels are below 256, the others anywhere in 31 bits
                let h = match t.draw(3) { 0 => t.draw(1 << 31) as u32, 1 => 65 + i, _ => 256 + t.draw(1000) as u32 };
                (format!("P{i}"), h, (0..a).map(|_| gen_layout(t, depth - 1, true)).collect())
            }).collect())
        }
        13 => L::List(Box::new(gen_layout(t, depth - 1, false))),
        14 => L::Ref(format!("Mod{}.T", t.draw(4)), Box::new(gen_layout(t, depth - 1, zero_ok))),
        _ => {
            if t.draw(2) == 0 {
                L::Big(*t.pick(&BIG))
            } else {
                let (p, n) = *t.pick(&VECTORS);
                L::Vector(p, n, Box::new(gen_layout(t, depth.min(2) - 1, zero_ok)))
            }
        }
    }
}

pub fn json(l: &L, o: &mut String) {
    fn list<'a>(xs: impl Iterator<Item = &'a L>, o: &mut String) {
        o.push('[');
        for (i, x) in xs.enumerate() {
            if i > 0 {
                o.push(',');
            }
            json(x, o);
        }
        o.push(']');
    }
    match l {
        L::Unsupported(j) => o.push_str(j),
        L::Unit => o.push_str("[\"Unit\"]"),
        L::Bool => o.push_str("[\"Bool\"]"),
        L::Str => o.push_str("[\"String\"]"),
        L::Char => o.push_str("[\"Char\"]"),
        L::Int(k) => *o += &format!("[\"{k}\"]"),
        L::Float => o.push_str("[\"Float\"]"),
        L::Option(x) => {
            o.push_str("[\"Option\",");
            json(x, o);
            o.push(']');
        }
        L::List(x) => {
            o.push_str("[\"List\",");
            json(x, o);
            o.push(']');
        }
        L::Record(fs) => {
            o.push_str("[\"Record\",[");
            for (i, (n, x)) in fs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                *o += &format!("{{\"field_name\":{},\"field_rule\":", json_str(n));
                json(x, o);
                o.push('}');
            }
            o.push_str("]]");
        }
        L::Tuple(xs) => {
            o.push_str("[\"Tuple\",");
            list(xs.iter(), o);
            o.push(']');
        }
        L::Sum(cs) => {
            o.push_str("[\"Sum\",[");
            for (i, (n, xs)) in cs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                *o += &format!("{{\"ctor_name\":{},\"index\":{i},\"ctor_args\":", json_str(n));
                list(xs.iter(), o);
                o.push('}');
            }
            o.push_str("]]");
        }
        L::Poly(cs) => {
            o.push_str("[\"Polyvar\",[");
            for (i, (n, h, xs)) in cs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                *o += &format!("[\"Tagged\",{{\"polyvar_name\":{},\"hash\":{h},\"polyvar_args\":", json_str(n));
                list(xs.iter(), o);
                o.push_str("}]");
            }
            o.push_str("]]");
        }
        L::Ref(p, x) => refer(p, o, |o| json(x, o)),
        L::Big(p) => refer(p, o, |o| o.push_str("[\"Custom\",[]]")),
        L::Vector(p, _, x) => refer(p, o, |o| {
            o.push_str("[\"Custom\",[");
            json(x, o);
            o.push_str("]]");
        }),
    }
}
fn refer(p: &str, o: &mut String, f: impl FnOnce(&mut String)) {
    *o += &format!("[\"Reference\",[\"Resolved\",{{\"source_type_decl\":\"type t\",\"source_module_path\":{},\"ref_rule\":", json_str(p));
    f(o);
    o.push_str("}]]");
}

/// draws a value of the layout; returns the expected `Value` and appends its encoding
pub fn gen_value(t: &mut Tape, l: &L, o: &mut Vec<u8>, lens: &mut Vec<(usize, usize)>, budget: &mut i64) -> Value {
    *budget -= 1;
    let len_prefix = |o: &mut Vec<u8>, lens: &mut Vec<(usize, usize)>, n: usize| {
        let p = o.len();
        enc_nat0(o, n as u64);
        lens.push((p, o.len() - p));
    };
    match l {
        L::Unsupported(_) => {
            // remembered by an impossible entry; the byte stands for whatever would be there
            lens.push((usize::MAX, 0));
            o.push(t.draw(256) as u8);
            Value::Unit
        }
        L::Unit => {
            o.push(0);
            Value::Unit
        }
        L::Bool => {
            let b = t.draw(2) == 1;
            o.push(b as u8);
            Value::Bool(b)
        }
        L::Str => {
            let n = gen_len(t, budget);
            len_prefix(o, lens, n);
            let mut v = vec![];
            for _ in 0..n {
                let c = t.draw(256) as u8;
                o.push(c);
                v.push(Value::Char(c));
            }
            Value::List(v)
        }
        L::Char => {
            let c = t.draw(256) as u8;
            o.push(c);
            Value::Char(c)
        }
        L::Int(_) => {
            let n = gen_int(t, i64::MIN as i128, i64::MAX as i128) as i64;
            enc_int(o, n);
            Value::Int(n)
        }
        L::Float => {
            let b = t.draw64();
            o.extend_from_slice(&b.to_le_bytes());
            Value::Float(f64::from_bits(b))
        }
        L::Option(x) => {
            if t.draw(3) == 0 {
                o.push(0);
                Value::Option(None)
            } else {
                o.push(1);
                Value::Option(Some(Box::new(gen_value(t, x, o, lens, budget))))
            }
        }
        L::Record(fs) => Value::Record(fs.iter().map(|(n, x)| (n.clone(), gen_value(t, x, o, lens, budget))).collect()),
        L::Tuple(xs) => Value::Tuple(xs.iter().map(|x| gen_value(t, x, o, lens, budget)).collect()),
        L::Sum(cs) => {
            let k = t.draw(cs.len() as u64) as usize;
            o.push(k as u8);
            let v = Value::Tuple(cs[k].1.iter().map(|x| gen_value(t, x, o, lens, budget)).collect());
            Value::Sum { name: cs[k].0.clone(), index: k as u8, value: Box::new(v) }
        }
        L::Poly(cs) => {
            let k = t.draw(cs.len() as u64) as usize;
            // the first entry with the tag is the one that is meant
            let k = cs.iter().position(|c| c.1 == cs[k].1).unwrap();
            o.extend_from_slice(&((cs[k].1 << 1) | 1).to_le_bytes());
            let v = Value::Tuple(cs[k].2.iter().map(|x| gen_value(t, x, o, lens, budget)).collect());
            Value::Polyvar { name: cs[k].0.clone(), tag: cs[k].1, value: Box::new(v) }
        }
        L::List(x) => {
            let n = gen_len(t, budget);
            len_prefix(o, lens, n);
            Value::List((0..n).map(|_| gen_value(t, x, o, lens, budget)).collect())
        }
        L::Ref(_, x) => gen_value(t, x, o, lens, budget),
        L::Big(_) => Value::Tuple((0..32).map(|_| {
            let c = t.draw(256) as u8;
            o.push(c);
            Value::Char(c)
        }).collect()),
        L::Vector(_, n, x) => {
            let mut v: Vec<Value> = (0..*n).map(|_| gen_value(t, x, o, lens, budget)).collect();
            o.push(0);
            v.push(Value::Unit);
            Value::Tuple(v)
        }
    }
}

/// reference decoder; also yields the canonical re-encoding of what was read
pub fn ref_decode(l: &L, r: &mut Rd, o: &mut Vec<u8>) -> Result<Value, Bad> {
    Ok(match l {
        L::Unsupported(_) => return Err(Bad::Invalid),
        L::Unit => {
            if r.u8()? != 0 {
                return Err(Bad::Invalid);
            }
            o.push(0);
            Value::Unit
        }
        L::Bool => {
            let b = r.u8()?;
            if b > 1 {
                return Err(Bad::Invalid);
            }
            o.push(b);
            Value::Bool(b == 1)
        }
        L::Str => {
            let b = r.bytes()?;
            enc_nat0(o, b.len() as u64);
            o.extend_from_slice(b);
            Value::List(b.iter().map(|c| Value::Char(*c)).collect())
        }
        L::Char => {
            let c = r.u8()?;
            o.push(c);
            Value::Char(c)
        }
        L::Int(_) => {
            let n = r.int()? as i64;
            enc_int(o, n);
            Value::Int(n)
        }
        L::Float => {
            let b = r.f64()?;
            o.extend_from_slice(&b.to_le_bytes());
            Value::Float(f64::from_bits(b))
        }
        L::Option(x) => match r.u8()? {
            0 => {
                o.push(0);
                Value::Option(None)
            }
            1 => {
                o.push(1);
                Value::Option(Some(Box::new(ref_decode(x, r, o)?)))
            }
            _ => return Err(Bad::Invalid),
        },
        L::Record(fs) => {
            let mut v = vec![];
            for (n, x) in fs {
                v.push((n.clone(), ref_decode(x, r, o)?));
            }
            Value::Record(v)
        }
        L::Tuple(xs) => {
            let mut v = vec![];
            for x in xs {
                v.push(ref_decode(x, r, o)?);
            }
            Value::Tuple(v)
        }
        L::Sum(cs) => {
            let k = r.u8()?;
            let (name, args) = cs.get(k as usize).ok_or(Bad::Invalid)?;
            o.push(k);
            let mut v = vec![];
            for x in args {
                v.push(ref_decode(x, r, o)?);
            }
            Value::Sum { name: name.clone(), index: k, value: Box::new(Value::Tuple(v)) }
        }
        L::Poly(cs) => {
            let tag = r.tag()?;
            let (name, tag, args) = cs.iter().find(|c| c.1 == tag).ok_or(Bad::Invalid)?;
            o.extend_from_slice(&((tag << 1) | 1).to_le_bytes());
            let mut v = vec![];
            for x in args {
                v.push(ref_decode(x, r, o)?);
            }
            Value::Polyvar { name: name.clone(), tag: *tag, value: Box::new(Value::Tuple(v)) }
        }
        L::List(x) => {
            let n = r.nat0()?;
            enc_nat0(o, n);
            let mut v = vec![];
            for _ in 0..n {
                v.push(ref_decode(x, r, o)?);
            }
            Value::List(v)
        }
        L::Ref(_, x) => ref_decode(x, r, o)?,
        L::Big(_) => {
            let mut v = vec![];
            for _ in 0..32 {
                let c = r.u8()?;
                o.push(c);
                v.push(Value::Char(c));
            }
            Value::Tuple(v)
        }
        L::Vector(_, n, x) => {
            let mut v = vec![];
            for _ in 0..*n {
                v.push(ref_decode(x, r, o)?);
            }
            if r.u8()? != 0 {
                return Err(Bad::Invalid);
            }
            o.push(0);
            v.push(Value::Unit);
            Value::Tuple(v)
        }
    })
}

/// equality with floats compared by their bits
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Option(Some(x)), Value::Option(Some(y))) => same(x, y),
        (Value::Record(x), Value::Record(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1))
        }
        (Value::Tuple(x), Value::Tuple(y)) | (Value::List(x), Value::List(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q))
        }
        (Value::Sum { name: n, index: i, value: v }, Value::Sum { name: m, index: j, value: w }) => n == m && i == j && same(v, w),
        (Value::Polyvar { name: n, tag: i, value: v }, Value::Polyvar { name: m, tag: j, value: w }) => n == m && i == j && same(v, w),
        _ => a == b,
    }
}
fn short(v: &impl std::fmt::Debug) -> String {
    let s = format!("{v:?}");
    if s.len() > 300 { format!("{}..", s.chars().take(300).collect::<String>()) } else { s }
}

type Header = (i64, String, Option<u16>);
/// the header is read by type, then the same deserializer goes on with the layout
fn decode_after_header<R: Read>(rule: &BinProtRule, r: R) -> (Result<(Header, Value), Error>, usize) {
    let mut de = Deserializer::from_reader(r);
    let h = match Header::deserialize(&mut de) {
        Ok(h) => h,
        Err(e) => return (Err(e), de.rdr.buffer().len()),
    };
    let mut de = de.with_layout(rule);
    let v = Value::deserialize(&mut de).map(|v| (h, v));
    let left = de.rdr.buffer().len();
    (v, left)
}
pub fn decode_loose<R: Read>(rule: &BinProtRule, r: R) -> (Result<Value, Error>, usize) {
    let mut de = Deserializer::from_reader(r).with_layout(rule);
    let v = Value::deserialize(&mut de);
    let left = de.rdr.buffer().len();
    (v, left)
}

fn parse(l: &L) -> Result<BinProtRule, Violation> {
    let mut s = String::new();
    json(l, &mut s);
    match guarded(|| serde_json::from_str::<BinProtRule>(&s)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(Violation::new("layout-refused", format!("{e}: {s}"))),
        Err(p) => Err(Violation::new("panic", format!("parsing layout {s}: {p}"))),
    }
}

#[derive(Serialize, Deserialize, Debug)]
struct Hybrid {
    first: i64,
    second: Value,
    third: Option<bool>,
    fourth: Vec<u16>,
    fifth: Value,
}

/// replaces one leaf of a layout by a rule that is not supported
fn plant(t: &mut Tape, l: &mut L) {
    let mut kids: Vec<&mut L> = match l {
        L::Option(x) | L::List(x) | L::Ref(_, x) | L::Vector(_, _, x) => vec![x],
        L::Record(fs) => fs.iter_mut().map(|f| &mut f.1).collect(),
        L::Tuple(xs) => xs.iter_mut().collect(),
        L::Sum(cs) => cs.iter_mut().flat_map(|c| c.1.iter_mut()).collect(),
        L::Poly(cs) => cs.iter_mut().flat_map(|c| c.2.iter_mut()).collect(),
        _ => vec![],
    };
    if kids.is_empty() || t.draw(4) == 3 {
        *l = L::Unsupported(*t.pick(&UNSUPPORTED));
    } else {
        let k = t.draw(kids.len() as u64) as usize;
        plant(t, kids[k])
    }
}

/// the layouts shipped with the repository, read into the model
fn from_json(v: &serde_json::Value, path: &str) -> L {
    let list = |v: &serde_json::Value| -> Vec<L> { v.as_array().unwrap().iter().map(|x| from_json(x, "")).collect() };
    let a = v.as_array().unwrap();
    match a[0].as_str().unwrap() {
        "Unit" => L::Unit,
        "Bool" => L::Bool,
        "String" => L::Str,
        "Char" => L::Char,
        "Int" => L::Int("Int"),
        "Int32" => L::Int("Int32"),
        "Int64" => L::Int("Int64"),
        "Native_int" => L::Int("Native_int"),
        "Float" => L::Float,
        "Option" => L::Option(Box::new(from_json(&a[1], ""))),
        "List" => L::List(Box::new(from_json(&a[1], ""))),
        "Tuple" => L::Tuple(list(&a[1])),
        "Record" => L::Record(a[1].as_array().unwrap().iter().map(|f| (f["field_name"].as_str().unwrap().into(), from_json(&f["field_rule"], ""))).collect()),
        "Sum" => L::Sum(a[1].as_array().unwrap().iter().map(|f| (f["ctor_name"].as_str().unwrap().into(), list(&f["ctor_args"]))).collect()),
        "Polyvar" => L::Poly(a[1].as_array().unwrap().iter().map(|f| (f[1]["polyvar_name"].as_str().unwrap().into(), f[1]["hash"].as_u64().unwrap() as u32, list(&f[1]["polyvar_args"]))).collect()),
        "Reference" => {
            let p = &a[1][1];
            let m = p["source_module_path"].as_str().unwrap_or("");
            let x = from_json(&p["ref_rule"], m);
            if p["ref_rule"][0] == "Custom" { x } else { L::Ref(m.into(), Box::new(x)) }
        }
        "Custom" => {
            if let Some(b) = BIG.iter().find(|b| **b == path) {
                L::Big(b)
            } else if let Some((n, k)) = VECTORS.iter().find(|b| b.0 == path) {
                L::Vector(n, *k, Box::new(from_json(&a[1][0], "")))
            } else {
                panic!("layout uses the custom type {path}")
            }
        }
        x => panic!("layout uses {x}"),
    }
}
const SHIPPED: [&str; 4] = ["verification_key", "protocol_state", "snark_work", "external_transition"];
thread_local! {
    static CACHE: std::cell::RefCell<Vec<(usize, std::rc::Rc<(L, BinProtRule)>)>> = Default::default();
}
/// None: not decidable here (file missing or outside the model); the synthetic layouts are used instead
fn shipped(k: usize) -> Result<std::rc::Rc<(L, BinProtRule)>, Violation> {
    if let Some(x) = CACHE.with(|c| c.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone())) {
        return Ok(x);
    }
    let text = std::fs::read_to_string(format!("/repo/protocol/layouts/{}.json", SHIPPED[k])).expect("shipped layout");
    fn deep<'a, T: Deserialize<'a>>(s: &'a str) -> Result<T, serde_json::Error> {
        let mut d = serde_json::Deserializer::from_str(s);
        d.disable_recursion_limit();
        T::deserialize(&mut d)
    }
    let v: serde_json::Value = deep(&text).expect("shipped layout is JSON");
    let l = from_json(&v["bin_prot_rule"], "");
    let rule = match guarded(|| deep::<bin_prot::value::layout::Layout>(&text)) {
        Ok(Ok(x)) => x.bin_prot_rule,
        Ok(Err(e)) => return Err(Violation::new("layout-refused", format!("shipped layout {}: {e}", SHIPPED[k]))),
        Err(p) => return Err(Violation::new("panic", format!("shipped layout {}: {p}", SHIPPED[k]))),
    };
    let x = std::rc::Rc::new((l, rule));
    CACHE.with(|c| c.borrow_mut().push((k, x.clone())));
    Ok(x)
}

/// C08: a layout-driven decode yields exactly what the layout and bytes say, and re-encodes to the same bytes
pub fn c08(ctx: &mut Ctx) -> Outcome {
    // the layouts of the real protocol messages: big, so rarely
    if ctx.tape.draw(1500) == 1499 {
        let k = ctx.tape.draw(if ctx.thorough { 4 } else { 2 }) as usize;
        let x = shipped(k)?;
        ctx.probe("shipped-layout");
        ctx.event(|| format!("shipped layout {}", SHIPPED[k]));
        return one_layout(ctx, &x.0, &x.1, false, 300);
    }
    let depth = ctx.tape.draw(4) as u32;
    let mut l = gen_layout(&mut ctx.tape, depth, true);
    let mode = ctx.tape.draw(8);
    if mode == 6 {
        plant(&mut ctx.tape, &mut l);
    }
    let hybrid = mode == 7;
    let l = if hybrid {
        L::Record(vec![
            ("first".into(), L::Int("Int")),
            ("second".into(), l.clone()),
            ("third".into(), L::Option(Box::new(L::Bool))),
            ("fourth".into(), L::List(Box::new(L::Int("Int")))),
            ("fifth".into(), l),
        ])
    } else {
        l
    };
    let rule = parse(&l)?;
    one_layout(ctx, &l, &rule, hybrid, 1000)
}

fn one_layout(ctx: &mut Ctx, l: &L, rule: &BinProtRule, hybrid: bool, mut budget: i64) -> Outcome {
    let (mut bytes, mut lens) = (vec![], vec![]);
    let header: Option<Header> = if !hybrid && ctx.tape.draw(4) == 3 {
        let t = &mut ctx.tape;
        let h = (gen_int(t, i64::MIN as i128, i64::MAX as i128) as i64, "h".repeat(t.draw(20) as usize), if t.draw(2) == 0 { None } else { Some(t.draw(65536) as u16) });
        enc_int(&mut bytes, h.0);
        enc_nat0(&mut bytes, h.1.len() as u64);
        bytes.extend_from_slice(h.1.as_bytes());
        match h.2 {
            None => bytes.push(0),
            Some(x) => {
                bytes.push(1);
                enc_int(&mut bytes, x as i64);
            }
        }
        ctx.probe("typed-header-then-layout");
        Some(h)
    } else {
        None
    };
    let body = bytes.len();
    let want = gen_value(&mut ctx.tape, l, &mut bytes, &mut lens, &mut budget);
    let unsupported = lens.iter().any(|x| x.0 == usize::MAX);
    let whole = bytes.clone();
    // what happens to the stream
    let mut f = Faults::soft(&mut ctx.tape, bytes.len());
    let cut = ctx.tape.draw(bytes.len() as u64 + 1) as usize;
    let kind = ctx.tape.draw(KINDS.len() as u64) as usize;
    let mut broken = None;
    let mut tail = 0;
    match ctx.tape.draw(8) {
        5 if cut < bytes.len() => {
            bytes.truncate(cut);
            ctx.fault("stream-truncated");
            broken = Some(ErrorKindOr::Eof);
        }
        6 if cut < bytes.len() => {
            f.fail_at = Some((cut, kind));
            f.once = ctx.tape.draw(2) == 1;
            broken = Some(ErrorKindOr::Kind(KINDS[kind].1));
        }
        7 => {
            tail = ctx.tape.draw(5) as usize;
            for _ in 0..tail {
                bytes.push(ctx.tape.draw(256) as u8);
            }
        }
        _ => {}
    }
    ctx.event(|| format!("layout {} bytes {} broken {broken:?} tail {tail} hybrid {hybrid} faults {f:?}", short(l), hex(&bytes)));
    shared(ctx, |env| {
        let mut r = SimReader::new(env, &bytes, f);
        if hybrid {
            let got = guarded(|| {
                let mut de = Deserializer::from_reader(&mut r).with_layout(rule);
                Hybrid::deserialize(&mut de)
            });
            let got = match got {
                Ok(g) => g,
                Err(p) => return bad("panic", p),
            };
            let Value::Record(fs) = &want else { unreachable!() };
            let ints_fit = match &fs[3].1 {
                Value::List(v) => v.iter().all(|x| matches!(x, Value::Int(n) if u16::try_from(*n).is_ok())),
                _ => false,
            };
            return match (got, &broken) {
                (Ok(h), None) => {
                    env.with(|c| c.probe("hybrid-ok"));
                    let ok = Value::Int(h.first) == fs[0].1
                        && same(&h.second, &fs[1].1)
                        && Value::Option(h.third.map(|b| Box::new(Value::Bool(b)))) == fs[2].1
                        && Value::List(h.fourth.iter().map(|x| Value::Int(*x as i64)).collect()) == fs[3].1
                        && same(&h.fifth, &fs[4].1);
                    if !ok {
                        return bad("loose-wrong-value", format!("hybrid: expected {} got {}", short(&want), short(&h)));
                    }
                    let mut out = vec![];
                    match guarded(|| to_writer(&mut out, &h)) {
                        Ok(Ok(())) if out == whole => Ok(()),
                        x => bad("loose-reencode", format!("hybrid: {x:?}: {} instead of {}", hex(&out), hex(&whole))),
                    }
                }
                (Ok(h), Some(_)) => bad("value-from-broken-stream", format!("hybrid: decoded {}", short(&h))),
                (Err(e), None) if ints_fit => bad("loose-refused", format!("hybrid: {e:?}")),
                (Err(_), _) => Ok(()),
            };
        }
        let (got, left) = match guarded(|| match &header {
            None => decode_loose(rule, &mut r),
            Some(h) => {
                let (x, left) = decode_after_header(rule, &mut r);
                // a wrong header shows as a wrong value
                (x.map(|(g, v)| if g == *h { v } else { Value::Tuple(vec![Value::String(format!("{g:?}").into_bytes()), v]) }), left)
            }
        }) {
            Ok(g) => g,
            Err(p) => return bad("panic", p),
        };
        if unsupported {
            env.with(|c| c.probe("unsupported-met"));
            return match got {
                Ok(v) => bad("unsupported-decoded", format!("layout {} has no value here, decoded {}", short(l), short(&v))),
                Err(_) => Ok(()),
            };
        }
        let v = match (got, broken) {
            (Ok(v), None) => v,
            (Ok(v), Some(_)) => return bad("value-from-broken-stream", format!("decoded {}", short(&v))),
            (Err(e), None) => return bad("loose-refused", format!("{e:?}")),
            (Err(e), Some(ErrorKindOr::Kind(k))) => {
                return if io_kind(&e) == Some(k) { Ok(()) } else { bad("read-error-changed", format!("{k:?} reported as {e:?}")) };
            }
            (Err(e), Some(ErrorKindOr::Eof)) => {
                env.with(|c| c.probe("broken-reported"));
                return if io_kind(&e) == Some(std::io::ErrorKind::UnexpectedEof) || matches!(e, Error::EndOfStream) {
                    Ok(())
                } else {
                    bad("truncation-misreported", format!("{e:?}"))
                };
            }
        };
        if !same(&v, &want) {
            return bad("loose-wrong-value", format!("expected {} got {}", short(&want), short(&v)));
        }
        let consumed = r.pos - left;
        if consumed != whole.len() {
            return bad("loose-consumption", format!("value has {} bytes, {consumed} consumed", whole.len()));
        }
        env.with(|c| c.probe("loose-ok"));
        env.with(|c| lookups(c, &v, &want))?;
        // write it back through a sink that takes what it likes
        let whole = &whole[body..];
        let f = env.with(|c| Faults::soft(&mut c.tape, whole.len()));
        let mut w = SimWriter::new(env, f);
        match guarded(|| to_writer(&mut w, &v)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return bad("loose-reencode", format!("{e:?}")),
            Err(p) => return bad("panic", p),
        }
        if w.out != whole {
            return bad("loose-reencode", format!("{} instead of {}", hex(&w.out), hex(whole)));
        }
        Ok(())
    })
}
/// The parts of a record and of a sequence, in a variant of a sum type too.
fn parts(v: &Value) -> (&[(String, Value)], &[Value]) {
    let inner = match v {
        Value::Sum { value, .. } => value,
        v => v,
    };
    match inner {
        Value::Record(r) => (r, &[]),
        Value::List(x) | Value::Tuple(x) => (&[], x),
        _ => (&[], &[]),
    }
}
/// Goes down into a value along a drawn path: by name or position one finds that part, or nothing.
fn lookups(c: &mut Ctx, got: &Value, want: &Value) -> Outcome {
    // a record in a variant, which the layouts do not have, but a program can make
    let (in_got, in_want);
    let (mut g, mut w) = (got, want);
    if matches!(want, Value::Record(_)) && c.tape.chance(1, 4) {
        let wrap = |v: &Value| Value::Sum { name: "W".into(), index: 0, value: Box::new(v.clone()) };
        (in_got, in_want) = (wrap(got), wrap(want));
        (g, w) = (&in_got, &in_want);
    }
    for _ in 0..8 {
        let (fields, items) = parts(w);
        // what is not there is not found
        let n = items.len() + [0, 0, 1, 7][c.tape.draw(4) as usize];
        let mut name = "no such field".to_string();
        if !fields.is_empty() {
            // nearly the name of a field: longer, cut at either end, in the other case
            name = fields[c.tape.draw(fields.len() as u64) as usize].0.clone();
            name = match c.tape.draw(4) {
                0 => name + "x",
                1 => name.chars().skip(1).collect(),
                2 => name.chars().rev().skip(1).collect::<String>().chars().rev().collect(),
                _ => name.to_uppercase(),
            };
        }
        if fields.iter().all(|f| f.0 != name) && c.tape.chance(1, 4) {
            let r = if c.tape.draw(2) == 0 { guarded(|| short(&g[n])) } else { guarded(|| short(&g[name.as_str()])) };
            if let Ok(x) = r {
                return bad("absent-part-found", format!("[{n}] or [{name:?}] of {} is {x}", short(w)));
            }
            c.probe("absent-part");
        }
        let (found, part) = if !fields.is_empty() {
            let (name, part) = &fields[c.tape.draw(fields.len() as u64) as usize];
            if fields.iter().filter(|f| f.0 == *name).count() > 1 {
                return Ok(());
            }
            (if c.tape.draw(2) == 0 { guarded(|| &g[name.as_str()]) } else { guarded(|| &g[name.clone()]) }, part)
        } else if !items.is_empty() {
            let k = c.tape.draw(items.len() as u64) as usize;
            (guarded(|| &g[k]), &items[k])
        } else {
            match w {
                Value::Option(Some(x)) => {
                    match guarded(|| g.inner()) {
                        Ok(Some(y)) if same(&y, x) => {}
                        y => return bad("wrong-part", format!("inner of {} is {y:?}", short(w))),
                    }
                    let Value::Option(Some(y)) = g else { return Ok(()) };
                    (g, w) = (&**y, &**x);
                    continue;
                }
                _ => return Ok(()),
            }
        };
        match found {
            Ok(f) if same(f, part) => {
                c.probe("part-found");
                (g, w) = (f, part);
            }
            Ok(f) => return bad("wrong-part", format!("of {}: {} instead of {}", short(w), short(f), short(part))),
            Err(e) => return bad("part-not-found", format!("of {}: {e}", short(w))),
        }
    }
    Ok(())
}

#[derive(Debug, Clone)]
enum ErrorKindOr {
    Eof,
    Kind(std::io::ErrorKind),
}

/// hostile bytes against a layout
pub fn hostile(ctx: &mut Ctx) -> Outcome {
    let depth = ctx.tape.draw(4) as u32;
    let l = gen_layout(&mut ctx.tape, depth, false);
    let rule = parse(&l)?;
    let (mut b, mut lens, mut budget) = (vec![], vec![], 400);
    let _ = gen_value(&mut ctx.tape, &l, &mut b, &mut lens, &mut budget);
    for _ in 0..ctx.tape.range(1, 3) {
        match ctx.tape.draw(4) {
            0 | 1 if !lens.is_empty() => {
                let (p, w) = *ctx.tape.pick(&lens);
                if p + w <= b.len() {
                    let mut x = vec![];
                    let k = ctx.tape.draw(64);
                    enc_nat0(&mut x, (1u64 << k).wrapping_sub(ctx.tape.draw(2)));
                    b.splice(p..p + w, x);
                }
                lens.clear();
                ctx.fault("corrupt-length");
            }
            2 => {
                let k = ctx.tape.draw(b.len() as u64 + 1) as usize;
                b.truncate(k);
                ctx.fault("corrupt-truncate");
            }
            _ if !b.is_empty() => {
                let i = ctx.tape.draw(b.len() as u64) as usize;
                b[i] = ctx.tape.draw(256) as u8;
                ctx.fault("corrupt-byte");
            }
            _ => {}
        }
    }
    let mut canon = vec![];
    let mut r = Rd { b: &b, p: 0 };
    let model = ref_decode(&l, &mut r, &mut canon);
    let used = r.p;
    let f = Faults::soft(&mut ctx.tape, b.len());
    ctx.event(|| format!("layout {} bytes {} model {}", short(&l), hex(&b), short(&model)));
    let mut js = String::new();
    json(&l, &mut js);
    let out = shared(ctx, |env| {
        let mut r = SimReader::new(env, &b, f);
        let (o, peak, _) = simcore::alloc::measured(64 << 20, || guarded(|| decode_loose(&rule, &mut r)));
        o.map(|(v, left)| (v, r.pos - left, r.pos, peak))
    });
    let (got, consumed, delivered, peak) = match out {
        Ok(x) => x,
        Err(p) => return bad("panic", format!("decoding {} with layout {}: {p}", hex(&b), short(&l))),
    };
    // names and rules are cloned from the layout, so its size enters the bound
    let bound = memory_bound(delivered) + 64 * js.len() as i64 * (1 + delivered as i64 / 16);
    if peak > bound {
        return bad("memory-beyond-input", format!("{delivered} bytes were received, {peak} bytes were allocated (bound {bound})"));
    }
    match (model, got) {
        (Ok(x), Ok(y)) => {
            ctx.probe("hostile-valid");
            if !same(&x, &y) {
                return bad("hostile-wrong-value", format!("layout says {} got {}", short(&x), short(&y)));
            }
            if used != consumed {
                return bad("hostile-consumption", format!("value has {used} bytes, {consumed} were consumed"));
            }
            Ok(())
        }
        (Err(Bad::Unsure), _) => Ok(()),
        (Err(_), Err(_)) => {
            ctx.probe("hostile-refused");
            Ok(())
        }
        (Err(e), Ok(y)) => bad("hostile-accepted", format!("not valid for the layout ({e:?}), decoded {}", short(&y))),
        (Ok(x), Err(e)) => bad("hostile-valid-refused", format!("valid {}, refused with {e:?}", short(&x))),
    }
}
