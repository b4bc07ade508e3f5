//! C07: what is written is the bin_prot encoding of the value, and what is read back is the value.
use crate::cases::*;
use crate::io::*;
use crate::model::*;
use crate::props::{bad, io_kind};
use bin_prot::error::Error;
use bin_prot::integers::{integer, nat0};
use bin_prot::{from_reader, to_writer, ReadBinProtExt, WriteBinProtExt};
use serde::{Deserialize, Serialize};
use simcore::runner::guarded;
use simcore::{hex, Ctx, Outcome};
use std::io::ErrorKind;

pub fn c07(ctx: &mut Ctx) -> Outcome {
    match ctx.tape.draw(10) {
        0..=4 => values(ctx),
        5 | 6 => primitives(ctx),
        7 => annotated(ctx),
        8 => chars(ctx),
        _ => beyond(ctx),
    }
}

fn values(ctx: &mut Ctx) -> Outcome {
    let (case, val) = gen_case(&mut ctx.tape, 3);
    let ty = case.ty();
    let want = encode(&ty, &val);
    let f = Faults::soft(&mut ctx.tape, want.len());
    let g = Faults::soft(&mut ctx.tape, want.len());
    let hops = ctx.tape.range(1, 3);
    ctx.event(|| format!("type {} value {val:.200?} over {hops} links {f:?} {g:?}", case.name().chars().take(100).collect::<String>()));
    shared(ctx, |env| {
        let mut v = val.clone();
        for hop in 0..hops {
            let mut w = SimWriter::new(env, f.clone());
            match guarded(|| case.encode(&mut w, &v)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return bad("value-refused", format!("hop {hop}: {e:?}")),
                Err(p) => return bad("panic", p),
            }
            if w.out != want {
                return bad("wrong-encoding", format!("hop {hop}: {} instead of {}", hex(&w.out), hex(&want)));
            }
            let mut r = SimReader::new(env, &w.out, g.clone());
            v = match guarded(|| case.decode(&mut r)) {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => return bad("encoding-refused", format!("hop {hop}: {e:?} for {}", hex(&want))),
                Err(p) => return bad("panic", p),
            };
            if v != val {
                return bad("wrong-value", format!("hop {hop}: sent {val:.300?} got {v:.300?}"));
            }
        }
        env.with(|c| c.probe("value-kept"));
        Ok(())
    })
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Target {
    I8, I16, I32, I64, U8, U16, U32, U64,
}
const TARGETS: [Target; 8] = [Target::I8, Target::I16, Target::I32, Target::I64, Target::U8, Target::U16, Target::U32, Target::U64];
impl Target {
    fn range(self) -> (i128, i128) {
        match self {
            Target::I8 => (i8::MIN as i128, i8::MAX as i128),
            Target::I16 => (i16::MIN as i128, i16::MAX as i128),
            Target::I32 => (i32::MIN as i128, i32::MAX as i128),
            Target::I64 => (i64::MIN as i128, i64::MAX as i128),
            Target::U8 => (0, u8::MAX as i128),
            Target::U16 => (0, u16::MAX as i128),
            Target::U32 => (0, u32::MAX as i128),
            Target::U64 => (0, u64::MAX as i128),
        }
    }
    fn read_int(self, r: &mut dyn std::io::Read) -> Result<i128, Error> {
        Ok(match self {
            Target::I8 => r.bin_read_integer::<i8>()? as i128,
            Target::I16 => r.bin_read_integer::<i16>()? as i128,
            Target::I32 => r.bin_read_integer::<i32>()? as i128,
            Target::I64 => r.bin_read_integer::<i64>()? as i128,
            Target::U8 => r.bin_read_integer::<u8>()? as i128,
            Target::U16 => r.bin_read_integer::<u16>()? as i128,
            Target::U32 => r.bin_read_integer::<u32>()? as i128,
            Target::U64 => r.bin_read_integer::<u64>()? as i128,
        })
    }
    fn read_nat(self, r: &mut dyn std::io::Read) -> Result<i128, Error> {
        Ok(match self {
            Target::U8 | Target::I8 => r.bin_read_nat0::<u8>()? as i128,
            Target::U16 | Target::I16 => r.bin_read_nat0::<u16>()? as i128,
            Target::U32 | Target::I32 => r.bin_read_nat0::<u32>()? as i128,
            Target::U64 | Target::I64 => r.bin_read_nat0::<u64>()? as i128,
        })
    }
}

/// the read and write extension traits, with every destination type
fn primitives(ctx: &mut Ctx) -> Outcome {
    let target = *ctx.tape.pick(&TARGETS);
    let which = ctx.tape.draw(7);
    let n = gen_int(&mut ctx.tape, i64::MIN as i128, i64::MAX as i128);
    let u = gen_int(&mut ctx.tape, 0, u64::MAX as i128) as u64;
    let len = ctx.tape.draw(300) as usize;
    let text = gen_str(&mut ctx.tape, len.min(if which == 2 || which == 3 { 300 } else { 0 }));
    let f = Faults::soft(&mut ctx.tape, 16);
    let g = Faults::soft(&mut ctx.tape, 16);
    ctx.event(|| format!("primitive {which} {n} {u} {} into {target:?}", text.len()));
    shared(ctx, |env| {
        let mut w = SimWriter::new(env, f);
        let mut want = vec![];
        let wrote = guarded(|| -> std::io::Result<()> {
            match which {
                0 => { enc_int(&mut want, n as i64); w.bin_write_integer(n as i64).map(|_| ()) }
                1 => { enc_nat0(&mut want, u); w.bin_write_nat0(u).map(|_| ()) }
                2 | 3 => {
                    enc_nat0(&mut want, text.len() as u64);
                    want.extend_from_slice(text.as_bytes());
                    w.bin_write_nat0(text.len() as u64)?;
                    std::io::Write::write_all(&mut w, text.as_bytes())
                }
                4 => { want.push(u as u8); w.bin_write_variant_index(u as u8).map(|_| ()) }
                5 => {
                    let t = (u as u32) & 0x7fff_ffff;
                    want.extend_from_slice(&((t << 1) | 1).to_le_bytes());
                    w.bin_write_polyvar_tag(t).map(|_| ())
                }
                _ => { want.push((u & 1) as u8); w.bin_write_bool(u & 1 == 1) }
            }
        });
        match wrote {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return bad("value-refused", format!("{e:?}")),
            Err(p) => return bad("panic", p),
        }
        if w.out != want {
            return bad("wrong-encoding", format!("{} instead of {}", hex(&w.out), hex(&want)));
        }
        let mut r = SimReader::new(env, &want, g);
        let ctxt = format!("primitive {which} into {target:?} from {}", hex(&want));
        let judge_int = |got: Result<i128, Error>, sent: i128, range: (i128, i128)| match got {
            Ok(x) if x == sent => Ok(()),
            Ok(x) => bad("wrong-value", format!("{ctxt}: {x}")),
            Err(Error::DestinationIntegerOverflow) if sent < range.0 || sent > range.1 => Ok(()),
            Err(e) => bad("encoding-refused", format!("{ctxt}: {e:?}")),
        };
        let res = guarded(|| match which {
            0 => judge_int(target.read_int(&mut r), n, target.range()),
            1 => {
                let hi = match target { Target::U8 | Target::I8 => u8::MAX as i128, Target::U16 | Target::I16 => u16::MAX as i128, Target::U32 | Target::I32 => u32::MAX as i128, _ => u64::MAX as i128 };
                judge_int(target.read_nat(&mut r), u as i128, (0, hi))
            }
            2 => match r.bin_read_string() {
                Ok(s) if s == text => Ok(()),
                x => bad("wrong-value", format!("{ctxt}: {x:?}")),
            },
            3 => match r.bin_read_bytes() {
                Ok(s) if s == text.as_bytes() => Ok(()),
                x => bad("wrong-value", format!("{ctxt}: {x:?}")),
            },
            4 => match r.bin_read_variant_index() {
                Ok(s) if s == u as u8 => Ok(()),
                x => bad("wrong-value", format!("{ctxt}: {x:?}")),
            },
            5 => match r.bin_read_polyvar_tag() {
                Ok(s) if s == (u as u32) & 0x7fff_ffff => Ok(()),
                x => bad("wrong-value", format!("{ctxt}: {x:?}")),
            },
            _ => match r.bin_read_bool() {
                Ok(s) if s == (u & 1 == 1) => Ok(()),
                x => bad("wrong-value", format!("{ctxt}: {x:?}")),
            },
        });
        match res {
            Ok(o) => o?,
            Err(p) => return bad("panic", p),
        }
        env.with(|c| c.probe("primitive-kept"));
        Ok(())
    })
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Annotated {
    #[serde(with = "integer")]
    a: i64,
    #[serde(with = "nat0")]
    b: u32,
    #[serde(with = "nat0")]
    c: u64,
    #[serde(with = "integer")]
    d: i16,
}
#[derive(Serialize)]
struct Many {
    #[serde(with = "nat0")]
    n: u16,
    v: Vec<Annotated>,
}

/// fields annotated with the integer encodings
fn annotated(ctx: &mut Ctx) -> Outcome {
    let k = ctx.tape.draw(4);
    let t = &mut ctx.tape;
    let mut v = vec![];
    for _ in 0..k {
        v.push(Annotated {
            a: gen_int(t, i64::MIN as i128, i64::MAX as i128) as i64,
            b: gen_int(t, 0, u32::MAX as i128) as u32,
            c: gen_int(t, 0, u64::MAX as i128) as u64,
            d: gen_int(t, i16::MIN as i128, i16::MAX as i128) as i16,
        });
    }
    let m = Many { n: gen_int(t, 0, u16::MAX as i128) as u16, v };
    let mut want = vec![];
    enc_nat0(&mut want, m.n as u64);
    enc_nat0(&mut want, m.v.len() as u64);
    for x in &m.v {
        enc_int(&mut want, x.a);
        enc_nat0(&mut want, x.b as u64);
        enc_nat0(&mut want, x.c);
        enc_int(&mut want, x.d as i64);
    }
    let f = Faults::soft(&mut ctx.tape, want.len());
    let read_back = ctx.tape.draw(8) == 7 && !m.v.is_empty();
    ctx.event(|| format!("annotated n {} {:.200?} faults {f:?} read back {read_back}", m.n, m.v));
    shared(ctx, |env| {
        let mut w = SimWriter::new(env, f);
        match guarded(|| to_writer(&mut w, &m)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return bad("value-refused", format!("{e:?}")),
            Err(p) => return bad("panic", p),
        }
        if w.out != want {
            return bad("wrong-encoding", format!("{} instead of {}", hex(&w.out), hex(&want)));
        }
        env.with(|c| c.probe("annotated-encoding"));
        if read_back {
            let mut one = vec![];
            if !matches!(guarded(|| to_writer(&mut one, &m.v[0])), Ok(Ok(()))) {
                return bad("value-refused", "annotated record".into());
            }
            return match guarded(|| from_reader::<_, Annotated>(&one[..])) {
                Ok(Ok(x)) if x == m.v[0] => Ok(()),
                Ok(Ok(x)) => bad("wrong-value", format!("sent {:?} got {x:?}", m.v[0])),
                Ok(Err(Error::WontImplement)) => bad("annotated-field-cannot-be-read", format!("{:?} was written as {} and reading it back is refused", m.v[0], hex(&one))),
                Ok(Err(e)) => bad("encoding-refused", format!("{e:?} for {}", hex(&one))),
                Err(p) => bad("panic", p),
            };
        }
        Ok(())
    })
}

/// a char is one byte on the wire; anything else must be refused, never sent as another char
fn chars(ctx: &mut Ctx) -> Outcome {
    let c = match ctx.tape.draw(4) {
        0 => char::from_u32(ctx.tape.draw(256) as u32),
        1 => char::from_u32(256 + ctx.tape.draw(4096) as u32),
        2 => char::from_u32(0x1_0000 + ctx.tape.draw(0x10_0000) as u32),
        _ => char::from_u32(((1 + ctx.tape.draw(0xff)) << 8 | ctx.tape.draw(128)) as u32),
    }
    .unwrap_or('a');
    let pos = ctx.tape.draw(3) as usize;
    let mut v = vec!['x', 'y', 'z'];
    v[pos] = c;
    ctx.event(|| format!("chars {v:?}"));
    let mut out = vec![];
    let r = match guarded(|| to_writer(&mut out, &v)) {
        Ok(r) => r,
        Err(p) => return bad("panic", p),
    };
    ctx.nontrivial = true;
    if (c as u32) < 256 {
        match r {
            Ok(()) => match guarded(|| from_reader::<_, Vec<char>>(&out[..])) {
                Ok(Ok(w)) if w == v => Ok(()),
                x => bad("wrong-value", format!("sent {v:?}, got {x:?}")),
            },
            Err(e) => bad("value-refused", format!("{e:?}")),
        }
    } else {
        ctx.probe("char-beyond-a-byte");
        match r {
            Err(e) if io_kind(&e) == Some(ErrorKind::InvalidInput) || io_kind(&e).is_none() => Ok(()),
            Err(e) => bad("value-refused", format!("{e:?}")),
            Ok(()) => match guarded(|| from_reader::<_, Vec<char>>(&out[..])) {
                Ok(Ok(w)) if w == v => Ok(()),
                x => bad("char-truncated", format!("{v:?} was written as {} and reads back as {x:?}", hex(&out))),
            },
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(rename = "Polyvar")]
enum Long {
    One(u32),
    Three(u32),
    Transition(bool),
}

/// inputs at the edge of what the library says it supports; the known findings live here
fn beyond(ctx: &mut Ctx) -> Outcome {
    ctx.nontrivial = true;
    match ctx.tape.draw(2) {
        0 => {
            let v = gen_int(&mut ctx.tape, i64::MAX as i128 - 2, u64::MAX as i128) as u64;
            ctx.event(|| format!("u64 {v}"));
            let mut out = vec![];
            match guarded(|| to_writer(&mut out, &v)) {
                Err(p) => bad("panic", p),
                Ok(Err(e)) if v > i64::MAX as u64 => { let _ = e; Ok(()) } // refusing is fine
                Ok(Err(e)) => bad("value-refused", format!("{e:?}")),
                Ok(Ok(())) => match guarded(|| from_reader::<_, u64>(&out[..])) {
                    Ok(Ok(x)) if x == v => Ok(()),
                    Ok(Err(Error::DestinationIntegerOverflow)) if v > i64::MAX as u64 => bad("u64-above-i64-max", format!("{v} was written as {} which cannot be read as u64", hex(&out))),
                    x => bad("wrong-value", format!("sent {v}, written as {}, got {x:?}", hex(&out))),
                },
            }
        }
        _ => {
            let v = match ctx.tape.draw(3) {
                0 => Long::One(ctx.tape.draw(1000) as u32),
                1 => Long::Three(ctx.tape.draw(1000) as u32),
                _ => Long::Transition(ctx.tape.draw(2) == 1),
            };
            ctx.event(|| format!("polyvar {v:?}"));
            let r = guarded(|| {
                let mut out = vec![];
                to_writer(&mut out, &v)?;
                from_reader::<_, Long>(&out[..])
            });
            match r {
                Ok(Ok(x)) if x == v => Ok(()),
                x => {
                    if matches!(v, Long::One(_)) {
                        return bad("wrong-value", format!("sent {v:?} got {x:?}"));
                    }
                    bad("polyvar-long-label", format!("sent {v:?} got {x:?}"))
                }
            }
        }
    }
}
