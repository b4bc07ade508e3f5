use crate::cases::*;
use crate::io::*;
use crate::model::*;
use bin_prot::error::Error;
use simcore::runner::guarded;
use simcore::{hex, Ctx, Outcome, Violation};
use std::io::ErrorKind;

pub fn bad(class: &str, detail: String) -> Outcome {
    Err(Violation::new(class, detail))
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 300 { format!("{}..", s.chars().take(300).collect::<String>()) } else { s }
}
pub fn io_kind(e: &Error) -> Option<ErrorKind> {
    match e {
        Error::Io(e) => Some(e.kind()),
        _ => None,
    }
}

/// change stored bytes: what a bad disk, cable or peer does
pub fn corrupt(ctx: &mut Ctx, ty: &Ty, v: &Val) -> Vec<u8> {
    let mut b = vec![];
    let mut lens = vec![];
    enc(ty, v, &mut b, &mut lens);
    let n = ctx.tape.range(1, 3);
    for _ in 0..n {
        match ctx.tape.draw(6) {
            0 if !b.is_empty() => {
                let i = ctx.tape.draw(b.len() as u64) as usize;
                b[i] ^= 1 << ctx.tape.draw(8);
                ctx.fault("corrupt-bitflip");
            }
            1 if !b.is_empty() => {
                let i = ctx.tape.draw(b.len() as u64) as usize;
                b[i] = *ctx.tape.pick(&[0xffu8, 0xfe, 0xfd, 0xfc, 0x80, 0x7f, 0x00, 0x01, 0xfb, 0x81]);
                ctx.fault("corrupt-byte");
            }
            2 | 3 => {
                // a lying length prefix
                let (p, w) = if lens.is_empty() || ctx.tape.draw(4) == 3 {
                    (ctx.tape.draw(b.len() as u64 + 1) as usize, 0)
                } else {
                    *ctx.tape.pick(&lens)
                };
                let p = p.min(b.len());
                let w = w.min(b.len() - p);
                let k = ctx.tape.draw(64);
                let big = match ctx.tape.draw(4) {
                    0 => (1u64 << k).wrapping_sub(ctx.tape.draw(2)),
                    1 => u64::MAX - ctx.tape.draw(3),
                    2 => (b.len() as u64).wrapping_add(ctx.tape.draw(5)),
                    _ => ctx.tape.draw64(),
                };
                let mut x = vec![];
                enc_nat0(&mut x, big);
                b.splice(p..p + w, x);
                lens.clear();
                ctx.fault("corrupt-length");
            }
            4 => {
                let k = ctx.tape.draw(b.len() as u64 + 1) as usize;
                b.truncate(k);
                ctx.fault("corrupt-truncate");
            }
            _ => {
                let i = ctx.tape.draw(b.len() as u64 + 1) as usize;
                let x = ctx.tape.draw(256) as u8;
                b.insert(i, x);
                lens.clear();
                ctx.fault("corrupt-insert");
            }
        }
    }
    b
}

/// decode one value and report (result, bytes consumed, bytes delivered, hard error delivered)
fn decode_one(env: &Shared, c: &Case, bytes: &[u8], f: Faults) -> Result<(Res<Val>, usize, usize, Option<ErrorKind>), Violation> {
    let mut r = SimReader::new(env, bytes, f);
    let mut got = None;
    let res = guarded(|| {
        c.stream(&mut r, &mut |v, left| {
            got = Some((v, left));
            false
        })
    });
    if let Err(p) = res {
        return Err(Violation::new("panic", format!("decoding {} from {}: {p}", short(&c.name()), hex(bytes))));
    }
    let (v, left) = got.unwrap();
    Ok((v, r.pos - left, r.pos, r.hard))
}

// ------------------------------------------------------------------ C01

pub fn c01(ctx: &mut Ctx) -> Outcome {
    let (case, val) = gen_case(&mut ctx.tape, 3);
    let ty = case.ty();
    let corrupted = ctx.tape.draw(4) == 3;
    let mut bytes = if corrupted { corrupt(ctx, &ty, &val) } else { encode(&ty, &val) };
    let tail = ctx.tape.draw(4) as usize;
    for _ in 0..tail {
        bytes.push(ctx.tape.draw(256) as u8);
    }
    if !corrupted && ctx.tape.draw(12) == 11 {
        // make the interesting part straddle the deserializer's internal buffer
        let pad = 8192 - ctx.tape.draw(24) as usize;
        let s = "p".repeat(pad);
        let mut b = vec![];
        enc_nat0(&mut b, pad as u64);
        b.extend_from_slice(s.as_bytes());
        b.extend_from_slice(&bytes);
        ctx.probe("straddle-8k");
        let t2 = Ty::Tuple(vec![Ty::Str, (*ty).clone()]);
        return c01_check(ctx, &Case::Dyn(std::rc::Rc::new(t2)), &b);
    }
    c01_check(ctx, &case, &bytes)
}
fn c01_check(ctx: &mut Ctx, case: &Case, bytes: &[u8]) -> Outcome {
    ctx.event(|| format!("type {} bytes {}", short(&case.name()), hex(bytes)));
    let f = Faults::soft(&mut ctx.tape, bytes.len());
    let f2 = Faults::soft(&mut ctx.tape, bytes.len());
    shared(ctx, |env| {
        let (a, ca, _, _) = decode_one(env, case, bytes, Faults::none())?;
        for f in [f, f2] {
            let fd = format!("{f:?}");
            let (b, cb, _, _) = decode_one(env, case, bytes, f)?;
            match (&a, &b) {
                (Ok(x), Ok(y)) => {
                    if x != y {
                        return bad("delivery-changes-value", format!("whole: {} delivered as {fd}: {}", short(x), short(y)));
                    }
                    if ca != cb {
                        return bad("delivery-changes-consumption", format!("whole consumes {ca}, {fd} consumes {cb}"));
                    }
                    env.with(|c| c.probe("both-ok"));
                }
                (Err(x), Err(y)) => {
                    if std::mem::discriminant(x) != std::mem::discriminant(y) {
                        return bad("delivery-changes-error", format!("whole: {x:?} delivered as {fd}: {y:?}"));
                    }
                    env.with(|c| c.probe("both-err"));
                }
                _ => return bad("delivery-changes-verdict", format!("whole: {} delivered as {fd}: {}", short(&a), short(&b))),
            }
            // the convenience entry points see the same
            let f3 = env.with(|c| Faults::soft(&mut c.tape, bytes.len()));
            let mut r = SimReader::new(env, bytes, f3);
            match guarded(|| case.decode(&mut r)) {
                Err(p) => return bad("panic", p),
                Ok(Ok(y)) => match &a {
                    Ok(x) if *x == y => {}
                    _ => return bad("delivery-changes-value", format!("from_reader: {} / {}", short(&a), short(&y))),
                },
                Ok(Err(e)) => {
                    if a.is_ok() {
                        return bad("delivery-changes-verdict", format!("from_reader failed with {e:?}, whole gives {}", short(&a)));
                    }
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C02

pub fn c02(ctx: &mut Ctx) -> Outcome {
    if ctx.tape.draw(4) == 3 {
        return c02_primitives(ctx);
    }
    let (case, val) = gen_case(&mut ctx.tape, 3);
    let ty = case.ty();
    let expect = encode(&ty, &val);
    let f = write_faults(ctx, expect.len());
    ctx.event(|| format!("type {} value {} faults {f:?}", short(&case.name()), short(&val)));
    shared(ctx, |env| {
        let mut w = SimWriter::new(env, f);
        let r = match guarded(|| case.encode(&mut w, &val)) {
            Ok(r) => r.map_err(|e| (io_kind(&e), format!("{e:?}"))),
            Err(p) => return bad("panic", p),
        };
        judge_write(env, r, &w.out, w.hard, &expect)
    })
}
fn write_faults(ctx: &mut Ctx, len: usize) -> Faults {
    let mut f = Faults::soft(&mut ctx.tape, len);
    match ctx.tape.draw(5) {
        3 => f.fail_at = Some((ctx.tape.draw(len as u64 + 2) as usize, ctx.tape.draw(KINDS.len() as u64) as usize)),
        4 => f.zero_at = Some(ctx.tape.draw(len as u64 + 2) as usize),
        _ => {}
    }
    f.once = ctx.tape.draw(2) == 1;
    f
}
fn judge_write(env: &Shared, r: Result<(), (Option<ErrorKind>, String)>, out: &[u8], hard: Option<ErrorKind>, expect: &[u8]) -> Outcome {
    match r {
        Ok(()) => {
            if out != expect {
                return bad("success-without-all-bytes", format!("reported success; sink holds {} expected {}", hex(out), hex(expect)));
            }
            if hard.is_some() {
                return bad("sink-error-swallowed", format!("the sink failed with {hard:?} and success was reported"));
            }
            env.with(|c| c.probe("write-ok"));
        }
        Err((kind, e)) => {
            let Some(h) = hard else {
                return bad("failure-without-cause", format!("the sink never failed; reported {e}"));
            };
            if kind != Some(h) {
                return bad("sink-error-changed", format!("the sink failed with {h:?}, reported {e}"));
            }
            if !expect.starts_with(out) {
                return bad("garbage-in-sink", format!("sink holds {} which is not a prefix of {}", hex(out), hex(expect)));
            }
            env.with(|c| c.probe("write-err"));
        }
    }
    Ok(())
}
#[derive(Debug, Clone)]
enum Prim {
    Unit,
    Bool(bool),
    Char(u8),
    Int(i64),
    Nat(u64),
    F32(u32),
    F64(u64),
    Index(u8),
    Tag(u32),
}
fn gen_prim(ctx: &mut Ctx) -> Prim {
    let t = &mut ctx.tape;
    match t.draw(9) {
        0 => Prim::Unit,
        1 => Prim::Bool(t.draw(2) == 1),
        2 => Prim::Char(t.draw(256) as u8),
        3 => Prim::Int(gen_int(t, i64::MIN as i128, i64::MAX as i128) as i64),
        4 => Prim::Nat(gen_int(t, 0, u64::MAX as i128) as u64),
        5 => Prim::F32(t.draw(1 << 32) as u32),
        6 => Prim::F64(t.draw64()),
        7 => Prim::Index(t.draw(256) as u8),
        _ => Prim::Tag(t.draw(1 << 31) as u32),
    }
}
fn enc_prim(p: &Prim, o: &mut Vec<u8>) {
    match p {
        Prim::Unit => o.push(0),
        Prim::Bool(b) => o.push(*b as u8),
        Prim::Char(c) => o.push(*c),
        Prim::Int(n) => enc_int(o, *n),
        Prim::Nat(n) => enc_nat0(o, *n),
        Prim::F32(b) => o.extend_from_slice(&b.to_le_bytes()),
        Prim::F64(b) => o.extend_from_slice(&b.to_le_bytes()),
        Prim::Index(i) => o.push(*i),
        Prim::Tag(t) => o.extend_from_slice(&((t << 1) | 1).to_le_bytes()),
    }
}
fn write_prim(w: &mut dyn std::io::Write, p: &Prim) -> std::io::Result<Option<usize>> {
    use bin_prot::WriteBinProtExt;
    Ok(match p {
        Prim::Unit => { w.bin_write_unit()?; None }
        Prim::Bool(b) => { w.bin_write_bool(*b)?; None }
        Prim::Char(c) => Some(w.bin_write_char(*c as char)?),
        Prim::Int(n) => Some(w.bin_write_integer(*n)?),
        Prim::Nat(n) => Some(w.bin_write_nat0(*n)?),
        Prim::F32(b) => Some(w.bin_write_float32(&f32::from_bits(*b))?),
        Prim::F64(b) => Some(w.bin_write_float64(&f64::from_bits(*b))?),
        Prim::Index(i) => Some(w.bin_write_variant_index(*i)?),
        Prim::Tag(t) => Some(w.bin_write_polyvar_tag(*t)?),
    })
}
fn c02_primitives(ctx: &mut Ctx) -> Outcome {
    let n = ctx.tape.range(1, 6);
    let prims: Vec<Prim> = (0..n).map(|_| gen_prim(ctx)).collect();
    let mut expect = vec![];
    for p in &prims {
        enc_prim(p, &mut expect);
    }
    let f = write_faults(ctx, expect.len());
    ctx.event(|| format!("primitives {prims:?} faults {f:?}"));
    shared(ctx, |env| {
        let mut w = SimWriter::new(env, f);
        let mut res = Ok(());
        let mut done = vec![];
        for p in &prims {
            enc_prim(p, &mut done);
            let before = w.out.len();
            match guarded(|| write_prim(&mut w, p)) {
                Err(p) => return bad("panic", p),
                Ok(Ok(n)) => {
                    if let Some(n) = n {
                        if w.out.len() - before != n {
                            return bad("success-without-all-bytes", format!("{p:?}: reported {n} bytes, sink took {}", w.out.len() - before));
                        }
                    }
                    if w.out != done {
                        return bad("success-without-all-bytes", format!("{p:?}: sink holds {} expected {}", hex(&w.out), hex(&done)));
                    }
                }
                Ok(Err(e)) => {
                    res = Err((Some(e.kind()), format!("{e:?}")));
                    break;
                }
            }
        }
        judge_write(env, res, &w.out, w.hard, &expect)
    })
}

// ------------------------------------------------------------------ C03

pub fn c03(ctx: &mut Ctx) -> Outcome {
    let (case, val) = gen_case(&mut ctx.tape, 3);
    let ty = case.ty();
    let bytes = encode(&ty, &val);
    let mut f = Faults::soft(&mut ctx.tape, bytes.len());
    let eof = ctx.tape.draw(2) == 0;
    let cut = ctx.tape.draw(bytes.len() as u64 + 1) as usize;
    let kind = ctx.tape.draw(KINDS.len() as u64) as usize;
    let mut data = bytes.clone();
    if eof {
        data.truncate(cut);
        if cut < bytes.len() {
            ctx.fault("stream-truncated");
        }
    } else {
        f.fail_at = Some((cut, kind));
        f.once = ctx.tape.draw(2) == 1;
    }
    let entry = ctx.tape.draw(3);
    ctx.event(|| format!("type {} {} bytes, {} after {cut}, entry {entry} faults {f:?}", short(&case.name()), bytes.len(), if eof { "EOF" } else { "error" }));
    shared(ctx, |env| {
        let mut r = SimReader::new(env, &data, f);
        let mut got = None;
        let p = guarded(|| match entry {
            0 => case.stream(&mut r, &mut |v, _| { got = Some(v); false }),
            1 => got = Some(case.decode(&mut r)),
            _ => got = Some(case.strict(&mut r)),
        });
        if let Err(p) = p {
            return bad("panic", format!("{}: {p}", short(&case.name())));
        }
        let got = got.unwrap();
        if cut < bytes.len() {
            match got {
                Ok(v) => bad("value-from-broken-stream", format!("only {cut} of {} bytes arrived, decoded {}", bytes.len(), short(&v))),
                Err(e) => {
                    env.with(|c| c.probe("broken-reported"));
                    if !eof && io_kind(&e) != Some(KINDS[kind].1) {
                        return bad("read-error-changed", format!("the source failed with {:?}, reported {e:?}", KINDS[kind].1));
                    }
                    if eof && !matches!(e, Error::EndOfStream) && io_kind(&e) != Some(ErrorKind::UnexpectedEof) {
                        return bad("truncation-misreported", format!("the stream ended early, reported {e:?}"));
                    }
                    Ok(())
                }
            }
        } else {
            // everything needed has arrived
            match got {
                Ok(v) => {
                    env.with(|c| c.probe("complete"));
                    if v == val { Ok(()) } else { bad("wrong-value", format!("sent {} got {}", short(&val), short(&v))) }
                }
                Err(e) => {
                    if entry == 2 && !eof && io_kind(&e) == Some(KINDS[kind].1) {
                        return Ok(()); // looking for trailing bytes may meet the error
                    }
                    bad("complete-value-refused", format!("all {} bytes arrived, reported {e:?}", bytes.len()))
                }
            }
        }
    })
}

// ------------------------------------------------------------------ C04

pub fn c04(ctx: &mut Ctx) -> Outcome {
    let mode = ctx.tape.draw(8);
    let (case, val) = if mode >= 6 {
        // encodings that end exactly at, just before or just after the internal buffer size
        let total = *ctx.tape.pick(&[8192usize, 16384, 4096, 24576, 8192, 16384, 32768, 65536, 8192]) as i64 + ctx.tape.draw(5) as i64 - 2;
        let n = (total - 3) as usize;
        ctx.probe("ends-near-buffer-boundary");
        if ctx.tape.draw(2) == 0 {
            (Case::Dyn(std::rc::Rc::new(Ty::Str)), Val::Str("x".repeat(n)))
        } else {
            (Case::Dyn(std::rc::Rc::new(Ty::Seq(Box::new(Ty::U8)))), Val::Seq((0..n).map(|i| Val::Int((i % 251) as i128)).collect()))
        }
    } else {
        gen_case(&mut ctx.tape, 3)
    };
    let ty = case.ty();
    let mut bytes = encode(&ty, &val);
    let len = bytes.len();
    let tail = match ctx.tape.draw(6) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => 1 + ctx.tape.draw(20) as usize,
        _ => 8192 + ctx.tape.draw(20) as usize,
    };
    let zero = ctx.tape.draw(2) == 0;
    for i in 0..tail {
        bytes.push(if zero { 0 } else { i as u8 });
    }
    let mut f = Faults::soft(&mut ctx.tape, bytes.len());
    if ctx.tape.draw(3) == 2 {
        f.chunk = 4;
        f.split = len; // the tail comes in a later read
    }
    if bytes.len() > 3000 && (f.chunk == 2 || f.chunk == 1) {
        f.chunk = 3;
    }
    ctx.event(|| format!("type {} {len} bytes + {tail} trailing, faults {f:?}", short(&case.name())));
    shared(ctx, |env| {
        let mut r = SimReader::new(env, &bytes, f);
        let got = match guarded(|| case.strict(&mut r)) {
            Ok(g) => g,
            Err(p) => return bad("panic", p),
        };
        match (tail, got) {
            (0, Ok(v)) => {
                env.with(|c| c.probe("exact"));
                if v == val { Ok(()) } else { bad("wrong-value", format!("sent {} got {}", short(&val), short(&v))) }
            }
            (0, Err(e)) => bad("exact-input-refused", format!("{e:?}")),
            (t, Ok(_)) => bad("trailing-bytes-accepted", format!("{t} unconsumed bytes followed a {len} byte value and strict decoding succeeded")),
            (_, Err(_)) => {
                env.with(|c| c.probe("trailing-reported"));
                Ok(())
            }
        }
    })
}

// ------------------------------------------------------------------ C05

pub fn c05(ctx: &mut Ctx) -> Outcome {
    if ctx.tape.draw(4) == 3 {
        return crate::loose::hostile(ctx);
    }
    let (case, val) = gen_case(&mut ctx.tape, 3);
    let ty = case.ty();
    let bytes = if ctx.tape.draw(8) == 7 {
        let n = ctx.tape.draw(40);
        ctx.fault("garbage-stream");
        (0..n).map(|_| ctx.tape.draw(256) as u8).collect()
    } else {
        corrupt(ctx, &ty, &val)
    };
    let mut r = Rd { b: &bytes, p: 0 };
    let model = dec(&ty, &mut r);
    let used = r.p;
    let f = Faults::soft(&mut ctx.tape, bytes.len());
    ctx.event(|| format!("type {} bytes {} model {}", short(&case.name()), hex(&bytes), short(&model)));
    let (out, peak, _) = shared(ctx, |env| simcore::alloc::measured(64 << 20, || decode_one(env, &case, &bytes, f)));
    let (got, consumed, delivered, _) = out?;
    let bound = memory_bound(delivered);
    if peak > bound {
        return bad("memory-beyond-input", format!("{delivered} bytes were received, {peak} bytes were allocated (bound {bound})"));
    }
    judge_hostile(ctx, model, got, used, consumed)
}
/// a fixed amount plus a factor for the in-memory representation of what has actually arrived
pub fn memory_bound(delivered: usize) -> i64 {
    256 * 1024 + 1200 * delivered as i64
}
fn judge_hostile(ctx: &mut Ctx, model: Result<Val, Bad>, got: Res<Val>, used: usize, consumed: usize) -> Outcome {
    match (model, got) {
        (Ok(x), Ok(y)) => {
            ctx.probe("hostile-valid");
            if x != y {
                return bad("hostile-wrong-value", format!("the format says {} got {}", short(&x), short(&y)));
            }
            if used != consumed {
                return bad("hostile-consumption", format!("the value has {used} bytes, {consumed} were consumed"));
            }
            Ok(())
        }
        (Err(Bad::Unsure), _) => Ok(()),
        (Err(_), Err(_)) => {
            ctx.probe("hostile-refused");
            Ok(())
        }
        (Err(b), Ok(y)) => bad("hostile-accepted", format!("not a valid encoding ({b:?}), decoded as {}", short(&y))),
        (Ok(x), Err(e)) => bad("hostile-valid-refused", format!("a valid encoding of {}, refused with {e:?}", short(&x))),
    }
}
