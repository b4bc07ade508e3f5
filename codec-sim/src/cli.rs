//! The two command line tools, run as real processes whose every open, read and write on the files of
//! the run is answered by a preloaded shim following a plan drawn from the tape.
use crate::loose::{gen_layout, gen_value, json, ref_decode, L};
use crate::model::{enc_int, enc_nat0, gen_int, Bad, Rd};
use crate::props::bad;
use simcore::{hex, Ctx, Outcome, Tape};
use std::fs::File;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

extern "C" {
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = std::env::var_os("SIM_DIR").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("cli.{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn f(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    code: Option<i32>,
    stdout: Vec<u8>,
    /// an error that is not to be retried was answered, or the process was killed by the plan
    hard: bool,
}

/// draws what happens to the calls on one file; `calls` is about how many there are
fn draw_plan(t: &mut Tape, roles: &[(char, usize)]) -> String {
    let mut p = String::new();
    for (r, _) in roles {
        if t.chance(1, 2) {
            p += &format!("c{r}={};", [1, 2, 3, 7, 64, 4096][t.draw(6) as usize]);
        }
    }
    for (r, n) in roles {
        for _ in 0..t.draw(3) {
            p += &format!("f{r}{}:i;", t.draw(*n as u64 + 2));
        }
    }
    // at most two hard faults
    for _ in 0..[0, 0, 1, 1, 2][t.draw(5) as usize] {
        let (r, n) = *t.pick(roles);
        let idx = t.draw(n as u64 + 2);
        match t.draw(8) {
            0 => p += &format!("d{r}={};", t.draw(n as u64 + 8)),
            k => p += &format!("f{r}{idx}:{};", ['e', 'o', 's', 'p', 'z', 'k', 'K'][k as usize - 1]),
        }
    }
    p
}

fn run_tool(ctx: &mut Ctx, tool: &str, args: &[&str], s: &Scratch, stdin: Option<&Path>, paths: &[(&Path, char)], plan: &str) -> Ran {
    let tools = PathBuf::from(std::env::var_os("SIM_TOOLS").expect("SIM_TOOLS"));
    let log = s.f("log");
    let out = s.f("stdout");
    let mut c = Command::new(tools.join("debug").join(tool));
    c.args(args)
        .env_clear()
        .env("LD_PRELOAD", tools.join("shim.so"))
        .env("CLI_SIM_LOG", &log)
        .env("CLI_SIM_PLAN", plan)
        .env("CLI_SIM_PATHS", paths.iter().map(|(p, r)| format!("{}={r}", p.display())).collect::<Vec<_>>().join(","))
        .current_dir(&s.0)
        .stdin(match stdin {
            Some(p) => Stdio::from(File::open(p).unwrap()),
            None => Stdio::null(),
        })
        .stdout(Stdio::from(File::create(&out).unwrap()))
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            prctl(1, 9, 0, 0, 0); // die with the simulator
            setrlimit(0, &[20, 20]); // cpu seconds
            setrlimit(1, &[64 << 20, 64 << 20]); // file size
            setrlimit(4, &[0, 0]); // no core files
            Ok(())
        });
    }
    let st = c.status().expect("cannot start the tool");
    let mut hard = false;
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    if text.is_empty() && st.code().is_some() {
        // the tool did no I/O at all on the files of the run
        ctx.probe("no-io");
    }
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        ctx.steps += 1;
        let (op, why) = (f[0], f[4]);
        match why {
            "-" => {}
            "short" | "eintr" => ctx.fault(&format!("{op}-{why}")),
            _ => {
                hard = true;
                ctx.fault(&format!("{op}-{why}"))
            }
        }
        ctx.sched_event(op.as_bytes()[0] as u64, f[3].parse::<i64>().unwrap_or(0) as u64);
    }
    if text.lines().count() < 400 {
        ctx.event(|| format!("{tool}: {}", text.replace('\n', "; ")));
    } else {
        ctx.event(|| format!("{tool}: {} calls", text.lines().count()));
    }
    let code = if st.signal().is_some() { None } else { st.code() };
    let stdout = std::fs::read(&out).unwrap_or_default();
    ctx.event(|| format!("exit {code:?}"));
    Ran { code, stdout, hard }
}

// ------------------------------------------------------------------------------ bin_prot_checker

const TESTS: [(&str, &[u8]); 8] = [
    ("nat0", &[1, 0]),
    ("bool", &[1]),
    ("int", &[0xfe, 0x39, 0x30]),
    ("int32", &[0xfe, 0x39, 0x30]),
    ("int64", &[0xfe, 0x39, 0x30]),
    ("enum", &[0]),
    ("record", &[15, 1, 2]),
    ("variant", &[0, 15]),
];

/// an encoding and what the tool has to print for it; None: not an encoding of the type
fn checker_input(t: &mut Tape, test: &str) -> (Vec<u8>, Option<String>) {
    let mut o = vec![];
    let int = |t: &mut Tape, o: &mut Vec<u8>, wide: bool| -> Option<i64> {
        // one in six does not fit the 32-bit destination
        let big = t.draw(6) == 5;
        let (lo, hi) = if wide || big { (i64::MIN, i64::MAX) } else { (i32::MIN as i64, i32::MAX as i64) };
        let n = gen_int(t, lo as i128, hi as i128) as i64;
        enc_int(o, n);
        (wide || i32::try_from(n).is_ok()).then_some(n)
    };
    let boolean = |t: &mut Tape, o: &mut Vec<u8>| -> Option<bool> {
        let b = [0, 1, 0, 1, 0, 1, 2, 255][t.draw(8) as usize];
        o.push(b);
        (b < 2).then_some(b == 1)
    };
    let en = |t: &mut Tape, o: &mut Vec<u8>| -> Option<&'static str> {
        let b = [0, 1, 2, 0, 1, 2, 3, 200][t.draw(8) as usize];
        o.push(b);
        ["A", "B", "C"].get(b as usize).copied()
    };
    let s = match test {
        "nat0" => {
            let n = t.draw(20);
            enc_nat0(&mut o, n);
            let mut ok = true;
            for _ in 0..n {
                let b = if t.draw(40) == 39 { 1 } else { 0 };
                ok &= b == 0;
                o.push(b);
            }
            ok.then(|| n.to_string())
        }
        "bool" => boolean(t, &mut o).map(|b| b.to_string()),
        "int" | "int32" => int(t, &mut o, false).map(|n| n.to_string()),
        "int64" => int(t, &mut o, true).map(|n| n.to_string()),
        "enum" => en(t, &mut o).map(|e| e.to_string()),
        "record" => {
            let (a, b, c) = (int(t, &mut o, false), boolean(t, &mut o), en(t, &mut o));
            match (a, b, c) {
                (Some(a), Some(b), Some(c)) => Some(format!("S {{ a: {a}, b: {b}, c: {c} }}")),
                _ => None,
            }
        }
        _ => {
            let k = t.draw(4) as u8;
            o.push(k);
            match k {
                0 => int(t, &mut o, false).map(|n| format!("A({n})")),
                1 => boolean(t, &mut o).map(|b| format!("B({b})")),
                2 => en(t, &mut o).map(|e| format!("C({e})")),
                _ => None,
            }
        }
    };
    (o, s)
}

pub fn c10(ctx: &mut Ctx) -> Outcome {
    let s = Scratch::new();
    let (test, want) = *ctx.tape.pick(&TESTS);
    let to_file = ctx.tape.draw(2) == 1;
    let file = s.f("data");
    let fp = file.display().to_string();
    if ctx.tape.draw(2) == 0 {
        let plan = draw_plan(&mut ctx.tape, &[(if to_file { 'F' } else { 'S' }, 5), ('S', 4)]);
        let stale = ctx.tape.draw(3) as usize * 40;
        if to_file && stale > 0 {
            std::fs::write(&file, vec![0xAA; stale]).unwrap();
        }
        ctx.event(|| format!("serialize {test} to {} (held {stale} bytes) plan {plan}", if to_file { "a file" } else { "stdout" }));
        let mut args = vec!["--test", test];
        if to_file {
            args.extend(["--path", &fp]);
        }
        args.push("serialize");
        let r = run_tool(ctx, "bin_prot_checker", &args, &s, None, &[(&file, 'F')], &plan);
        let got = if to_file { std::fs::read(&file).unwrap_or_default() } else { r.stdout.clone() };
        let said = String::from_utf8_lossy(&r.stdout).to_string();
        let complete = got == want;
        if to_file {
            if let Some(n) = said.lines().find_map(|l| l.strip_prefix("Wrote ").and_then(|x| x.strip_suffix(" bytes"))) {
                ctx.probe("wrote-line");
                if !complete || n != want.len().to_string() {
                    return bad("tool-false-report", format!("reports {n} bytes written, the file has {}", hex(&got)));
                }
            } else if r.code == Some(0) {
                return bad("tool-silent-success", format!("exit 0, printed {said:?}"));
            }
        }
        return match (r.code, complete) {
            (Some(0), true) => {
                ctx.probe("tool-ok");
                Ok(())
            }
            (Some(0), false) => bad("tool-lost-output", format!("{test}: exit 0, destination holds {} instead of {}", hex(&got), hex(want))),
            _ if r.hard => {
                ctx.probe("tool-reported");
                if !to_file && !want.starts_with(&got) {
                    return bad("tool-wrong-output", format!("{test}: destination holds {}", hex(&got)));
                }
                Ok(())
            }
            (c, _) => bad("tool-refused", format!("{test}: exit {c:?} without a fault; holds {}", hex(&got))),
        };
    }
    let (mut bytes, mut line) = checker_input(&mut ctx.tape, test);
    if ctx.tape.draw(4) == 3 {
        let cut = ctx.tape.draw(bytes.len() as u64) as usize;
        bytes.truncate(cut);
        line = None;
        ctx.fault("input-truncated");
    }
    let role = if to_file { 'F' } else { 'I' };
    let plan = draw_plan(&mut ctx.tape, &[(role, bytes.len() + 1), ('S', 4)]);
    std::fs::write(&file, &bytes).unwrap();
    ctx.event(|| format!("deserialize {test} from {} {} expecting {line:?} plan {plan}", if to_file { "a file" } else { "stdin" }, hex(&bytes)));
    let mut args = vec!["--test", test];
    if to_file {
        args.extend(["--path", &fp]);
    }
    args.push("deserialize");
    let r = run_tool(ctx, "bin_prot_checker", &args, &s, if to_file { None } else { Some(&file) }, &[(&file, 'F')], &plan);
    let want = line.as_ref().map(|l| format!("Deserialized value: {l}\n")).unwrap_or_default();
    let got = String::from_utf8_lossy(&r.stdout).to_string();
    if !want.starts_with(&got) {
        return bad("tool-wrong-output", format!("{test} {}: printed {got:?} instead of {want:?}", hex(&bytes)));
    }
    match r.code {
        Some(0) if line.is_none() => bad("tool-accepted-broken", format!("{test} {}: exit 0", hex(&bytes))),
        Some(0) if got != want => bad("tool-lost-output", format!("exit 0, printed {got:?} instead of {want:?}")),
        Some(0) => {
            ctx.probe("tool-ok");
            Ok(())
        }
        _ if line.is_none() || r.hard => {
            ctx.probe("tool-reported");
            Ok(())
        }
        c => bad("tool-refused", format!("{test} {}: exit {c:?} without a fault, expected {want:?}", hex(&bytes))),
    }
}

// ------------------------------------------------------------------------------ layout reader

fn is_hex(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() % 2 != 0 || !b.iter().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    Some(b.chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect())
}

pub fn c11(ctx: &mut Ctx) -> Outcome {
    let s = Scratch::new();
    let depth = ctx.tape.draw(4) as u32;
    let l = gen_layout(&mut ctx.tape, depth, true);
    let mut rule = String::new();
    json(&l, &mut rule);
    let mut layout = format!("{{\"layout_loc\":\"sim.ml:1:1\",\"version_opt\":null,\"type_decl\":\"t\",\"bin_io_derived\":true,\"bin_prot_rule\":{rule}}}");
    let mut layout_ok = true;
    if ctx.tape.draw(12) == 11 {
        let cut = ctx.tape.draw(layout.len() as u64) as usize;
        layout.truncate(cut);
        layout_ok = false;
        ctx.fault("input-truncated");
    }
    let (mut data, mut lens, mut budget) = (vec![], vec![], 60i64);
    let _ = gen_value(&mut ctx.tape, &l, &mut data, &mut lens, &mut budget);
    match ctx.tape.draw(8) {
        5 if !data.is_empty() => {
            let cut = ctx.tape.draw(data.len() as u64) as usize;
            data.truncate(cut);
            ctx.fault("input-truncated");
        }
        6 if !data.is_empty() => {
            let i = ctx.tape.draw(data.len() as u64) as usize;
            data[i] ^= 1 << ctx.tape.draw(8);
            ctx.fault("input-bitflip");
        }
        7 => {
            for _ in 0..=ctx.tape.draw(3) {
                data.push(ctx.tape.draw(256) as u8);
            }
            ctx.fault("input-trailing");
        }
        _ => {}
    }
    // the file holds the bytes themselves or their hex digits, lower or upper case
    let file: Vec<u8> = match ctx.tape.draw(4) {
        0 | 1 => data.clone(),
        2 => data.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect(),
        _ => data.iter().flat_map(|b| format!("{b:02X}").into_bytes()).collect(),
    };
    let data = is_hex(&file).unwrap_or_else(|| file.clone());
    let roundtrip = ctx.tape.draw(2) == 1;
    let to_file = ctx.tape.draw(2) == 1;
    let stale = ctx.tape.draw(3) as usize * 3000;
    // what has to come out
    let mut rd = Rd { b: &data, p: 0 };
    let mut canon = vec![];
    let want = match ref_decode(&l, &mut rd, &mut canon) {
        Ok(v) => Ok(v),
        Err(Bad::Unsure) => {
            ctx.probe("unsure");
            return Ok(());
        }
        Err(_) => Err(()),
    };
    let refuse = !layout_ok || want.is_err() || (roundtrip && canon != data);
    let text = match &want {
        Ok(v) => format!("{v:#?}"),
        Err(()) => String::new(),
    };
    let (lp, bp, op) = (s.f("layout.json"), s.f("data.bin"), s.f("out.txt"));
    std::fs::write(&lp, &layout).unwrap();
    std::fs::write(&bp, &file).unwrap();
    if to_file && stale > 0 {
        std::fs::write(&op, vec![b'x'; stale]).unwrap();
    }
    let out_role = if to_file { ('O', text.len() / 4 + 1) } else { ('S', 4) };
    let plan = draw_plan(&mut ctx.tape, &[('L', layout.len()), ('B', file.len().min(6) + 1), out_role]);
    ctx.event(|| format!("layout {rule} file {} roundtrip {roundtrip} to_file {to_file} refuse {refuse} plan {plan}", hex(&file)));
    let (ls, bs, os) = (lp.display().to_string(), bp.display().to_string(), op.display().to_string());
    let mut args = vec![];
    if roundtrip {
        args.push("--roundtrip");
    }
    if to_file {
        args.extend(["--output", &os]);
    }
    args.extend([ls.as_str(), bs.as_str()]);
    let r = run_tool(ctx, "bin-prot-layout-reader", &args, &s, None, &[(&lp, 'L'), (&bp, 'B'), (&op, 'O')], &plan);
    let (got, want_text) = if to_file {
        (std::fs::read(&op).unwrap_or_default(), text.clone())
    } else {
        (r.stdout.clone(), format!("{text}\n"))
    };
    let short = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(300)]).to_string();
    match r.code {
        Some(0) if refuse => bad("tool-accepted-broken", format!("layout {rule} bytes {}: exit 0, roundtrip {roundtrip}", hex(&data))),
        Some(0) if got.strip_suffix(b"\n").unwrap_or(&got) != want_text.strip_suffix('\n').unwrap_or(&want_text).as_bytes() => {
            bad("tool-wrong-output", format!("layout {rule} bytes {}: exit 0, wrote {:?} instead of {:?}", hex(&data), short(&got), short(want_text.as_bytes())))
        }
        Some(0) => {
            ctx.probe("tool-ok");
            if roundtrip {
                ctx.probe("roundtrip-ok");
            }
            Ok(())
        }
        _ if refuse => {
            ctx.probe("tool-refused-broken");
            if !r.hard && !to_file && !got.is_empty() {
                return bad("tool-wrong-output", format!("refused, yet printed {:?}", short(&got)));
            }
            Ok(())
        }
        _ if r.hard => {
            ctx.probe("tool-reported");
            Ok(())
        }
        c => bad("tool-refused", format!("layout {rule} bytes {}: exit {c:?} without a fault", hex(&data))),
    }
}

#[allow(dead_code)]
fn _l(_: &L) {}
