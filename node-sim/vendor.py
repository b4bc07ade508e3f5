#!/usr/bin/env python3
"""Unpacks the crates named in vendor.list from cargo's download caches into a directory source.
usage: vendor.py <dir>"""
import glob, json, os, shutil, sys, tarfile, hashlib
here = os.path.dirname(os.path.abspath(__file__))
dst = sys.argv[1]
want = open(os.path.join(here, "vendor.list")).read().split()
# sources of nondeterminism inside the crates, which the simulation decides
PATCHES = [("tokio-1.53.1/src/runtime/context.rs", """    CONTEXT.with(|ctx| {
        let mut rng = ctx.rng.get().unwrap_or_else(FastRand::new);
        let ret = rng.fastrand_n(n);
        ctx.rng.set(Some(rng));
        ret
    })
""", """    SIM_RAND.get().map_or(0, |f| f(n))
"""), ("tokio-1.53.1/src/runtime/context.rs", """pub(crate) fn thread_rng_n(""", """pub static SIM_RAND: std::sync::OnceLock<fn(u32) -> u32> = std::sync::OnceLock::new();
#[cfg(any(feature = "macros", all(feature = "sync", feature = "rt")))]
pub(crate) fn thread_rng_n("""), ("tokio-1.53.1/src/macros/support.rs", """    #[doc(hidden)]
    pub fn thread_rng_n""", """    pub use crate::runtime::context::SIM_RAND;

    #[doc(hidden)]
    pub fn thread_rng_n"""),
    # tasks that a tool spawns run on the one thread of the simulation
    ("tokio-1.53.1/src/runtime/builder.rs", "Builder::new(Kind::MultiThread, 61)", "Builder::new(Kind::CurrentThread, 61)")]
stamp = hashlib.sha256(("\n".join(want) + repr(PATCHES)).encode()).hexdigest()
sf = os.path.join(dst, ".stamp")
if os.path.exists(sf) and open(sf).read() == stamp:
    sys.exit(0)
tmp = dst + ".tmp%d" % os.getpid()
shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(tmp)
home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
for c in want:
    f = glob.glob(os.path.join(home, "registry/cache/*", c + ".crate"))
    if not f:
        sys.exit("vendor.py: no %s.crate in cargo's caches" % c)
    data = open(f[0], "rb").read()
    with tarfile.open(f[0]) as t:
        t.extractall(tmp, filter="data")
    json.dump({"files": {}, "package": hashlib.sha256(data).hexdigest()}, open(os.path.join(tmp, c, ".cargo-checksum.json"), "w"))
for f, a, b in PATCHES:
    f = os.path.join(tmp, f)
    t = open(f).read()
    assert t.count(a) == 1, f
    open(f, "w").write(t.replace(a, b))
open(os.path.join(tmp, ".stamp"), "w").write(stamp)
# cargo takes a crate with a known checksum for unchanged
for h in "node-sim", "web-sim", "crawl-tool":
    shutil.rmtree(os.path.join(os.path.dirname(os.path.abspath(dst)), h), ignore_errors=True)
shutil.rmtree(dst, ignore_errors=True)
os.rename(tmp, dst)
