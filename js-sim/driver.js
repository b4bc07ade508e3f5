// One simulated execution per input line: {"choices":[u32...],"verbose":bool} -> one JSON line with the verdict.
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const readline = require("readline");

const JS_DIR = process.env.SIM_JS_DIR || "/repo/network/js";
const hostSetImmediate = setImmediate;

// ------------------------------------------------------------------ choices
class Tape {
  constructor(c) { this.c = c; this.used = []; }
  draw(n) {
    const i = this.used.length;
    const v = (i < this.c.length ? this.c[i] : 0) % Math.max(1, n);
    this.used.push(v);
    return v;
  }
  chance(num, den) { return this.draw(den) >= den - num; }
  pick(xs) { return xs[this.draw(xs.length)]; }
}

class Violation extends Error {
  constructor(cls, detail) { super(detail); this.cls = cls; }
}
class Broken extends Error {}

// ------------------------------------------------------------------ the code under test, fresh per run
const scripts = new Map();
function script(file) {
  let s = scripts.get(file);
  if (!s) {
    const src = fs.readFileSync(file, "utf8");
    s = file.endsWith(".json") ? { json: src }
      : { vm: new vm.Script(`(function (exports, require, module, __filename, __dirname) {${src}\n})`, { filename: file }) };
    scripts.set(file, s);
  }
  return s;
}
// runs inside the context, so that every object the client sees belongs to its own realm
const prelude = new vm.Script(`(function (host) {
  "use strict";
  class Headers {
    constructor(init) {
      this.m = new Map();
      if (init instanceof Headers) { for (const [k, v] of init.m) this.m.set(k, v); }
      else if (Array.isArray(init)) { for (const [k, v] of init) this.m.set(String(k).toLowerCase(), String(v)); }
      else if (init) { for (const k of Object.keys(init)) this.m.set(k.toLowerCase(), String(init[k])); }
    }
    get(k) { k = String(k).toLowerCase(); return this.m.has(k) ? this.m.get(k) : null; }
    has(k) { return this.m.has(String(k).toLowerCase()); }
    set(k, v) { this.m.set(String(k).toLowerCase(), String(v)); }
    append(k, v) { this.set(k, v); }
    entries() { return this.m.entries(); }
    forEach(f) { this.m.forEach(f); }
    [Symbol.iterator]() { return this.m.entries(); }
  }
  class Response {
    constructor(id, status, type, url) {
      this.status = status; this.ok = status >= 200 && status < 300;
      this.statusText = this.ok ? "OK" : "Error"; this.url = url; this.redirected = false; this.type = "basic";
      this.headers = new Headers({ "content-type": type });
      this.bodyUsed = false;
      Object.defineProperty(this, "_id", { value: id });
    }
    text() {
      if (this.bodyUsed) return Promise.reject(new TypeError("Body is unusable"));
      this.bodyUsed = true;
      return new Promise((res, rej) => host.body(this._id, res, (m) => rej(new TypeError(m)), rej));
    }
    async json() { const t = await this.text(); return JSON.parse(t); }
    async arrayBuffer() { return new TextEncoder().encode(await this.text()).buffer; }
    async blob() { throw new TypeError("blob is not simulated"); }
    clone() {
      const r = new Response(this._id, this.status, this.headers.get("content-type"), this.url);
      return r;
    }
  }
  function fetch(input, init) {
    init = init || {};
    let url = input && typeof input === "object" && "url" in input ? input.url : String(input);
    if (input && typeof input === "object" && input._init) init = Object.assign({}, input._init, init);
    const headers = new Headers(init.headers);
    return new Promise((res, rej) => {
      const signal = init.signal;
      const abort = () => rej(signal.reason !== undefined ? signal.reason : new Error("aborted"));
      if (signal && signal.aborted) return abort();
      const id = host.request(url, (init.method || "GET").toUpperCase(), init.body === undefined || init.body === null ? null : String(init.body),
        headers.get("content-type"),
        (status, type) => res(new Response(id, status, type, url)),
        (m) => rej(new TypeError(m)));
      if (signal) signal.addEventListener("abort", () => { host.abort(id, signal.reason); abort(); });
    });
  }
  class Request { constructor(url, init) { this.url = String(url); this._init = init || {}; } }
  class SimDate extends Date {
    constructor(...a) { if (a.length === 0) super(host.now()); else super(...a); }
    static now() { return host.now(); }
  }
  globalThis.Date = SimDate;
  Math.random = () => host.random();
  globalThis.Headers = Headers; globalThis.Request = Request; globalThis.Response = Response;
  globalThis.setTimeout = (f, d, ...a) => host.timer(() => f(...a), Number(d) || 0, 0);
  globalThis.setInterval = (f, d, ...a) => host.timer(() => f(...a), Math.max(1, Number(d) || 0), Math.max(1, Number(d) || 0));
  globalThis.setImmediate = (f, ...a) => host.timer(() => f(...a), 0, 0);
  globalThis.clearTimeout = globalThis.clearInterval = globalThis.clearImmediate = (t) => host.untimer(t);
  globalThis.performance = { now: () => host.now() };
  globalThis.self = globalThis;
  globalThis.window = undefined; delete globalThis.window;
  return { fetch, parse: JSON.parse };
})`, { filename: "prelude" });

function load(sim, viaNodeFetch) {
  const quiet = () => {};
  const sandbox = {
    console: { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet, trace: quiet },
    queueMicrotask, AbortController, AbortSignal, URL, URLSearchParams, TextEncoder, TextDecoder, structuredClone,
    process: { env: {}, nextTick: (f, ...a) => process.nextTick(f, ...a), versions: process.versions, platform: process.platform },
  };
  const context = vm.createContext(sandbox);
  const { fetch, parse } = prelude.runInContext(context)(sim.host());
  if (!viaNodeFetch) sandbox.fetch = fetch;
  const cache = new Map();
  const req = (file) => {
    if (cache.has(file)) return cache.get(file).exports;
    const module = { exports: {} };
    cache.set(file, module);
    const s = script(file);
    if (s.json) { module.exports = parse(s.json); return module.exports; }
    const rel = (name) => {
      if (name === "node-fetch" || name === "cross-fetch") { const f = fetch; f.default = f; return f; }
      if (name.startsWith(".") || name.startsWith("/")) {
        const base = path.resolve(path.dirname(file), name);
        for (const c of [base, base + ".js", base + ".cjs", base + ".json", path.join(base, "index.js")]) {
          if (fs.existsSync(c) && fs.statSync(c).isFile()) return req(c);
        }
        throw new Error("Cannot find module '" + name + "'");
      }
      return require(name);
    };
    s.vm.runInContext(context)(module.exports, rel, module, file, path.dirname(file));
    return module.exports;
  };
  return { v1: req(path.join(JS_DIR, "graphql_v1_utils.js")), berkeley: req(path.join(JS_DIR, "graphql_berkeley_utils.js")) };
}

// ------------------------------------------------------------------ a small GraphQL executor
function lex(s) {
  const out = [];
  const re = /[\s,]+|#[^\n]*|("""[\s\S]*?"""|"(?:[^"\\\n]|\\.)*"|\.\.\.|[_A-Za-z][_0-9A-Za-z]*|-?[0-9]+(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?|[!$():=@\[\]{}|&])/gy;
  while (re.lastIndex < s.length) {
    const m = re.exec(s);
    if (!m) throw new Error("syntax error in query");
    if (m[1] !== undefined) out.push(m[1]);
  }
  return out;
}
function parseDoc(src) {
  const t = lex(src);
  let i = 0;
  const peek = () => t[i];
  const next = () => { if (i >= t.length) throw new Error("syntax error: unexpected end"); return t[i++]; };
  const expect = (x) => { const y = next(); if (y !== x) throw new Error(`syntax error: expected ${x}, got ${y}`); };
  const name = () => { const n = next(); if (!/^[_A-Za-z]/.test(n)) throw new Error("syntax error: expected a name, got " + n); return n; };
  function value() {
    const x = next();
    if (x === "$") { const n = name(); return (vars) => { if (!(n in vars)) throw new Error("undefined variable " + n); return vars[n]; }; }
    if (x === "[") { const xs = []; while (peek() !== "]") xs.push(value()); next(); return (v) => xs.map((f) => f(v)); }
    if (x === "{") {
      const o = [];
      while (peek() !== "}") { const k = name(); expect(":"); o.push([k, value()]); }
      next();
      return (v) => Object.fromEntries(o.map(([k, f]) => [k, f(v)]));
    }
    if (x.startsWith('"""')) return () => x.slice(3, -3);
    if (x.startsWith('"')) { const s = JSON.parse(x); return () => s; }
    if (/^-?[0-9]/.test(x)) return () => Number(x);
    if (x === "true") return () => true;
    if (x === "false") return () => false;
    if (x === "null") return () => null;
    return () => x; // enum
  }
  function args() {
    const a = [];
    if (peek() === "(") { next(); while (peek() !== ")") { const k = name(); expect(":"); a.push([k, value()]); } next(); }
    return (v) => Object.fromEntries(a.map(([k, f]) => [k, f(v)]));
  }
  function directives() { while (peek() === "@") { next(); name(); args(); } }
  function selection() {
    expect("{");
    const fields = [];
    while (peek() !== "}") {
      if (peek() === "...") {
        next();
        if (peek() === "{") fields.push({ inline: selection() });
        else {
          const n = name();
          if (n === "on") { name(); directives(); fields.push({ inline: selection() }); } else { directives(); fields.push({ spread: n }); }
        }
        continue;
      }
      let alias = name(), n = alias;
      if (peek() === ":") { next(); n = name(); }
      const a = args();
      directives();
      fields.push({ alias, name: n, args: a, sub: peek() === "{" ? selection() : null });
    }
    next();
    if (fields.length === 0) throw new Error("syntax error: empty selection");
    return fields;
  }
  const ops = [], frags = {};
  function type() { if (peek() === "[") { next(); type(); expect("]"); } else name(); if (peek() === "!") next(); }
  while (i < t.length) {
    if (peek() === "{") { ops.push({ name: null, vars: [], sel: selection() }); continue; }
    const k = name();
    if (k === "fragment") { const n = name(); expect("on"); name(); directives(); frags[n] = selection(); continue; }
    if (k !== "query") throw new Error("only queries are served");
    const op = { name: null, vars: [] };
    if (/^[_A-Za-z]/.test(peek() || "")) op.name = name();
    if (peek() === "(") {
      next();
      while (peek() !== ")") { expect("$"); const n = name(); expect(":"); type(); let d = null; if (peek() === "=") { next(); d = value(); } op.vars.push([n, d]); }
      next();
    }
    directives();
    op.sel = selection();
    ops.push(op);
  }
  return { ops, frags };
}
function execQuery(req, root) {
  const doc = parseDoc(String(req.query));
  const op = req.operationName ? doc.ops.find((o) => o.name === req.operationName) : doc.ops.length === 1 ? doc.ops[0] : null;
  if (!op) throw new Error("Unknown operation " + req.operationName);
  const vars = {};
  for (const [n, d] of op.vars) {
    if (req.variables && n in req.variables) vars[n] = req.variables[n];
    else if (d) vars[n] = d({});
  }
  const run = (sel, obj) => {
    const out = {};
    for (const f of sel) {
      if (f.inline) { merge(out, run(f.inline, obj)); continue; }
      if (f.spread) { if (!doc.frags[f.spread]) throw new Error("unknown fragment"); merge(out, run(doc.frags[f.spread], obj)); continue; }
      if (f.name === "__typename") { out[f.alias] = "T"; continue; }
      if (!(f.name in obj)) throw new Error(`Cannot query field "${f.name}"`);
      let v = obj[f.name];
      if (typeof v === "function") v = v(f.args(vars));
      const wrap = (x) => {
        if (Array.isArray(x)) return x.map(wrap);
        if (x !== null && typeof x === "object") {
          if (!f.sub) throw new Error(`Field "${f.name}" must have a selection of subfields`);
          return run(f.sub, x);
        }
        return x;
      };
      const r = wrap(v);
      if (out[f.alias] !== null && typeof out[f.alias] === "object" && !Array.isArray(r) && r) merge(out[f.alias], r); else out[f.alias] = r;
    }
    return out;
  };
  const merge = (a, b) => { for (const k of Object.keys(b)) { if (a[k] && typeof a[k] === "object" && !Array.isArray(a[k]) && b[k]) merge(a[k], b[k]); else a[k] = b[k]; } };
  return run(op.sel, root);
}

// ------------------------------------------------------------------ the world behind the network
const CONS = ["blockCreator", "blockHeight", "blockStakeWinner", "epoch", "blockchainLength", "coinbaseReceiever", "epochCount",
  "hasAncestorInSameCheckpointWindow", "lastVrfOutput", "minWindowDensity", "slot", "slotSinceGenesis", "superchargedCoinbase", "totalCurrency"];
const EPOCH = ["epochLength", "lockCheckpoint", "seed", "startCheckpoint"];
const CHAIN = ["bodyReference", "date", "snarkedLedgerHash", "stagedLedgerAuxHash", "stagedLedgerHash", "stagedLedgerPendingCoinbaseAux",
  "stagedLedgerPendingCoinbaseHash", "stagedLedgerProofEmitted", "utcDate"];

class World {
  constructor(t) { this.t = t; this.n = 0; }
  word(p) {
    const k = this.t.draw(12);
    const u = p + ++this.n;
    return k === 0 ? u : k === 1 ? u + "\u00e9\u{1F600}\"\\\n" : k === 2 ? u + "$&`${x}" : u + "x".repeat(k);
  }
  scalar(p) {
    switch (this.t.draw(6)) { case 0: return this.word(p); case 1: return null; case 2: return true; case 3: return this.t.draw(1000); case 4: return String(this.t.draw(1 << 30)); default: return this.word(p); }
  }
  doc(depth) {
    switch (this.t.draw(depth > 0 ? 7 : 4)) {
      case 0: return this.word("s"); case 1: return this.t.draw(100000); case 2: return null; case 3: return this.t.draw(2) === 1;
      case 4: { const xs = []; for (let i = this.t.draw(4); i > 0; i--) xs.push(this.doc(depth - 1)); return xs; }
      default: return this.rec(depth - 1);
    }
  }
  rec(depth) { const o = {}; for (let i = this.t.draw(4); i > 0; i--) o[this.t.pick(["a", "b", "data", "json", "errors", "c", "k" + i])] = this.doc(depth); return o; }
  block(height, hash) { return { scheduled_time: this.word("t"), protocol_state: { body: this.rec(2), height: String(height) }, staged_ledger_diff: this.doc(2), state_hash: hash }; }
  fields(names) { const o = {}; for (const n of names) o[n] = this.scalar(n); return o; }
  epoch() { const o = this.fields(EPOCH); o.ledger = { hash: this.word("h"), totalCurrency: this.word("c") }; return o; }
  gblock() {
    const c = this.fields(CONS);
    c.nextEpochData = this.epoch();
    c.stakingEpochData = this.epoch();
    const b = this.fields(CHAIN);
    b.snarkedLedgerHash = this.word("sl");
    return { protocolState: { previousStateHash: this.word("p"), consensusState: c, blockchainState: b }, stateHash: this.word("sh") };
  }
}
const clone = (x) => JSON.parse(JSON.stringify(x));
function canon(x) {
  if (Array.isArray(x)) return "[" + x.map(canon).join(",") + "]";
  if (x !== null && typeof x === "object") return "{" + Object.keys(x).sort().map((k) => JSON.stringify(k) + ":" + canon(x[k])).join(",") + "}";
  return JSON.stringify(x) ?? "undefined";
}
/** every field of want is in got with the same value; extra fields of records are allowed when `loose` */
function holds(want, got, loose) {
  if (Array.isArray(want)) return Array.isArray(got) && got.length === want.length && want.every((w, i) => holds(w, got[i], loose));
  if (want !== null && typeof want === "object") {
    if (got === null || typeof got !== "object" || Array.isArray(got)) return false;
    if (!loose && Object.keys(got).length !== Object.keys(want).length) return false;
    return Object.keys(want).every((k) => Object.prototype.hasOwnProperty.call(got, k) && holds(want[k], got[k], loose));
  }
  return Object.is(want, got);
}
const short = (x) => { const s = typeof x === "string" ? x : canon(x); return s.length > 220 ? s.slice(0, 220) + "..(" + s.length + ")" : s; };

// ------------------------------------------------------------------ the simulation
class Sim {
  constructor(tape) {
    this.t = tape; this.clock = 1700000000000; this.start = this.clock;
    this.queue = []; this.seq = 0; this.reqs = []; this.calls = [];
    this.events = []; this.faults = []; this.probes = []; this.sched = [];
    this.concurrent = false; this.viol = null; this.rnd = 1;
  }
  log(s) { this.events.push(s); }
  fail(cls, detail) { if (!this.viol) this.viol = { cls, detail }; }
  at(delay, f) { const e = { time: this.clock + Math.max(0, delay), seq: ++this.seq, f, id: this.seq }; this.queue.push(e); return e; }
  host() {
    return {
      now: () => this.clock,
      random: () => { this.rnd = (this.rnd * 1103515245 + 12345) % 2147483648; return this.rnd / 2147483648; },
      timer: (f, d, every) => {
        const id = ++this.seq;
        const arm = () => { const e = this.at(every || d, () => { if (every) arm(); f(); }); e.id = id; e.timer = true; };
        arm();
        this.log(`timer ${d}`);
        return id;
      },
      untimer: (id) => { this.queue = this.queue.filter((e) => !(e.timer && e.id === id)); },
      request: (url, method, body, type, res, rej) => this.request(url, method, body, type, res, rej),
      body: (id, res, rej, raw) => this.body(id, res, rej, raw),
      abort: (id, reason) => { const r = this.reqs[id]; if (r && !r.done) { r.done = true; r.ok = false; r.error = null; this.log(`request ${id} aborted`); } },
    };
  }
  delay() {
    const k = this.t.draw(8);
    if (k === 7) { this.faults.push("late-answer"); return 1000 + this.t.draw(120000); }
    return k < 2 ? 0 : this.t.draw(200);
  }
  // which call is this request for? arguments are distinct, so the request says it
  request(url, method, body, type, res, rej) {
    const id = this.reqs.length;
    const r = { id, url, done: false, ok: false, error: null, call: null };
    this.reqs.push(r);
    let u;
    try { u = new URL(url); } catch (e) { this.fail("bad-request", `not a URL: ${url}`); rej("Invalid URL"); return id; }
    this.answer(r, u, method, body, type);
    const c = r.call;
    if (!c) {
      this.fail("bad-request", `a request that belongs to no running call: ${method} ${url} ${short(body || "")} (${r.why || "no such resource"})`);
    } else {
      this.log(`request ${id} for call ${c.id} attempt ${c.reqs.length + 1}`);
      c.reqs.push(r);
      if (c.settled) this.fail("request-after-result", `call ${c.id} (${c.what}) had already ended when it sent another request`);
      if (c.reqs.length > 3) this.fail("too-many-attempts", `call ${c.id} (${c.what}) sent a fourth request`);
      if (c.reqs.length > 1 && c.reqs[c.reqs.length - 2].done && c.reqs[c.reqs.length - 2].ok) this.fail("retry-after-success", `call ${c.id} (${c.what}) asked again after a proper answer`);
    }
    const inflight = this.reqs.filter((x) => !x.done).length;
    if (inflight > 1) { this.concurrent = true; this.probes.push("concurrent"); }
    const d = this.delay();
    if (r.kind === "connect-refused") {
      this.at(d, () => { this.faults.push(r.kind); r.error = `fetch failed #${id}`; r.done = true; this.log(`request ${id} refused`); rej(r.error); });
    } else {
      this.at(d, () => { this.log(`request ${id} answered ${r.status}`); r.headers = true; res(r.status, r.type); });
    }
    return id;
  }
  body(id, res, rej, raw) {
    const r = this.reqs[id];
    this.at(this.delay(), () => {
      if (r.kind !== "ok") this.faults.push(r.kind);
      r.done = true;
      this.log(`body of ${id}: ${r.kind}`);
      if (r.kind === "connection-lost-in-body") { r.error = `terminated #${id}`; rej(r.error); } else { r.ok = r.kind === "ok"; res(r.text); }
    });
  }
  // decide what the service and the network do with this request
  answer(r, u, method, body, type) {
    const t = this.t;
    let good = null; // the value the service has for it
    let status = 200, wrap = (x) => x, permanent = null;
    const host = u.hostname;
    let call = null;
    if (host === "storage.googleapis.com") {
      const key = decodeURIComponent(u.pathname);
      call = this.calls.find((c) => c.kind === "block" && !c.closed && c.path === key);
      if (method !== "GET") { call = null; r.why = "method " + method; }
      if (call) { const b = this.store.get(key); if (b) good = clone(b); else permanent = { status: 404, type: "application/xml", text: "<?xml version='1.0'?><Error><Code>NoSuchKey</Code></Error>" }; }
    } else {
      let q = null;
      try {
        if (method !== "POST") throw new Error("method " + method);
        if (!/^application\/(graphql\+)?json\b/i.test(type || "")) throw new Error("content type " + type);
        q = JSON.parse(body);
        if (host === "graphql.minaexplorer.com") {
          let limit = null;
          const data = execQuery(q, {
            blocks: (a) => {
              limit = a.limit === undefined ? 100 : a.limit;
              let bs = this.blocks.filter((b) => !(a.query && a.query.canonical) || b.canonical);
              if (a.sortBy === "RECEIVEDTIME_DESC") bs = [...bs].sort((x, y) => (x.receivedTime < y.receivedTime ? 1 : -1));
              else if (a.sortBy === "BLOCKHEIGHT_DESC") bs = [...bs].sort((x, y) => y.blockHeight - x.blockHeight);
              return bs.slice(0, limit);
            },
          });
          call = this.calls.find((c) => c.kind === "latest" && !c.closed && c.limit === limit);
          if (!call) r.why = "limit " + limit;
          good = { data };
        } else {
          const w = this.nodes.find((n) => n.host === host && new URL(n.endpoint).href === u.href);
          if (w) {
            // calls for one node differ in the accounts they track
            const asked = new Set();
            good = { data: execQuery(q, {
              bestChain: (a) => (a.maxLength === undefined || a.maxLength === null ? w.chain : w.chain.slice(Math.max(0, w.chain.length - a.maxLength))),
              genesisBlock: w.genesis,
              account: (a) => { asked.add(a.publicKey); return w.accounts[a.publicKey] || null; },
            }) };
            const set = [...asked].sort().join();
            call = this.calls.find((c) => c.kind === "chain" && !c.closed && c.host === host && c.set === set);
            if (!call) r.why = "accounts " + set;
          }
        }
      } catch (e) {
        // the service would refuse it; there is exactly one way to see which call it was: the host
        call = this.calls.find((c) => !c.closed && (c.kind === "chain" ? c.host === host : c.kind === "latest" && host === "graphql.minaexplorer.com"));
        r.why = e.message;
        if (call) this.fail("bad-request", `the service refuses the request of call ${call.id} (${call.what}): ${e.message}`);
        permanent = { status: 400, type: "application/json", text: JSON.stringify({ errors: [{ message: e.message }] }) };
      }
    }
    r.call = call;
    r.kind = "ok"; r.type = "application/json"; r.status = status;
    if (good !== null) r.text = JSON.stringify(good);
    if (permanent) { r.kind = permanent.status === 404 ? "not-found" : "refused-by-service"; Object.assign(r, { status: permanent.status, type: permanent.type, text: permanent.text }); }
    if (t.chance(this.rate, 4)) {
      const graphql = !!call && call.kind !== "block";
      const k = t.pick(graphql
        ? ["connect-refused", "connection-lost-in-body", "body-truncated", "html-error-page", "json-error-status", "graphql-error", "graphql-null", "empty-body"]
        : ["connect-refused", "connection-lost-in-body", "body-truncated", "html-error-page", "json-error-status", "empty-body"]);
      r.kind = k;
      const text = r.text || "{}";
      if (k === "body-truncated") { r.text = text.slice(0, Math.max(0, text.length - 1 - t.draw(text.length))); }
      else if (k === "html-error-page") { r.status = t.pick([500, 502, 503, 504, 429]); r.type = "text/html"; r.text = "<html><body><h1>Bad Gateway</h1></body></html>"; }
      else if (k === "json-error-status") { r.status = t.pick([500, 503, 429, 403]); r.text = t.pick(['{"error":{"code":503,"message":"backend unavailable"}}', '{"message":"Too many requests","data":null}', '{"errors":[{"message":"rate limited"}]}', 'null', '[]']); }
      else if (k === "graphql-error") { r.text = t.pick(['{"errors":[{"message":"timeout"}],"data":null}', '{"errors":[{"message":"internal"}]}']); }
      else if (k === "graphql-null") {
        r.text = call.kind === "latest" ? '{"errors":[{"message":"resolver failed","path":["blocks"]}],"data":{"blocks":null}}'
          : JSON.stringify({ data: Object.assign({}, good ? good.data : {}, t.pick([{ bestChain: null }, { bestChain: [] }, { genesisBlock: null }])) });
      } else if (k === "empty-body") { r.text = ""; }
    }
  }
  async settle() { for (let i = 0; i < 2; i++) await new Promise((r) => hostSetImmediate(r)); }
  async drain() {
    let steps = 0;
    await this.settle();
    while (this.calls.some((c) => !c.settled) || this.queue.length) {
      if (this.viol) return;
      if (!this.queue.length) {
        const c = this.calls.find((c) => !c.settled);
        this.fail("never-settles", `call ${c.id} (${c.what}) has no request outstanding and no result after ${c.reqs.length} requests`);
        return;
      }
      if (++steps > 600) {
        if (this.calls.every((c) => c.settled)) return; // background activity of the client
        this.fail("no-progress", "600 steps without all calls ending"); return;
      }
      const first = Math.min(...this.queue.map((e) => e.time));
      const ready = this.queue.filter((e) => e.time === first);
      const e = ready.length > 1 ? ready[this.t.draw(ready.length)] : ready[0];
      this.queue.splice(this.queue.indexOf(e), 1);
      this.clock = Math.max(this.clock, e.time);
      this.sched.push(e.seq);
      try { e.f(); } catch (err) { this.fail("callback-threw", String(err)); }
      await this.settle();
    }
  }
  begin(api) {
    const t = this.t;
    const phaseCalls = this.calls.filter((c) => !c.closed);
    const taken = (f) => phaseCalls.some(f);
    const kind = t.pick(["block", "latest", "chain"]);
    const asStr = t.draw(2) === 1;
    const c = { id: this.calls.length, kind, asStr, reqs: [], settled: false, closed: false };
    let f, args;
    if (kind === "block") {
      const k = t.pick(this.keys);
      const explicit = t.draw(3) > 0;
      const network = explicit ? k.network : "mainnet";
      c.path = `/mina_network_block_data/${network}-${k.height}-${k.hash}.json`;
      if (taken((x) => x.path === c.path)) return false;
      f = asStr ? "fetch_block_json_str" : "fetch_block_json";
      args = explicit ? [k.height, k.hash, network] : [k.height, k.hash];
      c.expect = () => { const b = this.store.get(c.path); return b === undefined ? undefined : clone(b); };
      c.loose = false;
    } else if (kind === "latest") {
      c.limit = t.pick([10, 1, 2, 3, 5, 8, 20]);
      if (taken((x) => x.limit === c.limit)) return false;
      f = asStr ? "query_latest_blocks_json_str" : "query_latest_blocks_json";
      args = c.limit === 10 && t.draw(2) === 0 ? [] : [c.limit];
      c.loose = true;
      c.expect = () => [...this.blocks].sort((x, y) => (x.receivedTime < y.receivedTime ? 1 : -1)).slice(0, c.limit).map((b) => ({ blockHeight: b.blockHeight, stateHash: b.stateHash }));
    } else {
      const n = t.pick(this.nodes);
      c.host = n.host; c.node = n; c.endpoint = n.endpoint;
      f = asStr ? "fetch_best_chain_json_str" : "fetch_best_chain_json";
      const accts = [];
      for (const a of Object.keys(n.accounts).concat(["B62qunknown"])) if (t.draw(2) === 1) accts.push(a);
      c.set = [...accts].sort().join();
      if (taken((x) => x.host === n.host && x.set === c.set)) return false;
      args = accts.length === 0 && t.draw(2) === 0 ? [n.endpoint] : [n.endpoint, accts];
      c.loose = true;
      c.expect = () => {
        const pick = (b, first) => {
          const p = b.protocolState;
          const o = { protocolState: clone({ previousStateHash: p.previousStateHash, consensusState: p.consensusState, blockchainState: p.blockchainState }) };
          if (first) o.protocolState.blockchainState.genesisLedgerHash = n.genesis.protocolState.blockchainState.snarkedLedgerHash;
          return o;
        };
        const o = { bestChain: n.chain.map((b, i) => pick(b, i === 0)) };
        for (const a of accts) o[a] = n.accounts[a] ? clone({ merklePath: n.accounts[a].merklePath, leafHash: n.accounts[a].leafHash }) : null;
        return o;
      };
    }
    c.what = `${f}(${args.map((x) => JSON.stringify(x)).join(", ")})`;
    this.log(`call ${c.id}: ${c.what}`);
    const fn = (kind === "chain" ? api.berkeley : api.v1)[f];
    if (typeof fn !== "function") { this.fail("not-exported", `${f} is not exported`); return false; }
    this.calls.push(c);
    let p;
    try { p = fn(...args); } catch (e) { c.settled = true; this.fail("threw", `${c.what} threw ${e}`); return true; }
    Promise.resolve(p).then(
      (v) => { if (c.settled) return; c.settled = true; c.value = v; c.expected = c.expect(); this.log(`call ${c.id} resolved`); this.judge(c); },
      (e) => { if (c.settled) return; c.settled = true; c.rejected = true; c.reason = e; this.log(`call ${c.id} rejected`); this.judge(c); });
    return true;
  }
  judge(c) {
    const good = c.reqs.find((r) => r.done && r.ok);
    if (c.rejected) {
      if (good) return this.fail("answer-lost", `${c.what} failed with ${short(String(c.reason))} although request ${c.reqs.indexOf(good) + 1} was answered properly`);
      if (c.reqs.length < 3) return this.fail("gave-up-early", `${c.what} failed after ${c.reqs.length} requests: ${short(String(c.reason))}`);
      const last = c.reqs[c.reqs.length - 1];
      if (last.error) {
        let text = "", e = c.reason;
        for (let i = 0; i < 5 && e !== null && e !== undefined; i++) { text += String((e && e.message) || e) + " "; e = e.cause; }
        if (!text.includes(last.error)) return this.fail("wrong-error", `${c.what} failed with ${short(text)}, the last failure was ${last.error}`);
      } else if (c.reason === undefined || c.reason === null) return this.fail("wrong-error", `${c.what} failed with ${c.reason}`);
      this.probes.push("rejected");
      return;
    }
    let v = c.value;
    if (c.asStr) {
      if (typeof v !== "string") return this.fail("wrong-result", `${c.what} resolved with ${typeof v} instead of a string`);
      try { v = JSON.parse(v); } catch (e) { return this.fail("wrong-result", `${c.what} resolved with text that is not JSON: ${short(v)}`); }
    } else if (v === undefined) return this.fail("wrong-result", `${c.what} resolved with undefined`);
    if (!good) return this.fail("invented-answer", `${c.what} resolved with ${short(canon(v))} although no request was answered properly (last: ${c.reqs.length ? c.reqs[c.reqs.length - 1].kind : "none sent"})`);
    if (!holds(c.expected, v, c.loose)) return this.fail("wrong-result", `${c.what} resolved with ${short(canon(v))}, the service holds ${short(canon(c.expected))}`);
    this.probes.push(c.reqs.length > 1 ? "resolved-after-retry" : "resolved-first");
  }
}

async function oneRun(choices) {
  const t = new Tape(choices);
  const sim = new Sim(t);
  const w = new World(t);
  sim.rate = t.draw(4);
  const api = load(sim, t.draw(4) === 3);
  // block store
  sim.store = new Map(); sim.keys = [];
  for (let i = 0; i < 3; i++) {
    const k = { network: t.pick(["mainnet", "devnet"]), height: 1 + t.draw(200000), hash: "3NK" + i + "h" + t.draw(1000) };
    sim.keys.push(k);
    for (const n of ["mainnet", "devnet"]) {
      if (t.draw(8) === 7) continue; // the store does not have it (yet)
      sim.store.set(`/mina_network_block_data/${n}-${k.height}-${k.hash}.json`, w.block(k.height, k.hash));
    }
  }
  // explorer
  sim.blocks = [];
  const nb = t.draw(14);
  for (let i = 0; i < nb; i++) sim.blocks.push({ blockHeight: 100 + t.draw(6), stateHash: "3NL" + i, receivedTime: String(1000000 + i * 7), canonical: t.draw(4) > 0 });
  // nodes
  sim.nodes = [];
  for (let i = 0; i < 2; i++) {
    const n = { host: `node${i}`, endpoint: `http://node${i}:3085/graphql`, chain: [], accounts: {} };
    for (let k = 1 + t.draw(3); k > 0; k--) n.chain.push(w.gblock());
    n.genesis = w.gblock();
    for (let k = t.draw(3); k > 0; k--) n.accounts["B62q" + i + "k" + k] = { merklePath: [{ left: w.word("l"), right: null }, { left: null, right: w.word("r") }], leafHash: w.word("lh"), nonce: "1" };
    sim.nodes.push(n);
  }
  const phases = 1 + t.draw(3);
  for (let ph = 0; ph < phases && !sim.viol; ph++) {
    if (ph > 0) {
      // the world moves on, and the callers have used (and changed) what they got
      sim.log("world moves on");
      for (const c of sim.calls) if (c.value && typeof c.value === "object") { try { for (const k of Object.keys(c.value)) c.value[k] = null; } catch (e) { /* frozen */ } }
      sim.blocks.push({ blockHeight: 200 + ph, stateHash: "3NLnew" + ph, receivedTime: String(9000000 + ph), canonical: true });
      for (const n of sim.nodes) { n.chain.push(w.gblock()); if (t.draw(2)) n.chain.shift(); }
      for (const k of sim.keys) for (const n of ["mainnet", "devnet"]) {
        const key = `/mina_network_block_data/${n}-${k.height}-${k.hash}.json`;
        if (!sim.store.has(key)) sim.store.set(key, w.block(k.height, k.hash));
      }
      sim.clock += t.pick([0, 1000, 3600000]);
    }
    const n = 1 + t.draw(4);
    for (let i = 0; i < n && !sim.viol; i++) sim.begin(api);
    await sim.drain();
    for (const c of sim.calls) c.closed = true;
  }
  return {
    used: t.used, events: sim.events, faults: sim.faults, probes: sim.probes, sched: sim.sched, time_ms: sim.clock - sim.start,
    concurrent: sim.concurrent, class: sim.viol ? sim.viol.cls : null, detail: sim.viol ? sim.viol.detail : null,
  };
}

let unhandled = null;
process.on("unhandledRejection", (e) => { unhandled = String(e); });
process.on("uncaughtException", (e) => { unhandled = String(e); });

(async () => {
  const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
  for await (const line of rl) {
    let out;
    unhandled = null;
    try {
      out = await oneRun(JSON.parse(line).choices);
      await new Promise((r) => hostSetImmediate(r));
      if (unhandled && !out.class) { out.class = "unhandled-rejection"; out.detail = unhandled; }
    } catch (e) {
      out = { broken: String(e && e.stack) };
    }
    process.stdout.write(JSON.stringify(out) + "\n");
  }
})();
