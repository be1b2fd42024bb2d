"use strict";
// One worker of the JavaScript simulation: cases on standard input, what the caller saw on standard output.
// Every case gets a fresh instance of the module, whose JavaScript half runs as it is, but with the
// seams of this file in place of `require`, `WebAssembly.Module`, `Memory` limits and `FinalizationRegistry`.
const fs = require("fs");
const dir = process.env.VERIF_DIR + "/target/jspkg";
const bytes = fs.readFileSync(dir + "/math_core_bg.wasm");
const glue = new Function("exports", "require", "__dirname", "WebAssembly", "FinalizationRegistry", fs.readFileSync(dir + "/math_core.js", "utf8"));

// ---- the module with a limit for its memory
function leb(b, i) {
  let v = 0, s = 0, c;
  do { c = b[i++]; v += (c & 0x7f) * 2 ** s; s += 7; } while (c & 0x80);
  return [v, i];
}
function enc(v) {
  const o = [];
  do { let c = v & 0x7f; v >>>= 7; if (v) c |= 0x80; o.push(c); } while (v);
  return o;
}
const modules = new Map();
function compiled(extra) {
  if (modules.has(extra)) return modules.get(extra);
  let b = bytes;
  if (extra !== null) {
    for (let i = 8; i < b.length;) {
      const id = b[i];
      const [len, at] = leb(b, i + 1);
      if (id === 5) {
        let [n, j] = leb(b, at);
        const flags = b[j];
        const [min] = leb(b, j + 1);
        if (n !== 1 || flags > 1) throw new Error("memory section");
        const body = [1, 1, ...enc(min), ...enc(min + extra)];
        b = Buffer.concat([b.subarray(0, i), Buffer.from([5, ...enc(body.length), ...body]), b.subarray(at + len)]);
        break;
      }
      i = at + len;
    }
  }
  const m = new WebAssembly.Module(b);
  modules.set(extra, m);
  return m;
}

// ---- objects that nobody refers to any more are collected when the case says so
let garbage = [];
class Registry {
  constructor(f) { this.f = f; this.live = new Map(); }
  register(o, held, token) { this.live.set(token, held); o[REG] = this; }
  unregister(token) { this.live.delete(token); }
}
const REG = Symbol("registry");
function dropped(o) { if (o && o[REG]) garbage.push(o); }
function collect() {
  const g = garbage;
  garbage = [];
  for (const o of g) {
    const r = o[REG];
    if (r.live.has(o)) { const held = r.live.get(o); r.live.delete(o); r.f(held); }
  }
}

let m, memory, slots, log, stats;
function instantiate(extra) {
  m = {};
  const module = compiled(extra);
  glue(m, (what) => { if (what !== "fs") throw new Error(what); return { readFileSync: () => bytes }; }, "", {
    Module: function () { return module; },
    Instance: function (mod, imports) { const i = new WebAssembly.Instance(mod, imports); memory = i.exports.memory; return i; },
  }, Registry);
}

class Injected extends Error {}
function events(evs) {
  for (const e of evs) {
    if (e === "Raise") { stats[0]++; throw new Injected("injected"); }
    else if (e === "Collect") collect();
    else perform(e.Call);
  }
}
function text(t) {
  const [k, v] = Object.entries(t)[0];
  if (k === "Plain") return v;
  if (k === "Units") return v.map((u) => String.fromCharCode(u)).join("");
  return [undefined, null][v];
}
// An object whose fields are read through getters, in which things happen.
function field(o, name, value, evs) {
  if (evs.length === 0) o[name] = value;
  else Object.defineProperty(o, name, { enumerable: true, get() { events(evs); return value; } });
}
function item(it) {
  if (it.shape === 1) return undefined;
  if (it.shape === 2) return null;
  const o = it.shape === 4 ? Object.create({}) : {};
  if (it.shape !== 3) field(o, "latex", text(it.text), it.ev);
  field(o, "displayStyle", it.block, it.ev2);
  return it.shape === 5 ? new Proxy(o, { get(t, k) { if (k === "latex") stats[1]++; return t[k]; } }) : it.shape === 6 ? Object.freeze(o) : o;
}
function container(l) {
  if (l.kind === 2) return undefined;
  if (l.kind === 3) return null;
  const a = l.items.map(item);
  return l.kind === 1 ? Object.assign(Object.create(Array.prototype), { length: a.length }, a) : a;
}
class Macros extends Map {
  constructor(e, stop, odd) { super(e); this.stop = stop; this.odd = odd; }
  entries() {
    const it = super.entries();
    let n = 0;
    const stop = this.stop, odd = this.odd;
    return { next() { if (n++ === stop) { stats[0]++; if (odd) return { done: false, value: 7 }; throw new Injected("injected"); } return it.next(); }, [Symbol.iterator]() { return this; } };
  }
}
function options(c) {
  if (c.bad === 5) return undefined;
  const o = {};
  for (const [k, v] of Object.entries(c.opts)) {
    let value = v;
    if (k === "macros") value = c.bad === 3 || c.bad === 8 ? new Macros(v, c.at, c.bad === 8) : new Map(v);
    field(o, k, value, c.ev[k] || []);
  }
  return o;
}
function invoke(op) {
  const s = op.slot, c = op.call;
  if (c === "Free") return () => { const o = slots[s]; if (o) o.free(); return null; };
  if (c === "Drop") return () => { dropped(slots[s]); slots[s] = undefined; return null; };
  if (c === "Collect") return () => { collect(); return null; };
  const [k, v] = c === "Reset" ? ["Reset"] : Object.entries(c)[0];
  if (k === "Make") {
    const o = options(v);
    return () => { const n = new m.LatexToMathML(o); dropped(slots[s]); slots[s] = n; return null; };
  }
  const o = slots[s];
  if (o === undefined) return null;
  if (k === "Reset") return () => { o.reset_global_state(); return null; };
  if (k === "Batch") { const a = container(v); return () => o.convert_all(a); }
  const t = text(v[0]);
  return k === "Global" ? () => o.convert_with_global_state(t, v[1]) : () => o.convert_with_local_state(t, v[1]);
}
function perform(op) {
  const f = invoke(op);
  if (f === null) return;
  const k = log.length;
  log.push(["call", op.id]);
  let r;
  try {
    r = { ok: f() };
  } catch (e) {
    try {
      if (e instanceof m.LatexError) {
        r = { latex: [e.message, e.label, e.start, e.end, e.index === undefined ? null : e.index, e.context === undefined ? null : e.context, e.report === undefined ? null : e.report] };
        if (op.id % 3 === 0) e.free(); else dropped(e);
      } else if (e instanceof m.ConfigParseError) {
        r = { config: e.message };
        if (op.id % 3 === 0) e.free(); else dropped(e);
      } else r = { exc: e && e.constructor ? e.constructor.name : typeof e, arg: String(e && e.message) };
    } catch (e2) {
      r = { exc: e2.constructor.name, arg: "while reading the error: " + e2.message };
    }
  }
  log.push(["return", k, r]);
}

// ---- lines
let buf = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function line() {
  for (;;) {
    const i = buf.indexOf(10);
    if (i >= 0) { const l = buf.subarray(0, i).toString(); buf = buf.subarray(i + 1); return l; }
    let n;
    try { n = fs.readSync(0, chunk, 0, chunk.length); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
    if (n === 0) return null;
    buf = Buffer.concat([buf, chunk.subarray(0, n)]);
  }
}
function write(s) {
  const b = Buffer.from(s);
  for (let i = 0; i < b.length;) { try { i += fs.writeSync(1, b, i); } catch (e) { if (e.code !== "EAGAIN") throw e; } }
}
for (let l; (l = line()) !== null;) {
  const c = JSON.parse(l);
  garbage = []; slots = []; log = []; stats = [0, 0, 0];
  let out;
  try {
    instantiate(c.mem);
    const before = memory.buffer.byteLength;
    for (const op of c.ops) perform(op);
    stats[2] = (memory.buffer.byteLength - before) / 65536;
    out = { log, stats };
  } catch (e) {
    out = { broken: String(e && e.stack) };
  }
  write(JSON.stringify(out) + "\n");
}
