"use strict";
// One worker of the page simulation: cases on standard input, what the pages showed on standard output.
// The page's own scripts and the generated JavaScript half of the WebAssembly module run as they are; the
// document, timers, downloads, streams and the clipboard are the simulator's: whatever a page waits for
// becomes a task, and the case says which task ends when, and how.
const fs = require("fs"), vm = require("vm"), zlib = require("zlib"), path = require("path");
const dom = require("./dom.js");
const V = process.env.VERIF_DIR, P = "/repo/playground";
const src = { html: fs.readFileSync(P + "/index.html", "utf8") };
const wasmBytes = fs.readFileSync(V + "/target/jsweb/math_core_wasm_bg.wasm");
const wasmModule = new WebAssembly.Module(wasmBytes);
const real = { setImmediate, Blob, Uint8Array, Map, Response };
const drain = () => new Promise((r) => real.setImmediate(() => real.setImmediate(r)));

let now, tasks, nextId, log, errors, alerts, clip, native, replay, pageNo, win, doc, links, hashText, stats;
const G = globalThis;
function def(k, value) { Object.defineProperty(G, k, { value, configurable: true, writable: true, enumerable: false }); }
process.on("unhandledRejection", (e) => { errors.push("rejected: " + (e && e.message)); });
dom.setOnError((e) => { errors.push("thrown: " + (e && e.message)); });

// ---- what a page waits for
function task(kind, result, due) {
  const page = pageNo;
  return new Promise((resolve, reject) => {
    tasks.push({ id: nextId++, kind, page, due: due ?? 0, run(fail) {
      if (fail) { reject(new TypeError(kind + " failed")); return; }
      let v;
      try { v = result(); } catch (e) { reject(e); return; }
      resolve(v);
    } });
  });
}
function timer(f, ms, args, every) {
  const t = { id: nextId++, kind: "timer", page: pageNo, due: now + Math.max(1, Number(ms) || 0), run() {
    if (every) { t.due = now + Math.max(1, Number(ms) || 0); tasks.push(t); }
    try { typeof f === "function" && f(...args); } catch (e) { errors.push("thrown: " + e.message); }
  } };
  tasks.push(t);
  return t.id;
}
function untimer(id) { tasks = tasks.filter((t) => !(t.kind === "timer" && t.id === id)); }
function step(k, fail) {
  // Timers in their order; everything else in any order.
  const timers = tasks.filter((t) => t.kind === "timer").sort((a, b) => a.due - b.due || a.id - b.id);
  const can = tasks.filter((t) => t.kind !== "timer").concat(timers.slice(0, 1));
  if (!can.length) return null;
  const t = can[k % can.length];
  tasks = tasks.filter((x) => x !== t);
  if (t.kind === "timer") now = Math.max(now, t.due); else { now += 1 + (k % 7); fail = fail && t.kind !== "timer"; }
  stats[t.kind] = (stats[t.kind] || 0) + 1;
  if (fail) stats["failed " + t.kind] = (stats["failed " + t.kind] || 0) + 1;
  if (t.kind !== "timer" && tasks.some((x) => x.kind === t.kind && x.id < t.id)) stats.overtaken = (stats.overtaken || 0) + 1;
  t.run(fail);
  return t.kind;
}
const later = { setTimeout: (f, ms, ...a) => timer(f, ms, a, false), setInterval: (f, ms, ...a) => timer(f, ms, a, true), clearTimeout: untimer, clearInterval: untimer,
  requestAnimationFrame: (f) => timer(() => f(now), 16, [], false), cancelAnimationFrame: untimer, requestIdleCallback: (f) => timer(() => f({ timeRemaining: () => 5, didTimeout: false }), 5, [], false), cancelIdleCallback: untimer,
  setImmediate: undefined };

// ---- streams: their bytes arrive when a task has ended
const bytesOf = (p) => {
  if (typeof p === "string") return Buffer.from(p, "utf8");
  if (p instanceof SimBlob) return p.b;
  if (p instanceof ArrayBuffer) return Buffer.from(p.slice(0));
  if (ArrayBuffer.isView(p)) return Buffer.from(p.buffer.slice(p.byteOffset, p.byteOffset + p.byteLength));
  return Buffer.from(String(p), "utf8");
};
const u8 = (b) => { const a = new Uint8Array(b.length); a.set(b); return a; };
class Stream {
  constructor(get, kind) { this.get = get; this.kind = kind; this.locked = false; }
  _take() { if (this.locked) throw new TypeError("locked stream"); this.locked = true; return this._p ??= this.get(); }
  pipeThrough(t) { return t._transform(this); }
  async pipeTo(w) { const b = await this._take(); const g = w.getWriter(); await g.write(u8(b)); await g.close(); }
  getReader() { let done = false; const p = this._take(); return { read: async () => { const b = await p; if (done) return { done: true, value: undefined }; done = true; return { done: false, value: u8(b) }; }, cancel: async () => {}, releaseLock() {} }; }
  async *[Symbol.asyncIterator]() { yield u8(await this._take()); }
  tee() { const p = this._take(); return [new Stream(() => p), new Stream(() => p)]; }
}
function gunzip(b) {
  // As in browsers: anything after the end is an error, and so is a missing end.
  const { buffer, engine } = zlib.gunzipSync(b, { info: true });
  if (engine.bytesWritten !== b.length) throw new TypeError("Junk found after end of compressed data.");
  return buffer;
}
const CODEC = { compress: { gzip: (b) => zlib.gzipSync(b), deflate: (b) => zlib.deflateSync(b), "deflate-raw": (b) => zlib.deflateRawSync(b) },
  decompress: { gzip: gunzip, deflate: (b) => zlib.inflateSync(b), "deflate-raw": (b) => zlib.inflateRawSync(b) } };
class Transform {
  constructor(kind, format) {
    if (!Object.hasOwn(CODEC[kind], format)) throw new TypeError("Unsupported compression format: " + format);
    this.kind = kind;
    this.f = (b) => { try { return CODEC[kind][format](b); } catch (e) { throw new TypeError(e.message); } };
    const parts = [];
    let end;
    const all = new Promise((r) => { end = r; });
    this.writable = { getWriter: () => ({ write: async (c) => { parts.push(bytesOf(c)); }, close: async () => { end(); }, releaseLock() {}, ready: Promise.resolve() }) };
    this.readable = new Stream(async () => { await all; return await task(kind, () => this.f(Buffer.concat(parts))); });
  }
  _transform(s) { const p = s._take(); return new Stream(async () => { const b = await p; return await task(this.kind, () => this.f(b)); }); }
}
class SimBlob {
  constructor(parts = [], o = {}) { this.b = Buffer.concat(parts.map(bytesOf)); this.type = o.type ?? ""; }
  get size() { return this.b.length; }
  stream() { return new Stream(async () => this.b); }
  async arrayBuffer() { return u8(this.b).buffer; }
  async bytes() { return u8(this.b); }
  async text() { return this.b.toString("utf8"); }
  slice(a, b) { const n = new SimBlob(); n.b = this.b.subarray(a, b); return n; }
}
class SimResponse {
  constructor(body) { this.body = body instanceof Stream ? body : body === undefined || body === null ? null : new SimBlob([body]).stream(); this.ok = true; this.status = 200; this.type = "basic"; this.headers = new Map([["Content-Type", "application/wasm"]]); this.bodyUsed = false; }
  async _b() { this.bodyUsed = true; return this.body ? await this.body._take() : Buffer.alloc(0); }
  async arrayBuffer() { return u8(await this._b()).buffer; }
  async bytes() { return u8(await this._b()); }
  async blob() { return new SimBlob([await this._b()]); }
  async text() { return (await this._b()).toString("utf8"); }
  async json() { return JSON.parse(await this.text()); }
}
async function fetch(what) {
  const url = String(what);
  return await task("download", () => {
    if (url.endsWith("/pkg/math_core_wasm_bg.wasm")) return Object.assign(new SimResponse(), { wasm: true });
    throw new TypeError("Failed to fetch");
  });
}
const instance = (imports) => ({ module: wasmModule, instance: new WebAssembly.Instance(wasmModule, imports) });
WebAssembly.instantiateStreaming = async (r, imports) => { r = await r; if (!r.wasm) throw new TypeError("not a module"); return instance(imports); };
WebAssembly.instantiate = async (m, imports) => m instanceof WebAssembly.Module ? new WebAssembly.Instance(m, imports) : instance(imports);
WebAssembly.compileStreaming = async (r) => { r = await r; if (!r.wasm) throw new TypeError("not a module"); return wasmModule; };

// ---- newer browsers have these
const ALPHA = { base64: ["+", "/"], base64url: ["-", "_"] };
function toBase64(o = {}) { let s = Buffer.from(this).toString("base64"); if (o.alphabet === "base64url") s = s.replaceAll("+", "-").replaceAll("/", "_"); return o.omitPadding ? s.replace(/=+$/, "") : s; }
function fromBase64(s, o = {}) {
  const a = ALPHA[o.alphabet ?? "base64"];
  let t = s.replace(/[\t\n\f\r ]/g, "");
  const pad = /=*$/.exec(t)[0].length;
  t = t.slice(0, t.length - pad);
  for (const c of t) if (!/[A-Za-z0-9]/.test(c) && !a.includes(c)) throw new SyntaxError("Found a character that cannot be part of a valid base64 string.");
  if (t.length % 4 === 1 || (pad && (t.length + pad) % 4 !== 0)) throw new SyntaxError("The base64 input terminates with a single character.");
  return u8(Buffer.from(t.replaceAll("-", "+").replaceAll("_", "/"), "base64"));
}

// ---- a page
class Bag { constructor() { this.m = new Map(); } getItem(k) { return this.m.get(String(k)) ?? null; } setItem(k, v) { this.m.set(String(k), String(v)); } removeItem(k) { this.m.delete(String(k)); } clear() { this.m.clear(); } key(i) { return [...this.m.keys()][i] ?? null; } get length() { return this.m.size; } }
const real_text = { TextEncoder, TextDecoder, URL, URLSearchParams, atob, btoa, structuredClone, AbortController, Intl };
const scripts = new Map();
function classic(file) {
  if (!scripts.has(file)) scripts.set(file, vm.compileFunction(fs.readFileSync(path.join(P, file), "utf8"), [], { filename: file }));
  return scripts.get(file);
}
const texts = new Map(), compiled = new Map();
function read(file) { if (!texts.has(file)) texts.set(file, fs.readFileSync(file, "utf8")); return texts.get(file); }
async function load(spec, from, cache) {
  const file = spec.includes("/pkg/") ? path.join(V, "target/jsweb", path.basename(spec)) : path.join(from, spec);
  if (cache.has(file)) return cache.get(file);
  const m = new vm.SourceTextModule(read(file), { cachedData: compiled.get(file), identifier: file, initializeImportMeta(meta) { meta.url = "https://math.example/" + (spec.includes("/pkg/") ? "pkg/" : "") + path.basename(file); } });
  cache.set(file, m);
  if (!compiled.has(file)) compiled.set(file, m.createCachedData());
  await m.link((s) => load(s, path.dirname(file), cache));
  return m;
}
async function open(o) {
  const keep = o.restore && doc ? state() : null;
  tasks = []; // what the page before waited for never comes
  pageNo++;
  native = o.native;
  doc = dom.page(src.html);
  win = new dom.globals.EventTarget();
  doc.defaultView = G;
  for (const [k, v] of Object.entries(dom.globals)) def(k, v);
  for (const [k, v] of Object.entries(later)) def(k, v);
  for (const [k, v] of Object.entries(real_text)) def(k, v);
  for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) def(k, (...a) => win[k](...a));
  def("_fire", (e, ph) => win._fire(e, ph));
  def("window", G); def("self", G); def("document", doc);
  const location = { origin: "https://math.example", protocol: "https:", host: "math.example", pathname: o.path, search: o.search, hash: hashText = "" };
  if (o.hash !== null && o.hash !== undefined) location.hash = hashText = o.hash;
  Object.defineProperty(location, "href", { get() { return this.origin + this.pathname + this.search + this.hash; } });
  location.toString = function () { return this.href; };
  location.reload = () => {};
  def("location", location);
  doc.location = location;
  const setUrl = (_s, _t, u) => {
    if (u === undefined || u === null) return;
    const n = new URL(String(u), location.href);
    location.pathname = n.pathname; location.search = n.search; location.hash = n.hash;
  };
  def("history", { replaceState: setUrl, pushState: setUrl, state: null, length: 1 });
  def("navigator", o.clipboard ? { language: "en", userAgent: "sim", clipboard: { writeText: (t) => { const v = String(t); return task("clipboard", () => { clip.push(v); }); }, write: () => task("clipboard", () => {}), readText: () => task("clipboard", () => clip.at(-1) ?? "") } } : { language: "en", userAgent: "sim" });
  def("alert", (t) => { alerts.push(String(t)); });
  def("confirm", () => true); def("prompt", () => null);
  def("Blob", SimBlob); def("Response", SimResponse); def("ReadableStream", Stream); def("fetch", fetch); def("Request", class Request {});
  def("CompressionStream", class CompressionStream extends Transform { constructor(f) { super("compress", f); } });
  def("DecompressionStream", class DecompressionStream extends Transform { constructor(f) { super("decompress", f); } });
  def("localStorage", new Bag()); def("sessionStorage", new Bag());
  const quiet = () => {};
  def("console", { log: quiet, info: quiet, debug: quiet, warn: quiet, error: quiet, trace: quiet, group: quiet, groupEnd: quiet, time: quiet, timeEnd: quiet, table: quiet, assert: quiet });
  def("performance", { now: () => now, mark: quiet, measure: quiet });
  if (native) { Uint8Array.prototype.toBase64 = toBase64; Uint8Array.fromBase64 = fromBase64; } else { delete Uint8Array.prototype.toBase64; delete Uint8Array.fromBase64; }
  if (keep) {
    const q = (s) => doc.querySelector(s);
    q("#inputField").value = keep.input;
    if (keep.config !== null) q("#configField").value = keep.config;
    for (const [n, v] of [["prettyprint", keep.pretty], ["displaystyle", keep.block]]) for (const e of doc.querySelectorAll(`input[name="${n}"]`)) if (e.value === v) e.checked = true;
  }
  for (const s of doc.querySelectorAll("script")) if (s.getAttribute("type") !== "module" && s.hasAttribute("src")) { try { classic(s.getAttribute("src")).call(undefined); } catch (e) { errors.push("script: " + e.message); } }
  doc.readyState = "interactive";
  const cache = new Map();
  for (const s of doc.querySelectorAll("script")) if (s.getAttribute("type") === "module") { const m = await load(s.getAttribute("src"), P, cache); await m.evaluate(); }
  doc.dispatchEvent(new dom.globals.Event("DOMContentLoaded", { bubbles: true }));
  await drain();
  doc.readyState = "complete";
  win.dispatchEvent(new dom.globals.Event("load"));
}
function state() {
  const v = (s) => s[0] === "#" ? doc.getElementById(s.slice(1)) : doc.querySelector(s);
  const code = v("#outputCode").textContent, input = v("#inputField").value;
  const r = {
    field: v("#outputField").innerHTML, code, input, config: v("#configField")?.value ?? null,
    pretty: v('input[name="prettyprint"]:checked')?.value ?? null, block: v('input[name="displaystyle"]:checked')?.value ?? null, font: v("#math-font").value,
    style: v("#math-font-style").textContent, link: v("#generatedLink").innerText, hidden: v("#linkContainer").classList.contains("hidden") || v("#linkContainer").hidden,
    waiting: [...new Set(tasks.map((t) => t.kind))].sort(), hash: location.hash,
  };
  return r;
}
const segmenter = new Intl.Segmenter("en", { granularity: "grapheme" });
const seg = (t) => [...segmenter.segment(t)].map((s) => s.segment);
function shown() {
  const s = state();
  for (const k of ["field", "code", "input", "config", "link", "style"]) if (typeof s[k] === "string") s[k] = s[k].toWellFormed();
  if (s.code.startsWith("Error") && s.input.length < 20000) {
    s.seg = seg(s.input);
    let c;
    try { c = JSON.parse(s.config).macros.cfbad; } catch {}
    if (typeof c === "string") s.segc = seg(c);
  }
  s.alerts = alerts.length; s.clip = clip.map((c) => c.toWellFormed()); s.errors = errors.map((c) => String(c).toWellFormed());
  return s;
}
const text = (t) => "Plain" in t ? t.Plain : t.Units.map((u) => String.fromCharCode(u)).join("");
function fire(e, type) { e.dispatchEvent(new dom.globals[type === "input" ? "InputEvent" : "Event"](type, { bubbles: true })); }
function pick(name, value) { for (const e of doc.querySelectorAll(`input[name="${name}"]`)) if (e.value === value) { e.click(); return; } }
function mutate(l, m) {
  const at = l.indexOf("#");
  let h = at < 0 ? "#" : l.slice(at);
  const [k, v] = Object.entries(m)[0];
  if (k === "Cut") h = h.slice(0, Math.max(1, h.length - 1 - v % h.length));
  else if (k === "Flip") { const a = h.indexOf(":") + 1, e = h.indexOf("&") < 0 ? h.length : h.indexOf("&"); if (a > 0 && e > a) { const i = a + v[0] % (e - a); h = h.slice(0, i) + v[1] + h.slice(i + 1); } }
  else if (k === "Param") h += "&" + v;
  else if (k === "Body") h = "#input:" + v;
  else if (k === "Other") h = v;
  return h;
}
async function perform(op) {
  const [k, v] = typeof op === "string" ? [op] : Object.entries(op)[0];
  const q = (s) => doc.querySelector(s);
  let info = null;
  if (k === "Open") {
    const o = { ...v, hash: null };
    let link = v.link === null ? null : v.link.clip ? clip.at(-1) ?? null : links.length ? links[v.link.of % links.length] : null;
    const base = link;
    if (v.link !== null && v.link.bad !== null) link = (link ?? "https://math.example/").split("#")[0] + mutate(link ?? "#", v.link.bad);
    if (link !== null) o.hash = link.includes("#") ? link.slice(link.indexOf("#")) : "";
    info = { link, base };
    await open(o);
  } else if (k === "Type") { const e = q("#inputField"); e.value = text(v); fire(e, "input"); }
  else if (k === "Config") { const e = q("#configField"); e.value = v.text; fire(e, "input"); }
  else if (k === "Blur") { fire(q(v ? "#configField" : "#inputField"), "change"); }
  else if (k === "Pretty") pick("prettyprint", v ? "true" : "false");
  else if (k === "Block") pick("displaystyle", v ? "block" : "inline");
  else if (k === "Font") { const e = q("#math-font"); const n = e.options[v % e.options.length].value; if (e.value !== n) { e.value = n; fire(e, "input"); fire(e, "change"); } }
  else if (k === "Gen") q("#generateBtn").click();
  else if (k === "Copy") { const b = v === 0 ? [q("#copyBtn")] : doc.querySelectorAll(".copyable button"); if (b.length) { const e = b[v % b.length]; const c = v === 0 ? q("#generatedLink") : e.closest(".copyable")?.querySelector("code"); info = { text: c ? c.innerText.toWellFormed() : null }; e.click(); } }
  else if (k === "Task") info = { ran: step(v[0], v[1]) };
  else if (k === "Settle") {
    let seed = v, n = 0;
    await drain();
    while (tasks.length) {
      if (n++ > 200) { info = { endless: true }; break; }
      seed = (Math.imul(seed, 1103515245) + 12345) >>> 0;
      step(seed >>> 16, false);
      await drain();
    }
  }
  await drain();
  const s = shown();
  if (!s.hidden && s.link.includes("#") && !links.includes(s.link)) links.push(s.link);
  log.push({ s, info });
}

// ---- lines
let buf = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function line() {
  for (;;) {
    const i = buf.indexOf(10);
    if (i >= 0) { const l = buf.subarray(0, i).toString(); buf = buf.subarray(i + 1); return l; }
    let n;
    try { n = fs.readSync(0, chunk, 0, chunk.length); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
    if (n === 0) return null;
    buf = Buffer.concat([buf, chunk.subarray(0, n)]);
  }
}
function write(s) {
  const b = Buffer.from(s);
  for (let i = 0; i < b.length;) { try { i += fs.writeSync(1, b, i); } catch (e) { if (e.code !== "EAGAIN") throw e; } }
}
const exit = process.exit;
(async () => {
  for (let l; (l = line()) !== null;) {
    const c = JSON.parse(l);
    now = 1000; tasks = []; nextId = 1; log = []; errors = []; alerts = []; clip = []; links = []; stats = {}; pageNo = 0; doc = null;
    let out;
    try {
      for (const op of c.ops) await perform(op);
      out = { log, links, stats, ms: now };
    } catch (e) {
      out = { broken: String(e && e.stack), log };
    }
    write(JSON.stringify(out, (_, v) => typeof v === "string" ? v.toWellFormed() : v) + "\n");
  }
  exit(0);
})();
