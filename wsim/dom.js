"use strict";
// As much of a browser's document as a page with a form needs.
const VOID = new Set(["meta", "link", "input", "br", "hr", "img", "wbr"]);
const RAW = new Set(["style", "script", "title", "textarea"]);
const NAMED = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0", hellip: "\u2026" };
function decode(s) {
  return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-zA-Z]+);/g, (m, e) => {
    if (e[0] === "#") return String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
    return Object.hasOwn(NAMED, e) ? NAMED[e] : m;
  });
}
const escapeText = (s) => s.replaceAll("&", "&amp;").replaceAll("\u00a0", "&nbsp;").replaceAll("<", "&lt;").replaceAll(">", "&gt;");
const escapeAttr = (s) => s.replaceAll("&", "&amp;").replaceAll("\u00a0", "&nbsp;").replaceAll('"', "&quot;");

class Event {
  constructor(type, init = {}) {
    this.type = type; this.bubbles = !!init.bubbles; this.cancelable = !!init.cancelable; this.composed = !!init.composed;
    this.detail = init.detail; this.data = init.data; this.key = init.key; this.inputType = init.inputType;
    this.target = null; this.currentTarget = null; this.defaultPrevented = false; this.isTrusted = false; this.eventPhase = 0;
    this.stop = 0;
  }
  preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
  stopPropagation() { this.stop = Math.max(this.stop, 1); }
  stopImmediatePropagation() { this.stop = 2; }
  composedPath() { const p = []; for (let n = this.target; n; n = n.parentNode) p.push(n); return p; }
}
class CustomEvent extends Event {}
class InputEvent extends Event {}
class MouseEvent extends Event {}
class KeyboardEvent extends Event {}

let onerror = () => {};
class EventTarget {
  constructor() { this._l = []; }
  addEventListener(type, f, o) {
    if (f === null || f === undefined) return;
    const capture = o === true || !!(o && o.capture);
    if (this._l.some((l) => l.type === type && l.f === f && l.capture === capture)) return;
    const l = { type, f, capture, once: !!(o && o.once) };
    this._l.push(l);
    if (o && o.signal) { if (o.signal.aborted) this._l.pop(); else o.signal.addEventListener("abort", () => { this._l = this._l.filter((x) => x !== l); }); }
  }
  removeEventListener(type, f, o) {
    const capture = o === true || !!(o && o.capture);
    this._l = this._l.filter((l) => !(l.type === type && l.f === f && l.capture === capture));
  }
  _fire(e, phase) {
    e.currentTarget = this; e.eventPhase = phase;
    const run = (f) => { try { typeof f === "function" ? f.call(this, e) : f.handleEvent(e); } catch (x) { onerror(x); } };
    for (const l of [...this._l]) {
      if (e.stop === 2) break;
      if (l.type !== e.type || (phase === 1 && !l.capture) || (phase === 3 && l.capture) || !this._l.includes(l)) continue;
      if (l.once) this._l = this._l.filter((x) => x !== l);
      run(l.f);
    }
    const on = this["on" + e.type];
    if (phase !== 1 && e.stop < 2 && typeof on === "function") run(on);
  }
  dispatchEvent(e) {
    e.target = this; e.stop = 0;
    const path = [];
    for (let n = this.parentNode; n; n = n.parentNode) path.push(n);
    if (this instanceof Node && path.length && path[path.length - 1].defaultView) path.push(path[path.length - 1].defaultView);
    for (const n of [...path].reverse()) { if (e.stop) break; n._fire(e, 1); }
    if (!e.stop) this._fire(e, 2);
    if (e.bubbles) for (const n of path) { if (e.stop) break; n._fire(e, 3); }
    e.currentTarget = null; e.eventPhase = 0;
    return !e.defaultPrevented;
  }
}
class NodeList extends Array { item(i) { return this[i] ?? null; } static get [Symbol.species]() { return Array; } }
class Node extends EventTarget {
  constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this.childNodes = new NodeList(); }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n instanceof Document; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get nextSibling() { const c = this.parentNode?.childNodes; return c?.[c.indexOf(this) + 1] ?? null; }
  get previousSibling() { const c = this.parentNode?.childNodes; return c?.[c.indexOf(this) - 1] ?? null; }
  get nextElementSibling() { let n = this.nextSibling; while (n && !(n instanceof Element)) n = n.nextSibling; return n; }
  get previousElementSibling() { let n = this.previousSibling; while (n && !(n instanceof Element)) n = n.previousSibling; return n; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  _changed() { for (let n = this; n; n = n.parentNode) n._raw = undefined; }
  insertBefore(n, ref) {
    if (n instanceof DocumentFragment) { for (const c of [...n.childNodes]) this.insertBefore(c, ref); return n; }
    n.remove();
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    this._changed();
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  removeChild(n) { n.remove(); return n; }
  replaceChild(n, o) { this.insertBefore(n, o); o.remove(); return o; }
  remove() {
    const p = this.parentNode;
    if (!p) return;
    p.childNodes.splice(p.childNodes.indexOf(this), 1);
    this.parentNode = null;
    p._changed();
  }
  replaceWith(...ns) { const p = this.parentNode, r = this.nextSibling; this.remove(); for (const n of this._nodes(ns)) p.insertBefore(n, r); }
  _nodes(ns) { return ns.map((n) => n instanceof Node ? n : new Text(this.ownerDocument, String(n))); }
  append(...ns) { for (const n of this._nodes(ns)) this.appendChild(n); }
  prepend(...ns) { const f = this.firstChild; for (const n of this._nodes(ns)) this.insertBefore(n, f); }
  before(...ns) { for (const n of this._nodes(ns)) this.parentNode.insertBefore(n, this); }
  after(...ns) { const r = this.nextSibling; for (const n of this._nodes(ns)) this.parentNode.insertBefore(n, r); }
  replaceChildren(...ns) { for (const c of [...this.childNodes]) c.remove(); this.append(...ns); this._changed(); }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(v) { v = v === null || v === undefined ? "" : String(v); this.replaceChildren(...(v === "" ? [] : [v])); }
}
class Text extends Node {
  constructor(doc, data) { super(doc); this.data = data; this.nodeType = 3; this.nodeName = "#text"; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); this._changed(); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.textContent = v; }
  cloneNode() { return new Text(this.ownerDocument, this.data); }
}
class DocumentFragment extends Node { constructor(doc) { super(doc); this.nodeType = 11; } }

// ---- selectors
const SEL = /^(?:([a-zA-Z][\w-]*)|(\*)|#([\w-]+)|\.([\w-]+)|\[\s*([\w-]+)\s*(?:([~^$*|]?=)\s*(?:"([^"]*)"|'([^']*)'|([\w-]+)))?\s*\]|:(checked|disabled|enabled|first-child|last-child)|:(not|is|where)\(([^()]*)\))/;
const cache = new Map();
function compile(s) {
  if (cache.has(s)) return cache.get(s);
  const alts = [];
  let parts = [], cur = [], comb = " ", i = 0;
  const end = () => { if (!cur.length) throw new SyntaxError(`'${s}' is not a valid selector`); parts.push([comb, cur]); cur = []; };
  const src = s.trim();
  while (i < src.length) {
    const m = SEL.exec(src.slice(i));
    if (m) { cur.push(m); i += m[0].length; continue; }
    const c = /^\s*([,>+~])\s*|^\s+/.exec(src.slice(i));
    if (!c) throw new SyntaxError(`'${s}' is not a valid selector`);
    end();
    i += c[0].length;
    if (c[1] === ",") { alts.push(parts); parts = []; comb = " "; } else comb = c[1] || " ";
  }
  end();
  alts.push(parts);
  cache.set(s, alts);
  return alts;
}
function simple(el, m) {
  const [, tag, any, id, cls, attr, op, v1, v2, v3, pseudo, fn, inner] = m;
  if (tag) return el.localName === tag.toLowerCase();
  if (any) return true;
  if (id) return el.id === id;
  if (cls) return el.classList.contains(cls);
  if (attr) {
    const v = el.getAttribute(attr), w = v1 ?? v2 ?? v3;
    if (v === null || !op) return v !== null;
    return op === "=" ? v === w : op === "^=" ? v.startsWith(w) : op === "$=" ? v.endsWith(w) : op === "*=" ? v.includes(w) : op === "~=" ? v.split(/\s+/).includes(w) : v === w || v.startsWith(w + "-");
  }
  if (pseudo === "checked") return el.localName === "option" ? el.selected : !!el.checked && el.localName === "input";
  if (pseudo === "disabled") return !!el.disabled;
  if (pseudo === "enabled") return el instanceof HTMLElement && "value" in el && !el.disabled;
  if (pseudo === "first-child") return !el.previousElementSibling;
  if (pseudo === "last-child") return !el.nextElementSibling;
  return fn === "not" ? !el.matches(inner) : el.matches(inner);
}
function matches(el, parts, k = parts.length - 1) {
  const [comb, compound] = parts[k];
  if (!compound.every((m) => simple(el, m))) return false;
  if (k === 0) return true;
  if (comb === ">") return !!el.parentElement && matches(el.parentElement, parts, k - 1);
  if (comb === "+") return !!el.previousElementSibling && matches(el.previousElementSibling, parts, k - 1);
  if (comb === "~") { for (let p = el.previousElementSibling; p; p = p.previousElementSibling) if (matches(p, parts, k - 1)) return true; return false; }
  for (let p = el.parentElement; p; p = p.parentElement) if (matches(p, parts, k - 1)) return true;
  return false;
}
function first(n, f) { for (const c of n.childNodes) if (c.nodeType === 1) { if (f(c)) return c; const d = first(c, f); if (d) return d; } return null; }
function all(n, f, out) { for (const c of n.childNodes) if (c.nodeType === 1) { if (f(c)) out.push(c); all(c, f, out); } return out; }
const Parent = (B) => class extends B {
  querySelectorAll(s) { const a = compile(s); return all(this, (e) => a.some((p) => matches(e, p)), new NodeList()); }
  querySelector(s) { const a = compile(s); return first(this, (e) => a.some((p) => matches(e, p))); }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementsByClassName(c) { return this.querySelectorAll("." + c); }
  get children() { const n = new NodeList(); for (const c of this.childNodes) if (c instanceof Element) n.push(c); return n; }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { return this.children.at(-1) ?? null; }
};
class TokenList {
  constructor(el) { this.el = el; }
  get _a() { return (this.el.getAttribute("class") || "").split(/\s+/).filter(Boolean); }
  _set(a) { this.el.setAttribute("class", a.join(" ")); }
  contains(c) { return this._a.includes(c); }
  add(...c) { this._set([...new Set([...this._a, ...c])]); }
  remove(...c) { this._set(this._a.filter((x) => !c.includes(x))); }
  toggle(c, force) { const on = force ?? !this.contains(c); on ? this.add(c) : this.remove(c); return on; }
  replace(a, b) { if (!this.contains(a)) return false; this._set(this._a.map((x) => x === a ? b : x)); return true; }
  get length() { return this._a.length; }
  get value() { return this._a.join(" "); }
  [Symbol.iterator]() { return this._a[Symbol.iterator](); }
}
class Element extends Parent(Node) {
  constructor(doc, name) { super(doc); this.nodeType = 1; this.localName = name; this.tagName = this.nodeName = name.toUpperCase(); this._a = new Map(); this.style = { setProperty(k, v) { this[k] = v; }, removeProperty(k) { delete this[k]; }, getPropertyValue(k) { return this[k] ?? ""; } }; }
  getAttribute(k) { return this._a.get(k.toLowerCase()) ?? null; }
  setAttribute(k, v) { this._a.set(k.toLowerCase(), String(v)); if (this.parentNode) this.parentNode._changed(); }
  hasAttribute(k) { return this._a.has(k.toLowerCase()); }
  removeAttribute(k) { this._a.delete(k.toLowerCase()); }
  toggleAttribute(k, force) { const on = force ?? !this.hasAttribute(k); on ? this.setAttribute(k, this.getAttribute(k) ?? "") : this.removeAttribute(k); return on; }
  get id() { return this.getAttribute("id") ?? ""; }
  set id(v) { this.setAttribute("id", v); }
  get className() { return this.getAttribute("class") ?? ""; }
  set className(v) { this.setAttribute("class", v); }
  get classList() { return this._c ??= new TokenList(this); }
  get dataset() { const el = this, n = (k) => "data-" + k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase()); return new Proxy({}, { get: (_, k) => el.getAttribute(n(k)) ?? undefined, set: (_, k, v) => { el.setAttribute(n(k), v); return true; }, has: (_, k) => el.hasAttribute(n(k)), deleteProperty: (_, k) => { el.removeAttribute(n(k)); return true; } }); }
  matches(s) { return compile(s).some((p) => matches(this, p)); }
  closest(s) { for (let e = this; e; e = e.parentElement) if (e.matches(s)) return e; return null; }
  get innerHTML() { return this._raw ?? this.childNodes.map(serialize).join(""); }
  set innerHTML(v) {
    v = v === null ? "" : String(v);
    for (const c of [...this.childNodes]) { c.parentNode = null; }
    this.childNodes.length = 0;
    parse(v, this, this.ownerDocument);
    this._changed();
    this._raw = v;
  }
  get outerHTML() { return serialize(this); }
  setHTMLUnsafe(v) { this.innerHTML = v; }
  insertAdjacentHTML(where, v) { const t = new Element(this.ownerDocument, "div"); parse(v, t, this.ownerDocument); const ns = [...t.childNodes]; if (where === "beforeend") this.append(...ns); else if (where === "afterbegin") this.prepend(...ns); else if (where === "beforebegin") this.before(...ns); else this.after(...ns); }
  insertAdjacentElement(where, e) { if (where === "beforeend") this.append(e); else if (where === "afterbegin") this.prepend(e); else if (where === "beforebegin") this.before(e); else this.after(e); return e; }
  insertAdjacentText(where, t) { this.insertAdjacentElement(where, new Text(this.ownerDocument, t)); }
  cloneNode(deep) { const e = create(this.ownerDocument, this.localName); e._a = new Map(this._a); if (deep) for (const c of this.childNodes) { const d = c.cloneNode(true); d.parentNode = e; e.childNodes.push(d); } e._init?.(); return e; }
}
function serialize(n) {
  if (n instanceof Text) return RAW.has(n.parentNode?.localName) && n.parentNode.localName !== "textarea" && n.parentNode.localName !== "title" ? n.data : escapeText(n.data);
  const a = [...n._a].map(([k, v]) => ` ${k}="${escapeAttr(v)}"`).join("");
  return VOID.has(n.localName) ? `<${n.localName}${a}>` : `<${n.localName}${a}>${n.innerHTML}</${n.localName}>`;
}
class HTMLElement extends Element {
  get innerText() { return this.childNodes.map((c) => c instanceof Text ? c.data : c.localName === "br" ? "\n" : c.innerText).join(""); }
  set innerText(v) {
    const ls = String(v).split(/\r\n|\r|\n/), ns = [];
    ls.forEach((l, i) => { if (i) ns.push(new HTMLElement(this.ownerDocument, "br")); if (l) ns.push(l); });
    this.replaceChildren(...ns);
  }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get title() { return this.getAttribute("title") ?? ""; }
  set title(v) { this.setAttribute("title", v); }
  get disabled() { return this.hasAttribute("disabled"); }
  set disabled(v) { this.toggleAttribute("disabled", !!v); }
  focus() { this.ownerDocument.activeElement = this; }
  blur() {}
  select() {}
  setSelectionRange() {}
  scrollIntoView() {}
  click() {
    if (this.disabled) return;
    this.dispatchEvent(new MouseEvent("click", { bubbles: true, cancelable: true }));
  }
  get form() { return this.closest("form"); }
  get name() { return this.getAttribute("name") ?? ""; }
  set name(v) { this.setAttribute("name", v); }
}
class HTMLInputElement extends HTMLElement {
  _init() { this._on = this.hasAttribute("checked"); }
  get type() { return this.getAttribute("type") ?? "text"; }
  set type(v) { this.setAttribute("type", v); }
  get value() { return this.getAttribute("value") ?? (this.type === "radio" || this.type === "checkbox" ? "on" : ""); }
  set value(v) { this.setAttribute("value", v); }
  get defaultChecked() { return this.hasAttribute("checked"); }
  get checked() { return !!this._on; }
  set checked(v) {
    this._on = !!v;
    if (v && this.type === "radio") for (const o of (this.form ?? this.ownerDocument).querySelectorAll("input")) if (o !== this && o.type === "radio" && o.name === this.name) o._on = false;
  }
  click() {
    if (this.disabled) return;
    if (this.type === "radio") {
      const was = this.checked;
      this.checked = true;
      super.click();
      if (!was) { this.dispatchEvent(new InputEvent("input", { bubbles: true })); this.dispatchEvent(new Event("change", { bubbles: true })); }
    } else super.click();
  }
}
class HTMLTextAreaElement extends HTMLElement {
  get type() { return "textarea"; }
  get defaultValue() { return this.textContent; }
  get value() { return this._v ?? this.textContent.replace(/\r\n?/g, "\n"); }
  set value(v) { this._v = (v === null ? "" : String(v)).replace(/\r\n?/g, "\n"); }
  get textLength() { return this.value.length; }
  get placeholder() { return this.getAttribute("placeholder") ?? ""; }
}
class HTMLOptionElement extends HTMLElement {
  get value() { return this.getAttribute("value") ?? this.textContent; }
  get text() { return this.textContent; }
  get selected() { const s = this.closest("select"); return !!s && s.selectedIndex === s.options.indexOf(this); }
  set selected(v) { const s = this.closest("select"); if (s) s.selectedIndex = v ? s.options.indexOf(this) : 0; }
}
class HTMLSelectElement extends HTMLElement {
  get type() { return "select-one"; }
  get options() { return this.querySelectorAll("option"); }
  get length() { return this.options.length; }
  get selectedIndex() { if (this._i !== undefined) return this._i; const k = this.options.findIndex((o) => o.hasAttribute("selected")); return k < 0 ? 0 : k; }
  set selectedIndex(i) { this._i = i; }
  get selectedOptions() { return this.options.filter((_, i) => i === this.selectedIndex); }
  get value() { return this.options[this.selectedIndex]?.value ?? ""; }
  set value(v) { this._i = this.options.findIndex((o) => o.value === String(v)); }
}
class HTMLButtonElement extends HTMLElement { get type() { return this.getAttribute("type") ?? "submit"; } set type(v) { this.setAttribute("type", v); } }
class RadioNodeList extends NodeList {
  get value() { return this.find((e) => e.type === "radio" && e.checked)?.value ?? ""; }
  set value(v) { const e = this.find((e) => e.type === "radio" && e.value === String(v)); if (e) e.checked = true; }
}
class HTMLFormElement extends HTMLElement {
  get elements() {
    const all = this.querySelectorAll("input, select, textarea, button");
    const named = (k) => {
      const f = all.filter((e) => k !== "" && (e.id === k || e.name === k));
      if (f.length < 2) return f[0] ?? null;
      const l = new RadioNodeList();
      l.push(...f);
      return l;
    };
    all.namedItem = named;
    return new Proxy(all, { get(t, k) { if (k in t || typeof k === "symbol") return t[k]; return named(k) ?? undefined; } });
  }
  get length() { return this.elements.length; }
  reset() { for (const e of this.elements) { if (e instanceof HTMLInputElement) e._on = e.defaultChecked; else if (e instanceof HTMLSelectElement) e._i = undefined; else if (e instanceof HTMLTextAreaElement) e._v = undefined; } this.dispatchEvent(new Event("reset", { bubbles: true })); }
}
class FormData {
  constructor(form) {
    this.a = [];
    for (const e of form ? form.elements : []) if (e.name && !e.disabled && !(e instanceof HTMLButtonElement) && !(e.type === "radio" && !e.checked)) this.a.push([e.name, e.value]);
  }
  get(k) { return this.a.find((x) => x[0] === k)?.[1] ?? null; }
  getAll(k) { return this.a.filter((x) => x[0] === k).map((x) => x[1]); }
  has(k) { return this.a.some((x) => x[0] === k); }
  entries() { return this.a[Symbol.iterator](); }
  keys() { return this.a.map((x) => x[0])[Symbol.iterator](); }
  forEach(f) { for (const [k, v] of this.a) f(v, k, this); }
  [Symbol.iterator]() { return this.entries(); }
}
const CLASSES = { input: HTMLInputElement, textarea: HTMLTextAreaElement, select: HTMLSelectElement, option: HTMLOptionElement, button: HTMLButtonElement, form: HTMLFormElement };
function create(doc, name) { return new (CLASSES[name] ?? HTMLElement)(doc, name); }
class Document extends Parent(Node) {
  constructor() { super(null); this.nodeType = 9; this.nodeName = "#document"; this.readyState = "loading"; this.defaultView = null; this.activeElement = null; this.title = ""; this.visibilityState = "visible"; this.hidden = false; }
  getElementById(id) { return first(this, (e) => e._a.get("id") === id); }
  createElement(n) { const e = create(this, n.toLowerCase()); e._init?.(); return e; }
  createElementNS(ns, n) { return this.createElement(n); }
  createTextNode(t) { return new Text(this, String(t)); }
  createDocumentFragment() { return new (Parent(DocumentFragment))(this); }
  get documentElement() { return this.querySelector("html"); }
  get body() { return this.querySelector("body"); }
  get head() { return this.querySelector("head"); }
  get forms() { return this.querySelectorAll("form"); }
  getElementsByName(n) { return this.querySelectorAll(`[name="${n}"]`); }
}
function parse(s, root, doc) {
  const stack = [root];
  const top = () => stack[stack.length - 1];
  const put = (n) => { n.parentNode = top(); top().childNodes.push(n); };
  const text = (t) => { if (t !== "") put(new Text(doc, t)); };
  const TAG = /<!--[\s\S]*?-->|<!doctype[^>]*>|<\/([a-zA-Z][^\s>/]*)[^>]*>|<([a-zA-Z][^\s>/]*)((?:\s+[^\s=>/"']+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']+))?|\s+|\/)*)>/gi;
  let at = 0, m;
  while ((m = TAG.exec(s))) {
    text(decode(s.slice(at, m.index)));
    at = TAG.lastIndex;
    if (m[1]) {
      const n = m[1].toLowerCase();
      for (let i = stack.length - 1; i > 0; i--) if (stack[i].localName === n) { stack.length = i; break; }
    } else if (m[2]) {
      const e = create(doc, m[2].toLowerCase());
      for (const a of m[3].matchAll(/([^\s=>/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']+)))?/g)) if (!e._a.has(a[1].toLowerCase())) e._a.set(a[1].toLowerCase(), decode(a[2] ?? a[3] ?? a[4] ?? ""));
      put(e);
      e._init?.();
      const n = e.localName;
      if (RAW.has(n)) {
        const end = new RegExp(`</${n}\\s*>`, "gi");
        end.lastIndex = at;
        const f = end.exec(s);
        const stop = f ? f.index : s.length;
        let t = s.slice(at, stop);
        if (n === "textarea") t = t.replace(/^\r?\n/, "");
        if (n === "textarea" || n === "title") t = decode(t);
        if (t) { const x = new Text(doc, t); x.parentNode = e; e.childNodes.push(x); }
        at = TAG.lastIndex = f ? end.lastIndex : s.length;
      } else if (!VOID.has(n) && !m[3].endsWith("/")) stack.push(e);
    }
  }
  text(decode(s.slice(at)));
}
function page(html) {
  const doc = new Document();
  parse(html, doc, doc);
  return doc;
}
module.exports = { page, setOnError(f) { onerror = f; }, decode,
  globals: { Event, CustomEvent, InputEvent, MouseEvent, KeyboardEvent, EventTarget, Node, NodeList, HTMLCollection: NodeList, Text, Element, HTMLElement, HTMLInputElement, HTMLTextAreaElement, HTMLSelectElement, HTMLOptionElement, HTMLButtonElement, HTMLFormElement, RadioNodeList, Document, DocumentFragment, FormData } };
