"use strict";
/*
 * Runs the viewer's page (index.html with all scripts it lists) in a minimal browser and feeds it messages.
 * stdin: {dir, html, svg: {id: {tag, attrs, text, parent}}, messages: [string], tasks: [{seqs: [[k, ...]], dump: bool}]}
 * stdout: {dumps: [...], mismatches: [...], count: n, errors: [...]}
 */
const vm = require("vm");
const fs = require("fs");
const path = require("path");

const input = JSON.parse(fs.readFileSync(0, "utf8"));

function validColor(v) {
  return /^(none|#[0-9a-fA-F]{3}|#[0-9a-fA-F]{6}|rgb\([^)]*\)|rgba\([^)]*\)|[a-zA-Z]+)$/.test(v) && !["undefined", "null", "NaN", "true", "false"].includes(v);
}

function accept(name, v) {
  if (/fill|stroke|color/i.test(name) && !/width|opacity|rule|line|miter|dash/i.test(name)) return validColor(v);
  return !["undefined", "null", "NaN"].includes(v);
}

function cssName(n) {
  return n.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
}

function makeStyle(text) {
  const values = {};
  function put(n, v) {
    v = v === null ? "" : String(v).trim();
    n = cssName(n);
    if (v === "") delete values[n];
    else if (accept(n, v)) values[n] = v;
  }
  function parse(t) {
    for (const k of Object.keys(values)) delete values[k];
    for (const part of String(t || "").split(";")) {
      const i = part.indexOf(":");
      if (i > 0) put(part.slice(0, i).trim(), part.slice(i + 1));
    }
  }
  parse(text);
  const api = {
    setProperty: put,
    getPropertyValue: (n) => values[cssName(n)] || "",
    removeProperty: (n) => { delete values[cssName(n)]; },
  };
  return new Proxy(api, {
    get(t, n) {
      if (n === "__values") return values;
      if (n === "__parse") return parse;
      if (n === "cssText") return Object.entries(values).map(([a, b]) => a + ":" + b).join(";");
      if (n in api) return api[n];
      return typeof n === "string" ? values[cssName(n)] || "" : undefined;
    },
    set(t, n, v) {
      if (n === "cssText") parse(v); else put(n, v);
      return true;
    },
  });
}

class Transform {
  constructor() { this.type = 1; this.angle = 0; this.cx = 0; this.cy = 0; }
  setRotate(a, x, y) { this.type = 4; this.angle = Number(a); this.cx = Number(x); this.cy = Number(y); }
  setTranslate(x, y) { this.type = 2; this.angle = 0; this.cx = x; this.cy = y; }
  setScale(x, y) { this.type = 3; this.angle = 0; this.cx = x; this.cy = y; }
}

class TransformList {
  constructor() { this.items = []; }
  get numberOfItems() { return this.items.length; }
  get length() { return this.items.length; }
  getItem(i) { return this.items[i]; }
  appendItem(t) { this.items.push(t); return t; }
  insertItemBefore(t, i) { this.items.splice(i, 0, t); return t; }
  initialize(t) { this.items = [t]; return t; }
  replaceItem(t, i) { this.items[i] = t; return t; }
  removeItem(i) { return this.items.splice(i, 1)[0]; }
  clear() { this.items = []; }
}

function hash(s) {
  let h = 2166136261;
  for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619) >>> 0; }
  return h;
}

class Element {
  constructor(doc, id, spec) {
    this.ownerDocument = doc; this.id = id; this.tagName = this.nodeName = spec.tag; this.spec = spec;
    this.attrs = Object.assign({}, spec.attrs);
    this._style = makeStyle(spec.attrs.style);
    delete this.attrs.style;
    this._text = spec.text;
    this._list = new TransformList();
    this.transform = { baseVal: this._list, animVal: this._list };
    const self = this;
    for (const n of ["x", "y", "width", "height"]) {
      this[n] = { baseVal: { get value() { return parseFloat(self.attrs[n]); }, set value(v) { self.attrs[n] = String(v); } } };
    }
  }
  get style() { return this._style; }
  set style(v) { this._style.__parse(v); }
  getAttribute(n) { return n === "style" ? this._style.cssText : n === "id" ? this.id : n in this.attrs ? this.attrs[n] : null; }
  setAttribute(n, v) { if (n === "style") this._style.__parse(v); else this.attrs[n] = String(v); }
  setAttributeNS(ns, n, v) { this.setAttribute(n, v); }
  getAttributeNS(ns, n) { return this.getAttribute(n); }
  hasAttribute(n) { return n === "style" || n in this.attrs; }
  removeAttribute(n) { if (n === "style") this._style.__parse(""); else delete this.attrs[n]; }
  get innerHTML() { return this._text; }
  set innerHTML(v) { this.setText(v); }
  get textContent() { return this._text; }
  set textContent(v) { this.setText(v); }
  get innerText() { return this._text; }
  set innerText(v) { this.setText(v); }
  setText(v) {
    this._text = v === null ? "" : String(v);
    for (const c of this.spec.children) this.ownerDocument.detach(c);
  }
  getBBox() {
    const h = hash(this.id);
    return { x: h % 97, y: (h >>> 8) % 89, width: 1 + (h >>> 16) % 13, height: 1 + (h >>> 24) % 11 };
  }
  createSVGTransform() { return new Transform(); }
  querySelector(q) { return this.ownerDocument.querySelector(q); }
  querySelectorAll(q) { return this.ownerDocument.querySelectorAll(q); }
  getElementById(id) { return this.ownerDocument.getElementById(id); }
  addEventListener() {}
  dump() {
    const angle = [];
    let total = 0;
    for (const t of this._list.items) {
      if (t.type !== 4) angle.push([t.type, t.cx, t.cy]);
      else if (((t.angle % 360) + 360) % 360 !== 0) { total += t.angle; angle.push([4, t.cx, t.cy]); }
    }
    return { attrs: this.attrs, style: this._style.__values, text: this._text, angle: ((total % 360) + 360) % 360, about: angle, box: this.getBBox() };
  }
}

class Document {
  constructor() { this.cache = new Map(); this.gone = new Set(); }
  detach(id) {
    this.gone.add(id);
    const s = input.svg[id];
    if (s) for (const c of s.children) this.detach(c);
  }
  getElementById(id) {
    id = String(id);
    if (this.gone.has(id)) return null;
    if (!this.cache.has(id)) {
      const s = input.svg[id];
      this.cache.set(id, s ? new Element(this, id, s) : null);
    }
    return this.cache.get(id);
  }
  querySelector(q) {
    const m = /^#([\w-]+)$/.exec(q);
    if (m) return this.getElementById(m[1]);
    if (q === "svg") return this.documentElement;
    throw new Error("harness: querySelector " + q);
  }
  querySelectorAll(q) { const e = this.querySelector(q); return e ? [e] : []; }
  get documentElement() { return this.getElementById(input.root); }
  get rootElement() { return this.documentElement; }
  dump() {
    const out = {};
    for (const id of Array.from(this.cache.keys()).sort()) if (!this.gone.has(id) && this.cache.get(id)) out[id] = this.cache.get(id).dump();
    return out;
  }
}

// The page: scripts in order of appearance, then the body's onload.
const html = fs.readFileSync(path.join(input.dir, "index.html"), "utf8").replace(/<!--[\s\S]*?-->/g, "");
const scripts = [];
const re = /<script([^>]*)>([\s\S]*?)<\/script>/g;
for (let m; (m = re.exec(html)); ) {
  const src = /src\s*=\s*["']([^"']+)["']/.exec(m[1]);
  const code = src ? fs.readFileSync(path.join(input.dir, src[1]), "utf8") : m[2];
  scripts.push(new vm.Script(code, { filename: src ? src[1] : "index.html" }));
}
const onload = /<body[^>]*onload\s*=\s*"([^"]*)"/.exec(html);
const objects = {};
for (const m of html.matchAll(/<object([^>]*)>/g)) {
  const id = /id\s*=\s*["']([^"']+)["']/.exec(m[1]);
  if (id) objects[id[1]] = m[1];
}

function page() {
  const svg = new Document();
  const listeners = { load: [] };
  const sockets = [];
  const timers = [];
  const logs = [];
  class WS {
    constructor(address) { this.address = address; this.readyState = 1; this.listeners = {}; sockets.push(this); }
    addEventListener(n, f) { (this.listeners[n] = this.listeners[n] || []).push(f); }
    send() {}
    close() {}
    fire(n, e) {
      if (typeof this["on" + n] === "function") this["on" + n](e);
      for (const f of this.listeners[n] || []) f.call(this, e);
    }
  }
  const sandbox = {
    WebSocket: WS,
    console: { log: (...a) => logs.push(a.map(String).join(" ")), error: (...a) => logs.push(a.map(String).join(" ")), warn() {}, info() {}, debug() {} },
    document: {
      getElementById: (id) => (id in objects ? { contentDocument: svg, getSVGDocument: () => svg, addEventListener(n, f) { if (n === "load") f(); } } : null),
      addEventListener(n, f) { (listeners[n] = listeners[n] || []).push(f); },
      readyState: "complete",
      title: "",
    },
    setTimeout: (f, t, ...a) => timers.push([f, a]),
    clearTimeout() {},
    requestAnimationFrame: (f) => timers.push([f, [0]]),
    addEventListener(n, f) { (listeners[n] = listeners[n] || []).push(f); },
    location: { hostname: "127.0.0.1", host: "127.0.0.1:8000", href: "http://127.0.0.1:8000/" },
  };
  sandbox.window = sandbox.self = sandbox;
  vm.createContext(sandbox);
  for (const s of scripts) s.runInContext(sandbox);
  for (const f of listeners.DOMContentLoaded || []) f({});
  for (const f of listeners.load) f({});
  if (typeof sandbox.onload === "function") sandbox.onload({});
  if (onload) vm.runInContext(onload[1], sandbox);
  const flush = () => { for (let n = 0; timers.length && n < 1000; n++) { const [f, a] = timers.shift(); f(...a); } };
  flush();
  if (sockets.length !== 1) throw new Error("the page opened " + sockets.length + " connections");
  sockets[0].fire("open", {});
  flush();
  return { svg, socket: sockets[0], logs, deliver(text) { sockets[0].fire("message", { data: text }); flush(); } };
}

const out = { dumps: [], mismatches: [], errors: [], count: 0, messages: 0, address: null };
const finals = new Map(); // (init, update) -> text of the dump

for (const task of input.tasks) {
  for (const seq of task.seqs) {
    let p;
    try {
      p = page();
      out.address = p.socket.address;
      for (const k of seq) { p.deliver(input.messages[k]); out.messages++; }
    } catch (e) {
      if (String(e).includes("harness:")) { process.stderr.write(String(e)); process.exit(3); }
      if (out.errors.length < 20) out.errors.push({ seq, error: String(e), stack: String(e && e.stack).slice(0, 600) });
      if (task.dump) out.dumps.push(null);
      continue;
    }
    out.count++;
    if (p.logs.length && out.errors.length < 20) out.errors.push({ seq, error: "logged: " + p.logs[0] });
    const d = p.svg.dump();
    if (task.dump) out.dumps.push(d);
    const key = seq[0] + "," + seq[seq.length - 1];
    const text = JSON.stringify(d);
    if (seq.length === 2 && !finals.has(key)) finals.set(key, text);
    else if (seq.length > 2 && finals.has(key) && finals.get(key) !== text) {
      if (out.mismatches.length < 20) {
        const a = JSON.parse(finals.get(key)), diff = [];
        for (const id of new Set([...Object.keys(a), ...Object.keys(d)])) {
          const x = JSON.stringify(a[id]), y = JSON.stringify(d[id]);
          if (x !== y) diff.push({ id, direct: x && x.slice(0, 400), after: y && y.slice(0, 400) });
        }
        out.mismatches.push({ seq, diff: diff.slice(0, 5) });
      } else out.mismatches.push(0);
    }
  }
}
process.stdout.write(JSON.stringify(out));
