// Runs the repository's web pages in a simulated browser: a small DOM, a virtual clock and a timer queue.
// One JSON request per line on stdin, one JSON answer per line on stdout.  Every choice comes from the request.
"use strict";
const vm = require("vm"), fs = require("fs"), path = require("path"), rl = require("readline");
const REPO = process.argv[2];

const scripts = new Map();
function script(file, src) {
  const key = file + "\0" + (src ?? "");
  if (!scripts.has(key))
    scripts.set(key, new vm.Script(src ?? fs.readFileSync(path.join(REPO, file), "utf8"), { filename: file }));
  return scripts.get(key);
}

// ------------------------------------------------------------ DOM
const VOID = new Set(["input", "br", "meta", "link", "img", "hr"]);
const esc = s => String(s).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const unesc = s => s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&#39;/g, "'").replace(/&nbsp;/g, "\u00a0").replace(/&amp;/g, "&");

function makeDom(win, errors) {
  class ClassList {
    constructor(e) { this.e = e; }
    get list() { return this.e.className.split(/\s+/).filter(x => x); }
    add(...c) { const l = this.list; for (const x of c) if (!l.includes(x)) l.push(x); this.e.className = l.join(" "); }
    remove(...c) { this.e.className = this.list.filter(x => !c.includes(x)).join(" "); }
    contains(c) { return this.list.includes(c); }
    toggle(c, f) { const on = f === undefined ? !this.contains(c) : !!f; on ? this.add(c) : this.remove(c); return on; }
    replace(a, b) { if (!this.contains(a)) return false; this.remove(a); this.add(b); return true; }
  }
  class Target {
    constructor() { this.listeners = new Map(); }
    addEventListener(t, f, o) {
      const l = this.listeners.get(t) ?? [];
      if (!l.some(x => x.f === f)) l.push({ f, once: !!(o && o.once) });
      this.listeners.set(t, l);
    }
    removeEventListener(t, f) { this.listeners.set(t, (this.listeners.get(t) ?? []).filter(x => x.f !== f)); }
    dispatchEvent(ev) {
      ev.target ??= this;
      ev.currentTarget = this;
      const on = this["on" + ev.type];
      const l = [...(this.listeners.get(ev.type) ?? [])];
      if (typeof on === "function") l.unshift({ f: on });
      for (const x of l) {
        if (x.once) this.removeEventListener(ev.type, x.f);
        try {
          if (typeof x.f === "function") x.f.call(this, ev); else x.f.handleEvent(ev);
        } catch (e) { errors.push(String(e && e.stack || e).slice(0, 300)); }
        if (ev.stopped) break;
      }
      if (ev.bubbles && !ev.cancelBubble && this.parentNode) this.parentNode.dispatchEvent(ev);
      else if (ev.bubbles && !ev.cancelBubble && this === win.document) win.dispatchEvent(ev);
      return !ev.defaultPrevented;
    }
  }
  class Ev {
    constructor(type, init = {}) { this.type = type; Object.assign(this, { bubbles: false }, init); this.defaultPrevented = false; }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this.cancelBubble = true; }
    stopImmediatePropagation() { this.stopped = this.cancelBubble = true; }
  }
  let changes = 0;
  const dash = k => "data-" + k.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
  // markup given as text becomes elements when somebody looks for them
  function expand(e) {
    if (e.kids && e.kids.some(k => "html" in k && k.html.includes("<"))) {
      const kids = e.kids;
      e.kids = [];
      for (const k of kids) if (!(k instanceof Element) && "html" in k && k.html.includes("<")) parse(k.html, e); else e.kids.push(k);
    }
    return e.kids;
  }
  class Element extends Target {
    constructor(tag) {
      super();
      this.tagName = this.nodeName = tag.toUpperCase();
      this.attrs = {};
      this.kids = [];            // Element or {text} or {html}
      this.parentNode = null;
      this.style = { setProperty() {}, removeProperty() {} };
      this.dataset = new Proxy({}, {
        get: (_, k) => typeof k === "string" ? this.attrs[dash(k)] : undefined,
        set: (_, k, v) => { this.attrs[dash(k)] = String(v); return true; },
        has: (_, k) => dash(String(k)) in this.attrs,
        deleteProperty: (_, k) => delete this.attrs[dash(k)],
      });
      this.className = "";
      this.disabled = false;
      this.classList = new ClassList(this);
      if (tag === "input") { this._value = ""; this.checked = false; this.type = "text"; }
    }
    get id() { return this.attrs.id ?? ""; }
    set id(v) { this.attrs.id = String(v); }
    get valueAsNumber() { return Number(this.value); }
    get value() {
      if (this.tagName !== "SELECT") return this._value ?? this.attrs.value ?? "";
      return this._value ?? (this.options[0] ? this.options[0].value : "");
    }
    set value(v) {
      v = String(v ?? "");
      if (this.tagName === "SELECT" && !this.options.some(o => o.value === v)) v = "";
      this._value = v;
    }
    get options() {
      const out = [];
      const walk = e => { for (const k of expand(e)) if (k instanceof Element) { if (k.tagName === "OPTION") out.push(k); walk(k); } };
      walk(this);
      return out;
    }
    get selectedIndex() { return this.options.findIndex(o => o.value === this.value); }
    set selectedIndex(i) { this._value = this.options[i] ? this.options[i].value : ""; }
    setAttribute(k, v) { this.attrs[k] = String(v); if (k === "class") this.className = String(v); if (k === "value") this._value ??= String(v); if (k === "disabled") this.disabled = true; changes++; }
    getAttribute(k) { return k === "class" ? this.className : this.attrs[k] ?? null; }
    hasAttribute(k) { return k in this.attrs; }
    removeAttribute(k) { delete this.attrs[k]; if (k === "disabled") this.disabled = false; if (k === "class") this.className = ""; }
    append(...l) { for (const x of l) this.appendChild(typeof x === "object" ? x : { text: String(x) }); }
    appendChild(x) {
      if (x.fragment) { for (const k of [...x.kids]) this.appendChild(k); x.kids = []; return x; }
      if (x instanceof Element) { if (x.parentNode) x.parentNode.removeChild(x); x.parentNode = this; }
      this.kids.push(x); changes++; return x;
    }
    removeChild(x) { this.kids = this.kids.filter(k => k !== x); x.parentNode = null; changes++; return x; }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    replaceChildren(...l) { this.kids = []; changes++; this.append(...l); }
    get firstChild() { return expand(this)[0] ?? null; }
    get lastChild() { return expand(this)[this.kids.length - 1] ?? null; }
    get children() { return expand(this).filter(k => k instanceof Element); }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children[0] ?? null; }
    get lastElementChild() { return this.children.at(-1) ?? null; }
    get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
    get nextElementSibling() { const l = this.parentNode ? this.parentNode.kids.filter(k => k instanceof Element) : []; return l[l.indexOf(this) + 1] ?? null; }
    get previousElementSibling() { const l = this.parentNode ? this.parentNode.kids.filter(k => k instanceof Element) : []; return l[l.indexOf(this) - 1] ?? null; }
    get childNodes() { return expand(this); }
    hasChildNodes() { return this.kids.length > 0; }
    contains(x) { while (x && x !== this) x = x.parentNode; return x === this; }
    insertBefore(x, ref) {
      expand(this);
      const list = x.fragment ? x.kids.splice(0) : [x];
      for (const y of list) { if (y.parentNode) y.parentNode.removeChild(y); if (y instanceof Element) y.parentNode = this; }
      const i = ref ? this.kids.indexOf(ref) : -1;
      this.kids.splice(i < 0 ? this.kids.length : i, 0, ...list); changes++; return x;
    }
    prepend(...l) { const f = expand(this)[0]; for (const x of l) this.insertBefore(typeof x === "object" ? x : { text: String(x) }, f); }
    before(...l) { for (const x of l) this.parentNode.insertBefore(typeof x === "object" ? x : { text: String(x) }, this); }
    after(...l) { const k = this.parentNode.kids; const r = k[k.indexOf(this) + 1]; for (const x of l) this.parentNode.insertBefore(typeof x === "object" ? x : { text: String(x) }, r); }
    replaceWith(...l) { this.before(...l); this.remove(); }
    replaceChild(a, b) { this.insertBefore(a, b); this.removeChild(b); return b; }
    cloneNode(deep) {
      const e = new Element(this.tagName.toLowerCase());
      Object.assign(e.attrs, this.attrs);
      for (const k of ["className", "type", "disabled", "checked", "rowSpan", "colSpan", "_value"]) if (this[k] !== undefined) e[k] = this[k];
      if (deep) for (const k of this.kids) e.appendChild(k instanceof Element ? k.cloneNode(true) : { ...k });
      return e;
    }
    toggleAttribute(k, f) { const on = f ?? !(k in this.attrs); on ? this.setAttribute(k, "") : this.removeAttribute(k); return on; }
    get content() { return this.tagName === "TEMPLATE" ? this._content ??= (() => { const f = new Element("fragment"); f.fragment = true; parse(this.innerHTML, f); return f; })() : undefined; }
    get name() { return this.attrs.name ?? ""; }
    get title() { return this.attrs.title ?? ""; }
    set title(v) { this.attrs.title = String(v); }
    get hidden() { return "hidden" in this.attrs; }
    set hidden(v) { this.toggleAttribute("hidden", !!v); }
    insertAdjacentHTML(where, h) { where === "afterbegin" ? this.kids.unshift({ html: String(h) }) : this.kids.push({ html: String(h) }); changes++; }
    insertAdjacentElement(where, x) { where === "afterbegin" ? this.prepend(x) : where === "beforebegin" ? this.before(x) : where === "afterend" ? this.after(x) : this.append(x); return x; }
    part(t) { return this.children.find(k => k.tagName === t.toUpperCase()) ?? this.appendChild(new Element(t)); }
    createTHead() { return this.part("thead"); }
    createTFoot() { return this.part("tfoot"); }
    createTBody() { return this.appendChild(new Element("tbody")); }
    createCaption() { return this.part("caption"); }
    get tHead() { return this.children.find(k => k.tagName === "THEAD") ?? null; }
    get tBodies() { return this.children.filter(k => k.tagName === "TBODY"); }
    get rows() { return find(this, "tr"); }
    get cells() { return this.children; }
    insertRow(i = -1) {
      const to = this.tagName === "TABLE" ? this.tBodies.at(-1) ?? this : this, at = to.children[i];
      const r = new Element("tr"); at ? to.insertBefore(r, at) : to.appendChild(r); return r;
    }
    insertCell(i = -1) { const c = new Element("td"), at = this.children[i]; at ? this.insertBefore(c, at) : this.appendChild(c); return c; }
    get innerHTML() { return this.kids.map(k => k instanceof Element ? k.outerHTML : "html" in k ? k.html : esc(k.text)).join(""); }
    set innerHTML(v) { this.kids = v === "" ? [] : [{ html: String(v) }]; changes++; }
    get outerHTML() {
      const t = this.tagName.toLowerCase();
      let a = "";
      for (const [k, v] of Object.entries(this.attrs)) if (k !== "class") a += ` ${k}="${esc(v)}"`;
      if (this.className) a += ` class="${esc(this.className)}"`;
      if (this.rowSpan) a += ` rowspan="${this.rowSpan}"`;
      if (this.colSpan) a += ` colspan="${this.colSpan}"`;
      return VOID.has(t) ? `<${t}${a}>` : `<${t}${a}>${this.innerHTML}</${t}>`;
    }
    get textContent() { return unesc(this.innerHTML.replace(/<[^>]*>/g, "")); }
    set textContent(v) { this.kids = v == null || v === "" ? [] : [{ text: String(v) }]; changes++; }
    get innerText() { return unesc(this.innerHTML.replace(/<br\b[^>]*>/g, "\n").replace(/<[^>]*>/g, "")); }
    set innerText(v) {
      this.kids = [];
      String(v).split("\n").forEach((l, i) => { if (i) this.kids.push({ html: "<br>" }); this.kids.push({ text: l }); });
      changes++;
    }
    querySelector(s) { return find(this, s)[0] ?? null; }
    querySelectorAll(s) { return find(this, s); }
    getElementsByTagName(t) { return find(this, t); }
    closest(s) { let e = this; while (e && !(e instanceof Element && matches(e, s))) e = e.parentNode; return e ?? null; }
    matches(s) { return matches(this, s); }
    focus() { win.document.activeElement = this; }
    blur() {}
    select() {}
    click() { press(this); }
  }
  function matches(e, s) {
    return s.split(",").some(one => {
      const m = one.trim().match(/^([a-z][a-z0-9]*)?((?:[#.][\w-]+|\[[^\]]*\])*)$/i);
      if (!m || (m[1] && m[1].toUpperCase() !== e.tagName)) return false;
      return (m[2].match(/[#.][\w-]+|\[[^\]]*\]/g) ?? []).every(p => {
        if (p[0] === "#") return e.id === p.slice(1);
        if (p[0] === ".") return e.classList.contains(p.slice(1));
        const [, k, , v] = p.slice(1, -1).match(/^([\w-]+)\s*([\^$*~|]?=\s*["']?(.*?)["']?)?$/) ?? [, p.slice(1, -1)];
        return k in e.attrs && (v === undefined || e.attrs[k] === v);
      });
    });
  }
  function find(root, s) {
    const out = [];
    const last = s.trim().split(/\s+|>/).pop();
    const walk = e => {
      if (s !== "[id]" || e.kids.some(k => "html" in k && /\bid\s*=/.test(k.html))) expand(e);
      for (const k of e.kids) if (k instanceof Element) { if (matches(k, last)) out.push(k); walk(k); }
    };
    walk(root);
    return out;
  }
  const doc = new Target();
  Object.assign(doc, { kids: [], readyState: "loading", title: "", hidden: false, visibilityState: "visible" });
  const byId = i => { i = String(i); return find(doc, "[id]").find(e => e.id === i) ?? null; };
  Object.assign(doc, {
    getElementById: byId, querySelector: s => find(doc, s)[0] ?? null, querySelectorAll: s => find(doc, s), getElementsByTagName: t => find(doc, t),
    getElementsByClassName: c => find(doc, "." + c), createElement: t => new Element(String(t).toLowerCase()), createTextNode: t => ({ text: String(t) }),
    createDocumentFragment: () => { const e = new Element("fragment"); e.fragment = true; return e; },
    getElementsByName: n => find(doc, "[name]").filter(e => e.attrs.name === n),
  });
  for (const [k, t] of [["body", "body"], ["head", "head"], ["documentElement", "html"]])
    Object.defineProperty(doc, k, { get: () => find(doc, t)[0] ?? null });
  doc.defaultView = win;
  // user's actions, as a browser performs them
  function press(e) {
    if (e.disabled) return false;
    if (e.tagName === "INPUT" && e.type === "checkbox") {
      e.checked = !e.checked;
      e.dispatchEvent(new Ev("click", { bubbles: true }));
      e.dispatchEvent(new Ev("input", { bubbles: true }));
      e.dispatchEvent(new Ev("change", { bubbles: true }));
      return true;
    }
    e.dispatchEvent(new Ev("mousedown", { bubbles: true }));
    e.dispatchEvent(new Ev("mouseup", { bubbles: true }));
    e.dispatchEvent(new Ev("click", { bubbles: true }));
    return true;
  }
  function parse(html, root = doc) {
    const list = [];
    let cur = root, m;
    const re = /<!--[^]*?-->|<!doctype[^>]*>|<(script|style)\b([^>]*)>([^]*?)<\/\1>|<\/([a-z0-9]+)\s*>|<([a-z0-9]+)((?:\s+[\w:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*\/?>|[^<]+|</gi;
    while ((m = re.exec(html))) {
      if (m[1]) {
        if (m[1].toLowerCase() === "script") {
          const src = m[2].match(/src\s*=\s*["']([^"']*)["']/);
          list.push(src ? { src: src[1], defer: /\b(defer|async)\b/.test(m[2]) } : { code: m[3] });
          list[list.length - 1].dom = true;
        }
      } else if (m[4]) {
        let e = cur;
        while (e !== root && e.tagName.toLowerCase() !== m[4].toLowerCase()) e = e.parentNode;
        if (e !== root) cur = e.parentNode;
      } else if (m[5]) {
        const e = new Element(m[5].toLowerCase());
        for (const a of m[6].matchAll(/([\w:-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) {
          const v = unesc(a[2] ?? a[3] ?? a[4] ?? "");
          e.attrs[a[1]] = v;
          if (a[1] === "class") e.className = v;
          if (a[1] === "type") e.type = v;
          if (a[1] === "disabled") e.disabled = true;
          if (a[1] === "checked") e.checked = true;
          if (a[1] === "value") e._value = v;
          if (a[1] === "rowspan") e.rowSpan = (delete e.attrs.rowspan, +v);
          if (a[1] === "colspan") e.colSpan = (delete e.attrs.colspan, +v);
          if (/^on[a-z]+$/.test(a[1])) e[a[1]] = inlineHandler(v);
        }
        e.parentNode = cur;
        cur.kids.push(e);
        if (!VOID.has(m[5].toLowerCase())) cur = e;
      } else if (m[0] && !m[0].startsWith("<!") && cur !== doc) cur.kids.push({ html: m[0] });
    }
    return list;
  }
  function inlineHandler(code) {
    return function (event) { return vm.runInContext("(function (event) {" + code + "\n})", win).call(this, event); };
  }
  return { doc, Element, Ev, Target, press, parse, changes: () => changes };
}

// ------------------------------------------------------------ one page in one browser tab
async function session(q) {
  const errors = [];
  const win = {};
  const dom = makeDom(win, errors);
  const target = new dom.Target();
  for (const k of ["addEventListener", "removeEventListener", "dispatchEvent"]) win[k] = target[k].bind(target);
  win.dispatchEvent = ev => target.dispatchEvent(ev);
  let now = 0, wall = q.wall ?? 1.7e12, seq = 0, fired = 0;
  const timers = new Map();
  const rnd = (() => { let s = (q.seed ?? 1) >>> 0; return () => { s = (s + 0x6D2B79F5) >>> 0; let t = s; t = Math.imul(t ^ t >>> 15, t | 1); t ^= t + Math.imul(t ^ t >>> 7, t | 61); return ((t ^ t >>> 14) >>> 0) / 4294967296; }; })();
  const add = (f, ms, a, every) => { timers.set(++seq, { id: seq, due: now + Math.max(every ? 4 : 0, +ms || 0), f, a, every }); return seq; };
  Object.assign(win, {
    document: dom.doc, setTimeout: (f, ms, ...a) => add(f, ms, a, 0), setInterval: (f, ms, ...a) => add(f, ms, a, Math.max(4, +ms || 0)),
    clearTimeout: i => { timers.delete(i); }, clearInterval: i => { timers.delete(i); },
    requestAnimationFrame: f => add(() => f(now), 16, [], 0), cancelAnimationFrame: i => { timers.delete(i); },
    requestIdleCallback: f => add(() => f({ didTimeout: false, timeRemaining: () => 5 }), 1, [], 0),
    queueMicrotask: f => Promise.resolve().then(f), performance: { now: () => now }, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} },
    Event: dom.Ev, CustomEvent: dom.Ev, HTMLElement: dom.Element, Element: dom.Element, location: { href: "https://x/", search: "", hash: "" }, navigator: { userAgent: "sim", language: "jbo" },
    alert() {}, localStorage: { getItem: () => null, setItem() {}, removeItem() {} },
  });
  win.window = win.self = win;
  const ctx = vm.createContext(win);
  win.__wall = () => wall + now;
  win.__rnd = rnd;
  vm.runInContext("globalThis.window = globalThis; Date.now = __wall; { const D = Date; globalThis.Date = class extends D { constructor(...a) { a.length ? super(...a) : super(__wall()); } static now() { return __wall(); } }; } Math.random = __rnd; delete globalThis.__wall; delete globalThis.__rnd;", ctx);
  const drain = () => new Promise(r => setImmediate(r));
  const list = dom.parse(fs.readFileSync(path.join(REPO, q.page), "utf8"));
  const load = s => {
    try {
      (s.src ? script(s.src.replace(/[?#].*/, "")) : script(q.page, s.code)).runInContext(ctx);
    } catch (e) { errors.push("load: " + String(e && e.stack || e).slice(0, 300)); }
  };
  for (const s of list.filter(s => !s.defer)) load(s);
  for (const s of list.filter(s => s.defer)) load(s);
  dom.doc.readyState = "interactive";
  dom.doc.dispatchEvent(new dom.Ev("DOMContentLoaded", { bubbles: true }));
  await drain();
  dom.doc.readyState = "complete";
  target.dispatchEvent(new dom.Ev("load"));
  await drain();
  const get = i => dom.doc.getElementById(i);
  let last = {}, maxTimers = 0;
  const snap = () => {
    const s = {};
    for (const i of q.watch) {
      const e = get(i);
      s[i] = e ? { html: e.innerHTML, cls: e.className, value: e.tagName === "INPUT" || e.tagName === "SELECT" ? e.value : undefined, checked: e.checked, disabled: e.disabled } : null;
    }
    const out = {};
    for (const i of q.watch) if (JSON.stringify(s[i]) !== JSON.stringify(last[i])) out[i] = s[i];
    last = s;
    return out;
  };
  const fire = due => {
    // the earliest timer that is due
    let t = null;
    for (const x of timers.values()) if (x.due <= due && (!t || x.due < t.due || (x.due === t.due && x.id < t.id))) t = x;
    if (!t) return false;
    if (t.every) t.due = Math.max(now, t.due) + t.every; else timers.delete(t.id);
    fired++;
    try { typeof t.f === "function" ? t.f(...t.a) : vm.runInContext(String(t.f), ctx); } catch (e) { errors.push(String(e && e.stack || e).slice(0, 300)); }
    return true;
  };
  const steps = [{ changed: snap(), now: 0 }];
  for (const ev of q.events) {
    const e = ev[1] !== undefined && typeof ev[1] === "string" ? get(ev[1]) : null;
    let did = true;
    switch (ev[0]) {
      case "type": {          // the text becomes ev[2] by one edit
        const by = ev[3] ?? "insertText", seen = n => e.dispatchEvent(new dom.Ev(n, { bubbles: true, data: "" }));
        const keys = by === "insertText" || by === "deleteContentBackward", composes = by.startsWith("compose");
        const input = (t, c) => {
          e.dispatchEvent(new dom.Ev("beforeinput", { bubbles: true, inputType: t, isComposing: c }));
          e.value = ev[2];
          e.dispatchEvent(new dom.Ev("input", { bubbles: true, inputType: t, isComposing: c }));
        };
        if (composes) {       // an input method: browsers differ in which comes first, the end or the last input
          e.dispatchEvent(new dom.Ev("keydown", { bubbles: true, key: "Process", isComposing: false }));
          seen("compositionstart");
          seen("compositionupdate");
          if (by === "compose-end-last") { input("insertCompositionText", true); seen("compositionend"); }
          else { seen("compositionend"); input("insertCompositionText", false); }
        } else {
          // what is pasted, dropped, cut or corrected with the mouse comes without keys
          if (keys) e.dispatchEvent(new dom.Ev("keydown", { bubbles: true, key: "a" }));
          if (by === "insertFromPaste") seen("paste");
          if (by === "deleteByCut") seen("cut");
          input(by, false);
        }
        if (keys || composes) e.dispatchEvent(new dom.Ev("keyup", { bubbles: true, key: "a" }));
        break;
      }
      case "blur":
        e.dispatchEvent(new dom.Ev("change", { bubbles: true }));
        e.dispatchEvent(new dom.Ev("blur"));
        break;
      case "click": did = e ? dom.press(e) : false; break;
      case "choose":          // an option of a select
        e.value = ev[2];
        e.dispatchEvent(new dom.Ev("input", { bubbles: true }));
        e.dispatchEvent(new dom.Ev("change", { bubbles: true }));
        break;
      case "tick": now += ev[1]; break;
      case "fire": did = fire(now); break;
      case "clock": wall += ev[1]; break;
      case "hide": dom.doc.hidden = ev[1]; dom.doc.visibilityState = ev[1] ? "hidden" : "visible"; dom.doc.dispatchEvent(new dom.Ev("visibilitychange", { bubbles: true })); break;
      case "settle": {        // ev[1] ms pass with nothing but timers
        const end = now + ev[1];
        for (let n = 0; n < 2000; n++) {
          let nx = Infinity;
          for (const x of timers.values()) nx = Math.min(nx, x.due);
          if (nx > end) break;
          now = Math.max(now, nx);
          fire(now);
          await drain();
        }
        now = Math.max(now, end);
        break;
      }
    }
    await drain();
    maxTimers = Math.max(maxTimers, timers.size);
    steps.push({ changed: snap(), did, now });
  }
  return { steps, errors, fired, pending: timers.size, maxTimers };
}

// ------------------------------------------------------------ the library alone, every call in a fresh realm
function libraryFiles(page) {
  const html = fs.readFileSync(path.join(REPO, page), "utf8");
  return [...html.matchAll(/<script\b[^>]*src\s*=\s*["']([^"']*)["']/g)].map(m => m[1].replace(/[?#].*/, "")).filter(s => s.startsWith("js/"));
}
const libs = new Map();
function library(q) {
  if (!libs.has(q.page)) libs.set(q.page, libraryFiles(q.page));
  const files = libs.get(q.page);
  return q.exprs.map(x => {
    const ctx = vm.createContext({});
    for (const f of files) script(f).runInContext(ctx);
    try { return { ok: JSON.parse(vm.runInContext("JSON.stringify(" + x + ")", ctx) ?? "null") }; }
    catch (e) { return { err: String(e && e.message !== undefined ? e.message : e) }; }
  });
}

let queue = Promise.resolve();
rl.createInterface({ input: process.stdin }).on("line", l => {
  queue = queue.then(async () => {
    let a;
    try {
      const q = JSON.parse(l);
      a = q.op === "session" ? await session(q) : q.op === "library" ? { answers: library(q) } : { failed: "?" };
    } catch (e) { a = { failed: String(e && e.stack || e) }; }
    process.stdout.write(JSON.stringify(a) + "\n");
  });
});
