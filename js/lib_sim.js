// Runs the repository's JavaScript library, compiled (js/docs) or from its sources (js/src, types stripped), in realms of its own.
// One JSON request per line on stdin, one JSON answer per line on stdout.  Every choice comes from the request.
"use strict";
const vm = require("vm"), fs = require("fs"), path = require("path"), v8 = require("v8"), rl = require("readline");
const { stripTypeScriptTypes } = require("module");
const REPO = process.argv[2];

function sources(tree) {
  const html = fs.readFileSync(path.join(REPO, "index.html"), "utf8");
  const files = [...html.matchAll(/<script\b[^>]*src\s*=\s*["']([^"']*)["']/g)].map(m => m[1].replace(/[?#].*/, "")).filter(s => s.startsWith("js/docs/"));
  return files.map(f => {
    if (tree === "docs") return [f, fs.readFileSync(path.join(REPO, f), "utf8")];
    const t = f.replace("js/docs/", "js/src/").replace(/\.js$/, ".ts");
    return [t, stripTypeScriptTypes(fs.readFileSync(path.join(REPO, t), "utf8"), { mode: "transform" })];
  });
}
const texts = new Map(), trees = new Map();
let copies = 0;
// The scripts of a tree, every function compiled; or, lazy, a copy of which V8 compiles each function when it is first called, as browsers do.
function scripts(tree, lazy) {
  if (!texts.has(tree)) texts.set(tree, sources(tree));
  const load = end => texts.get(tree).map(([f, t]) => new vm.Script(t + end, { filename: f }));
  if (lazy) {
    v8.setFlagsFromString("--lazy");
    try { return load(`\n// copy ${++copies}`); } finally { v8.setFlagsFromString("--no-lazy"); }
  }
  if (!trees.has(tree)) trees.set(tree, load(""));
  return trees.get(tree);
}

const PRELUDE = `(function (seed, wall, locale) {
  // the user's locale decides these in browsers (V8 itself ignores it)
  for (const n of ["toLocaleLowerCase", "toLocaleUpperCase"]) { const f = String.prototype[n]; String.prototype[n] = function (l) { return f.call(this, l ?? locale); }; }
  { const f = String.prototype.localeCompare; String.prototype.localeCompare = function (o, l, x) { return f.call(this, o, l ?? locale, x); }; }
  let s = seed >>> 0;
  Math.random = () => { s = (s + 0x6D2B79F5) >>> 0; let t = Math.imul(s ^ (s >>> 15), 1 | s); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
  let now = wall;
  const D = Date;
  const V = class Date extends D { constructor(...a) { if (a.length) super(...a); else super(now); } static now() { return now += 0.001, Math.floor(now); } };
  globalThis.Date = V;
  globalThis.performance = { now: () => (now += 0.001) - wall };
  const timers = [];
  let ids = 0;
  globalThis.setTimeout = (f, ms, ...a) => { timers.push({ id: ++ids, at: now + (+ms || 0), f: () => f(...a) }); return ids; };
  globalThis.setInterval = () => ++ids;
  globalThis.requestIdleCallback = f => setTimeout(f, 1);
  globalThis.clearTimeout = globalThis.clearInterval = id => { const i = timers.findIndex(t => t.id === id); if (i >= 0) timers.splice(i, 1); };
  globalThis.console = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
  return {
    advance(ms) {
      now += ms;
      for (;;) {
        timers.sort((a, b) => a.at - b.at || a.id - b.id);
        if (!timers.length || timers[0].at > now) return;
        try { timers.shift().f(); } catch (e) { }
      }
    },
  };
})`;

const TOOLS = `({
  revive(v, keep) {
    if (Array.isArray(v)) return v.map(x => this.revive(x, keep));
    if (v && typeof v === "object") {
      if (v.$e) return v.$e.reduce((o, k) => o[k], { YHyphenSetting, ConsonantSetting });
      if (v.$list !== undefined) return keep("$list", v.$list);
      if (v.$opts !== undefined) return keep("$opts", v.$opts);
      const o = {};
      for (const k of Object.keys(v)) o[k] = this.revive(v[k], keep);
      return o;
    }
    return v;
  },
  plain(v, d = 0) {
    if (v === undefined) return ["undefined"];
    if (typeof v === "number") return Object.is(v, -0) ? ["-0"] : Number.isFinite(v) ? v : [String(v)];
    if (v === null || typeof v !== "object") return typeof v === "string" || typeof v === "boolean" || v === null ? v : [typeof v, String(v)];
    if (d > 12) return ["deep"];
    if (Array.isArray(v)) return ["l", Array.from(v, x => this.plain(x, d + 1))];
    if (v instanceof Map || v instanceof Set) return ["m", Array.from(v, x => this.plain(x, d + 1))];
    return ["o", Object.keys(v).map(k => [k, this.plain(v[k], d + 1)])];
  },
  call(name, args) {
    const f = name.split(".").reduce((o, k) => o?.[k], table());
    if (typeof f !== "function") return ["none"];
    try { return ["ok", f(...args)]; }
    catch (e) { return ["exc", e instanceof Error ? e.constructor.name : typeof e, String(e && e.message), e]; }
  },
  // the innermost frame that can still be entered, k frames back from where the stack ends
  deep(k, f) {
    let left = null, out;
    const dive = () => {
      try { dive(); } catch (e) { left ??= k; }
      if (left !== null && left-- === 0) out = f();
    };
    dive();
    return out;
  },
})
function table() { return { %TABLE% }; }`;

const NAMES = ["getLujvo", "getLujvoWithAnalytics", "getVeljvo", "scoreLujvo", "analyseBrivla", "isBrivla", "getRafsiIndices", "normalise", "isGismuOrLujvo",
  "isSlinkuhi", "checkZihevlaOrRafsi", "jvokaha", "jvokaha2", "searchSelrafsiFromRafsi", "selrafsiListFromRafsiList", "compareLujvoPieces", "getRafsiListList",
  "getLujvoFromList", "processTanru", "score", "tiebreak", "isGismu", "isValidRafsi", "rafsiTarmi", "splitVowelCluster", "tarmiIgnoringHyphen", "stripHyphens",
  "isZihevlaInitialCluster", "isZihevlaMiddleCluster", "isOnlyLojbanCharacters", "containsConsonant"];
const tools = new vm.Script(TOOLS.slice(TOOLS.indexOf("function table")).replace("%TABLE%",
  NAMES.map(n => `get ${n}() { return typeof ${n} === "undefined" ? undefined : ${n}; }`).join(", ")) + ";\n" + TOOLS.slice(0, TOOLS.indexOf("function table")));
const prelude = new vm.Script(PRELUDE);

function realm(tree, seed, wall, locale = "en", lazy = false) {
  const ctx = vm.createContext({});
  const world = prelude.runInContext(ctx)(seed, wall, locale);
  for (const s of scripts(tree, lazy)) s.runInContext(ctx);
  const t = tools.runInContext(ctx);
  for (const n of NAMES) t.call(n + ".none", []);     // so that reaching for a function takes no first call later
  t.deep(5000, () => 0);
  return { world, t, json: vm.runInContext("JSON", ctx) };
}

const plainAnswer = (t, a) => a[0] === "ok" ? ["ok", t.plain(a[1])] : a.slice(0, 3);

function edit(v, e) {
  // what a caller may do to what it owns
  if (!v || typeof v !== "object") return false;
  const inner = [v];
  for (let i = 0; i < inner.length && inner.length < 60; i++)
    for (const x of Object.values(inner[i])) if (x && typeof x === "object") inner.push(x);
  const o = inner[e.pick % inner.length];
  if (!Array.isArray(o)) { o[["allowMZ", "glides", "expRafsiShapes", "generateCmevla"][e.pick % 4]] = e.flag; return true; }
  switch (e.how) {
    case "clear": o.length = 0; break;
    case "push": o.push(e.with); break;
    case "set": if (o.length) o[e.pick % o.length] = e.with; else o.push(e.with); break;
    case "reverse": o.reverse(); break;
    case "shift": o.shift(); break;
    case "fill": o.fill(e.with); break;
  }
  return true;
}

// V8 aborts the process when it has to compile a regular expression without stack left: the calls of a session are made once at ease first,
// in a realm nobody looks at, so that this isolate has compiled what they need.
function pilot(q) {
  const { t, json } = realm(q.tree, 1, 1.7e12);
  for (let n = 0; n < 2; n++)
    for (const st of q.steps)
      if (st.f && !JSON.stringify(st.args).includes('"$list"') && !JSON.stringify(st.args).includes('"$opts"'))
        t.call(st.f, t.revive(json.parse(JSON.stringify(st.args))));
}

// A function that is not compiled yet needs 40 KB of stack: the depth at which a first call begins to succeed.
let firstCallAt = null;
function calibrate() {
  const { t } = realm("docs", 1, 1.7e12);
  let n = 0;
  const works = k => {
    v8.setFlagsFromString("--lazy");
    const f = vm.runInThisContext(`(() => { function f() { return 1; } /* ${n++} */ return () => f(); })()`);
    v8.setFlagsFromString("--no-lazy");
    return t.deep(k, f) === 1;
  };
  works(5000);
  let lo = 0, hi = 5000;
  while (hi - lo > 1) { const m = (lo + hi) >> 1; if (works(m)) hi = m; else lo = m; }
  firstCallAt = hi;
  for (const tree of ["docs", "src"]) session({ tree, seed: 1, wall: 0, locale: "en", steps: [{ f: "isGismu", args: ["gerku"], deep: { k: 5000 } }, { edit: {} }] });
}

function session(q) {
  if (firstCallAt === null) calibrate();
  if (q.steps.some(st => st.deep !== undefined)) pilot(q);
  const { world, t, json } = realm(q.tree, q.seed, q.wall, q.locale, q.lazy);
  const own = [];       // everything callers hold: arguments and results
  const lists = [], opts = [];
  const out = [];
  for (const st of q.steps) {
    if (st.edit) { out.push(["edited", own.length ? edit(own[st.edit.of % own.length], st.edit) : false]); continue; }
    if (st.advance) { world.advance(st.advance); out.push(["advanced"]); continue; }
    if (st.gc) { if (globalThis.gc) globalThis.gc(); out.push(["gc"]); continue; }
    const args = t.revive(json.parse(JSON.stringify(st.args)), (kind, i) => { const l = kind === "$list" ? lists : opts; return l[i % l.length]; });
    if (args.some(x => x === undefined)) { out.push(["nothing kept"]); continue; }
    const raw = JSON.stringify(args);
    const before = JSON.stringify(t.plain(args));
    let nested = null;
    if (st.getter) {
      // an accessor among the settings that uses the library itself
      const o = args[args.length - 1], v = o[st.getter.key];
      Object.defineProperty(o, st.getter.key, { enumerable: true, configurable: true, get() { nested ??= plainAnswer(t, t.call(st.getter.f, t.revive(json.parse(JSON.stringify(st.getter.args))))); return v; } });
    }
    const a = st.deep === undefined ? t.call(st.f, args) : t.deep(st.deep.first ? Math.max(0, firstCallAt + st.deep.k) : st.deep.k, () => t.call(st.f, args)) ?? ["none"];
    const res = plainAnswer(t, a);
    const after = st.getter ? before : JSON.stringify(t.plain(args));
    out.push(["called", res, before === after ? null : after, nested, raw]);
    for (const x of args) {
      if (Array.isArray(x)) { if (!lists.includes(x)) lists.push(x); }
      else if (x && typeof x === "object" && !st.getter && !opts.includes(x)) opts.push(x);
    }
    for (const x of args) if (x && typeof x === "object" && !(st.getter && !Array.isArray(x))) own.push(x);
    if (a[0] === "ok") own.push(a[1]);
  }
  return { out };
}

rl.createInterface({ input: process.stdin }).on("line", l => {
  let a;
  try {
    const q = JSON.parse(l);
    if (q.op === "session") a = session(q);
    else if (q.op === "depth") { calibrate(); a = { depth: firstCallAt }; }
    else if (q.op === "alone") a = { answers: q.calls.map(c => {
      const { t, json } = realm(q.tree, 1, 1.7e12);
      return plainAnswer(t, t.call(c[0], t.revive(json.parse(JSON.stringify(c[1])))));
    }) };
    else a = { failed: "?" };
  } catch (e) { a = { failed: String(e && e.stack || e) }; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
