// Evaluates generated JavaScript or TypeScript: one JSON request per line, one JSON answer per line.
const vm = require("vm"), mod = require("module"), rl = require("readline");
process.removeAllListeners("warning");
process.on("warning", () => {});
rl.createInterface({ input: process.stdin }).on("line", l => {
  const q = JSON.parse(l);
  let a;
  try {
    const src = q.ts ? mod.stripTypeScriptTypes(q.src) : q.src;
    const v = vm.runInNewContext(src + "\n;(" + q.expr + ")");
    a = { ok: JSON.parse(JSON.stringify(v)) };
  } catch (e) { a = { err: String(e).slice(0, 300) }; }
  process.stdout.write(JSON.stringify(a) + "\n");
});
