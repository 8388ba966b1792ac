// Runs the published JavaScript for the concrete side of the checks.
//   node server.js REPO VARIANT   (VARIANT: docs = js/docs/*.js, src = js/src/*.ts transpiled)
//   page: index.html's scripts and elements, see page.js
// One JSON request per line on stdin, one JSON answer per line on stdout.
const fs = require("fs"), path = require("path"), vm = require("vm"), readline = require("readline");
const MODS = "/opt/veriftools/node/node_modules/";
const ORDER = ["data", "rafsi", "exceptions", "tarmi", "tools", "jvozba", "katna"];

function files(repo, variant) {
  const dir = path.join(repo, "js", variant), ext = variant === "docs" ? ".js" : ".ts";
  const all = fs.readdirSync(dir).filter(f => f.endsWith(ext)).map(f => f.slice(0, -ext.length));
  const names = ORDER.filter(n => all.includes(n)).concat(all.filter(n => !ORDER.includes(n)).sort());
  return names.map(n => {
    let text = fs.readFileSync(path.join(dir, n + ext), "utf8");
    if (variant === "src") {
      const ts = require(MODS + "typescript");
      text = ts.transpileModule(text, { compilerOptions: { target: "es2016" } }).outputText;
    }
    return [n, dir + "/" + n + ext, text];
  });
}

// A fresh context; the dictionary is replaced before the files after it run.
function fresh(list, table) {
  const ctx = vm.createContext({ console });
  let done = table === null;
  for (const e of list) {
    if (!e[3]) e[3] = new vm.Script(e[2], { filename: e[1] });
    e[3].runInContext(ctx);
    if (!done && vm.runInContext("typeof RAFSI_LIST !== 'undefined'", ctx)) {
      vm.runInContext("(t => { RAFSI_LIST.clear(); for (const [k, v] of JSON.parse(t)) RAFSI_LIST.set(k, v); })", ctx)(JSON.stringify(table));
      done = true;
    }
  }
  return ctx;
}

function main() {
  const page = process.argv[3] === "page" ? require(path.join(__dirname, "page.js")) : null;
  const list = page ? page.files(process.argv[2]) : files(process.argv[2], process.argv[3]);
  if (process.argv[4] === "--ast") {      // ESTree of every file
    const acorn = require(MODS + "acorn");
    const out = list.map(([n, file, text]) => [n, file, acorn.parse(text, { ecmaVersion: "latest", sourceType: "script" })]);
    const strip = (k, v) => k === "start" || k === "end" ? undefined :
      v instanceof RegExp ? undefined : typeof v === "bigint" ? Number(v) : v;
    process.stdout.write(JSON.stringify(page ? { files: out, elements: page.elements(process.argv[2]) } : out, strip));
    return;
  }
  let ctx = page ? null : fresh(list, null), cur = "null";
  readline.createInterface({ input: process.stdin }).on("line", line => {
    const q = JSON.parse(line);
    let out;
    try {
      if (page) {
        process.stdout.write(JSON.stringify({ ok: page.run(list, process.argv[2], q) }) + "\n");
        return;
      }
      const k = JSON.stringify(q.table === undefined ? null : q.table);
      if (k !== cur) {
        ctx = fresh(list, q.table === undefined ? null : q.table);
        cur = k;
      }
      const fn = vm.runInContext(q.fn, ctx);
      const v = vm.runInContext("(f, a) => f(...JSON.parse(a))", ctx)(fn, JSON.stringify(q.args));
      out = { ok: v === undefined ? null : v };
    } catch (e) {
      out = { err: e && e.name || String(e), msg: e && e.message };
    }
    process.stdout.write(JSON.stringify(out) + "\n");
  });
}
main();
