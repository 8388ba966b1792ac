// index.html in a small stand-in for a browser.
const fs = require("fs"), path = require("path"), vm = require("vm");

function html(repo) {
  return fs.readFileSync(path.join(repo, "index.html"), "utf8");
}

function attr(tag, name) {
  const m = tag.match(new RegExp("\\s" + name + "\\s*=\\s*(?:\"([^\"]*)\"|'([^']*)'|([^\\s>]+))", "i"));
  return m ? m[1] || m[2] || m[3] || "" : null;
}

// [name, file, text] of each script in order
function files(repo) {
  const out = [];
  for (const m of html(repo).matchAll(/<script\b[^>]*>/gi)) {
    const src = attr(m[0], "src"), file = src && path.join(repo, src);
    if (file && !/^[a-z]+:/i.test(src) && fs.existsSync(file)) out.push([path.basename(src, ".js"), file, fs.readFileSync(file, "utf8")]);
  }
  return out;
}

// {id, className, tag} of each element with an id
function elements(repo) {
  const body = html(repo).replace(/<!--[^]*?-->/g, "").replace(/<(style|script)\b[^]*?<\/\1>/gi, "");
  const out = [];
  for (const m of body.matchAll(/<([a-z][a-z0-9]*)\b[^>]*>/gi)) {
    const id = attr(m[0], "id");
    if (id !== null) out.push({ id, className: attr(m[0], "class") || "", tag: m[1].toLowerCase() });
  }
  return out;
}

function run(list, repo, q) {
  const els = {}, listeners = {}, timers = new Map();
  let next = 1;
  const hear = table => (type, f) => { (table[type] = table[type] || []).push(f); };
  for (const e of elements(repo)) {
    const own = {};
    els[e.id] = { id: e.id, className: e.className, value: "", innerHTML: "", own, addEventListener: hear(own) };
  }
  const ctx = vm.createContext({ console: { log() {}, error() {}, warn() {} } });
  const say = (table, type, target) => { for (const f of (table[type] || []).slice()) f({ type, target }); };
  ctx.document = { getElementById: id => els[id] || null, addEventListener: hear(listeners) };
  ctx.addEventListener = hear(listeners);
  ctx.setTimeout = f => { timers.set(next, f); return next++; };
  ctx.clearTimeout = id => { timers.delete(id); };
  ctx.window = { addEventListener: ctx.addEventListener, setTimeout: ctx.setTimeout, clearTimeout: ctx.clearTimeout, document: ctx.document };
  const out = [];
  let done = !q.table;
  const step = f => {
    let error = null;
    try {
      f();
    } catch (e) {
      error = e && e.name || String(e);
    }
    const s = { error };
    for (const [k, e] of Object.entries(els)) s[k] = [e.className, e.innerHTML];
    out.push(s);
  };
  step(() => {
    for (const e of list) {
      if (!e[3]) e[3] = new vm.Script(e[2], { filename: e[1] });
      e[3].runInContext(ctx);
      if (!done && vm.runInContext("typeof RAFSI_LIST !== 'undefined'", ctx)) {
        vm.runInContext("(t => { RAFSI_LIST.clear(); for (const [k, v] of JSON.parse(t)) RAFSI_LIST.set(k, v); })", ctx)(JSON.stringify(q.table));
        done = true;
      }
    }
    if (q.stub) {
      const stub = vm.runInContext("(t => { const m = new Map(JSON.parse(t)); getLujvo = function (w, s) { " +
        "const r = m.get(JSON.stringify([s.generateCmevla, s.yHyphens, s.expRafsiShapes, s.consonants, s.glides, s.allowMZ]));" +
        " if (r === null) throw new Error('none'); return r; }; })", ctx);
      stub(JSON.stringify(q.stub));
    }
    say(listeners, "DOMContentLoaded", null);
  });
  for (const [what, x] of q.events) {
    step(() => {
      if (what === "type") {
        els.source.value = x;
        say(els.source.own, "input", els.source);
      } else if (what === "click") {
        say(els[x].own, "click", els[x]);
      } else {
        const due = [...timers.values()];
        timers.clear();
        for (const f of due) f();
      }
    });
  }
  return out;
}
module.exports = { files, elements, run };
