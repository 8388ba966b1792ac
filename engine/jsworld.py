"""The published JavaScript as a harness sees it: symbolically (translated) and concretely (node)."""
import atexit
import json
import os
import subprocess

from . import core, js2py, jsrt
from .values import SDict

SERVER = os.path.join(os.path.dirname(os.path.abspath(__file__)), "js", "server.js")
SETTINGS = {"y_hyphens": "yHyphens", "exp_rafsi_shapes": "expRafsiShapes", "consonants": "consonants",
            "glides": "glides", "allow_mz": "allowMZ", "generate_cmevla": "generateCmevla"}
FUNCTIONS = {"get_lujvo": "getLujvo", "get_lujvo_with_analytics": "getLujvoWithAnalytics", "get_veljvo": "getVeljvo",
             "score_lujvo": "scoreLujvo", "is_brivla": "isBrivla", "analyse_brivla": "analyseBrivla",
             "get_rafsi_indices": "getRafsiIndices", "selrafsi_list_from_rafsi_list": "selrafsiListFromRafsiList"}

_code, _elements = {}, {}


class Broken(Exception):
    """The JavaScript does not load."""


def repo_root():
    return os.environ.get("LATKERLO_REPO", "/repo")


def code(variant):
    """Compiled Python of every file of the variant, from the current sources."""
    k = (repo_root(), variant)
    if k not in _code:
        r = subprocess.run(["node", SERVER, repo_root(), variant, "--ast"], capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Broken("node: " + r.stderr.strip()[-300:])
        trees = json.loads(r.stdout)
        if variant == "page":
            _elements[k] = trees["elements"]
            trees = trees["files"]
        out, names = js2py.translate(trees)
        cs = []
        for name, fn, src in out:
            cs.append((name, compile(src, fn if fn.startswith("/repo/") else "/repo/" + os.path.relpath(fn, repo_root()), "exec")))
        _code[k] = cs, names
    return _code[k]


_skip = {}


def load(variant, table=None):
    """A namespace in which the translated code has run."""
    cs, names = code(variant)
    ns = {"_rt": jsrt, "__name__": "js_" + variant}
    done = False
    k = (repo_root(), variant)
    for name, c in cs:
        if table is not None and not done and _skip.get(k) == name:
            done = True             # this file only defines the dictionary
            ns["g_RAFSI_LIST"] = jsrt.JSMap.over(table)
            continue
        before = dict(ns)
        exec(c, ns)
        if table is not None and not done and isinstance(ns.get("g_RAFSI_LIST"), jsrt.JSMap):
            new = {n for n in ns if n not in before and n != "__builtins__"}
            if new == {"g_RAFSI_LIST"} and all(ns[n] is v for n, v in before.items()) and name == "rafsi":
                _skip[k] = name
            ns["g_RAFSI_LIST"] = jsrt.JSMap.over(table)
            done = True
    return ns, names


_servers = {}


class Server:
    def __init__(self, variant):
        self.p = subprocess.Popen(["node", SERVER, repo_root(), variant], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  text=True, bufsize=1)

    def ask(self, q):
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("node ended")
        return json.loads(line)


def server(variant):
    k = (os.getpid(), repo_root(), variant)
    s = _servers.get(k)
    if s is None or s.p.poll() is not None:
        s = _servers[k] = Server(variant)
        pid = os.getpid()
        atexit.register(lambda: s.p.kill() if os.getpid() == pid else None)
    return s


def drop(variant):
    s = _servers.pop((os.getpid(), repo_root(), variant), None)
    if s is not None:
        s.p.kill()


def js_settings(kw):
    return {SETTINGS[k]: v for k, v in kw.items()}


class JsApi:
    """call(name, args, settings) -> (value, None) or (None, name of the error)."""

    def __init__(self, h, variant="docs", table=None):
        self.h = h
        self.variant = variant
        self.table = table
        self.ns = None

    def call(self, name, args, kw):
        fn = FUNCTIONS[name]
        if not self.h.symbolic:
            a = list(args) + ([js_settings(kw)] if kw is not None else [])
            t = None if self.table is None else [[k, list(v)] for k, v in dict(self.table).items()]
            try:
                r = server(self.variant).ask({"fn": fn, "args": a, "table": t})
            except BaseException:
                drop(self.variant)
                raise
            if "err" in r:
                return None, r["err"]
            return r["ok"], None
        if self.ns is None:
            t = None
            if self.table is not None:
                t = SDict()
                for k, v in self.table:
                    t[k] = list(v)
            self.ns, self.names = load(self.variant, t)
        f = self.ns[self.names[fn]]
        a = [jsrt.from_py(x) for x in args]
        if kw is not None:
            a.append(jsrt.Obj(js_settings(kw)))
        try:
            return jsrt.to_py(jsrt.callv(f, *a)), None
        except jsrt.CAUGHT as e:
            return None, jsrt.error_name(e)


_variants = []


def plain(t):
    """Without the spelling of literals."""
    if isinstance(t, dict):
        return {k: plain(v) for k, v in t.items() if not (k == "raw" and t.get("type") == "Literal")}
    return [plain(x) for x in t] if isinstance(t, list) else t


def variants():
    """The JavaScript to check: js/docs, which users load, and js/src unless it compiles to the same code."""
    if not _variants:
        def text(v):
            r = subprocess.run(["node", SERVER, repo_root(), v, "--ast"], capture_output=True, text=True, timeout=120)
            if r.returncode:
                raise Broken("node: " + r.stderr.strip()[-300:])
            return {n: plain(t) for n, _, t in json.loads(r.stdout)}
        _variants.append("docs")
        if text("docs") != text("src"):
            _variants.append("src")
    return list(_variants)


# ------------------------------------------------------------------- the web page


class Element(jsrt.JSObject):
    def __init__(self, e):
        self.id, self.className = e["id"], e["className"]
        self.value = self.innerHTML = ""
        self.own = {}
        self.addEventListener = hear(self.own)


def hear(table):
    def add(kind=None, f=None, *_):
        table.setdefault(kind, []).append(f)
    return add


class Page:
    """index.html: events in, the elements' class and content out.  stub(settings) stands for getLujvo where given."""

    def __init__(self, h, table=None, stub=None, combos=()):
        self.h, self.table, self.stub, self.combos = h, table, stub, combos

    def run(self, events):
        """One state per event, after one for loading: {"error": name, id: (class, content)}."""
        if not self.h.symbolic:
            t = None if self.table is None else [[k, list(v)] for k, v in dict(self.table).items()]
            stub = self.stub and [[json.dumps([c[k] for k in ORDER], separators=(",", ":")), self.stub(c)] for c in self.combos]
            try:
                r = server("page").ask({"events": events, "table": t, "stub": stub})
            except BaseException:
                drop("page")
                raise
            if "err" in r:
                raise RuntimeError("page: " + str(r))
            return [{k: tuple(v) if isinstance(v, list) else v for k, v in s.items()} for s in r["ok"]]
        listeners, timers, out = {}, {}, []
        code("page")
        els = {e["id"]: Element(e) for e in _elements[repo_root(), "page"]}
        count = [0]

        def later(f=None, *_):
            count[0] += 1
            timers[count[0]] = f
            return count[0]
        document = jsrt.Obj({"getElementById": lambda i=None, *_: els.get(i, jsrt.NULL), "addEventListener": hear(listeners)})
        host = {"addEventListener": hear(listeners), "setTimeout": later, "clearTimeout": lambda i=None, *_: timers.pop(i, None),
                "document": document}
        jsrt.HOST.clear()
        jsrt.HOST.update(host, window=jsrt.Obj(dict(host)))

        def say(table, kind, target):
            for f in list(table.get(kind, ())):
                jsrt.callv(f, jsrt.Obj({"type": kind, "target": target}))

        def step(f):
            error = None
            try:
                f()
            except jsrt.CAUGHT as e:
                error = jsrt.error_name(e)
            s = {"error": error}
            for k, e in els.items():
                s[k] = (e.className, e.innerHTML)
            out.append(s)

        def start():
            t = None
            if self.table is not None:
                t = SDict()
                for k, v in self.table:
                    t[k] = list(v)
            ns, names = load("page", t)
            self.ns, self.names = ns, names
            if self.stub:
                def made(w=None, s=None, *_):
                    kw = {mine: jsrt.get(s, js) for mine, js in SETTINGS.items()}
                    r = self.stub(kw)
                    if r is None:
                        raise jsrt.JSError("none")
                    return r
                ns[names["getLujvo"]] = made
            say(listeners, "DOMContentLoaded", jsrt.NULL)

        def fire():
            due = list(timers.values())
            timers.clear()
            for f in due:
                jsrt.callv(f)
        step(start)
        for what, x in events:
            if what == "type":
                def act():
                    els["source"].value = x
                    say(els["source"].own, "input", els["source"])
            elif what == "click":
                def act():
                    say(els[x].own, "click", els[x])
            else:
                act = fire
            step(act)
        jsrt.HOST.clear()
        return out


ORDER = ("generate_cmevla", "y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz")
