"""The Rust crate as a harness sees it: symbolically (its MIR, translated) and concretely (a small server binary).

Both are built from the current sources in a temporary directory, with whatever versions of its dependencies are
installed; the child processes of a check find the build by an environment variable.
"""
import atexit
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
import tomllib

from . import core, mir2py, rsrt
from .values import SDict, SymBool, SymChoice, wrap

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rs")
VAR = "LATKERLO_RSBUILD"
FIELDS = ("generate_cmevla", "y_hyphens", "consonants", "exp_rafsi", "glides", "allow_mz")
OURS = {"exp_rafsi": "exp_rafsi_shapes"}
YS = ("STANDARD", "ALLOW_Y", "FORCE_Y")
YV = ("Standard", "AllowY", "ForceY")
CONS = ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT")
CV = ("Cluster", "TwoConsonants", "OneConsonant")
TYPES = {"Gismu": "GISMU", "Zihevla": "ZIhEVLA", "Lujvo": "LUJVO", "ExtendedLujvo": "EXTENDED_LUJVO", "Rafsi": "RAFSI", "Cmevla": "CMEVLA"}


class Broken(Exception):
    """The Rust does not build."""


def repo_root():
    return os.environ.get("LATKERLO_REPO", "/repo")


def run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise Broken(" ".join(cmd) + ": " + (p.stderr + p.stdout)[-1500:])


def manifest(src):
    """The crate's Cargo.toml without versions of dependencies."""
    with open(src, "rb") as f:
        t = tomllib.load(f)
    p = t["package"]
    out = ["[package]", 'name = "%s"' % p["name"], 'version = "%s"' % p["version"], 'edition = "%s"' % p.get("edition", "2021"),
           "autobins = false", "[lib]", 'path = "src/lib.rs"', "[dependencies]"]
    for k, v in t.get("dependencies", {}).items():
        o = {"version": "*"}
        if isinstance(v, dict):
            o.update({x: y for x, y in v.items() if x in ("features", "default-features", "package")})
        out.append("%s = { %s }" % (k, ", ".join("%s = %s" % (x, json.dumps(y)) for x, y in o.items())))
    return p["name"], "\n".join(out) + "\n[profile.dev]\ndebug = 0\n[workspace]\n"


TABLE = """#[path = "rafsi_real.rs"]
mod real;
pub static RAFSI: %s = std::sync::LazyLock::new(|| match std::env::var("RS_TABLE") {
    Err(_) => (*real::RAFSI).clone(),
    Ok(t) => t.lines().map(|l| {
        let l: &'static str = Box::leak(l.to_string().into_boxed_str());
        let (k, v) = l.split_once('=').unwrap();
        (k.into(), v.split_whitespace().map(|x| x.into()).collect())
    }).collect(),
});
"""


def build(d, cli=False):
    """mir.json and server in directory d; cli: of the command line program, as a module of the crate."""
    rs = os.path.join(repo_root(), "rs")
    name, toml = manifest(os.path.join(rs, "Cargo.toml"))
    crate = name.replace("-", "_")
    base = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        base.pop(k, None)
    for n in ("a", "b"):
        shutil.copytree(os.path.join(rs, "src"), os.path.join(d, n, "src"))
        with open(os.path.join(d, n, "Cargo.toml"), "w", encoding="utf-8") as f:
            f.write(toml)
    if cli:
        with open(os.path.join(d, "a", "src", "lib.rs"), "a", encoding="utf-8") as f:
            f.write('\nextern crate self as %s;\n#[path = "main.rs"]\npub mod cli_main;\n' % crate)
        with open(os.path.join(d, "b", "Cargo.toml"), "a", encoding="utf-8") as f:
            f.write('[[bin]]\nname = "cli"\npath = "src/main.rs"\n')
    # the server's crate reads its dictionary from the environment
    rafsi = os.path.join(d, "b", "src", "rafsi.rs")
    with open(rafsi, encoding="utf-8") as f:
        text = f.read()
    m = re.search(r"pub static RAFSI\s*:\s*(.*?)\s*=\s*(?:std::sync::)?LazyLock::new", text, re.S)
    if m:
        os.rename(rafsi, os.path.join(d, "b", "src", "rafsi_real.rs"))
        uses = "\n".join(re.findall(r"^use [^;]*;", text, re.M))
        with open(rafsi, "w", encoding="utf-8") as f:
            f.write("#![allow(unused_imports)]\n" + uses + "\n" + TABLE % m.group(1))
    os.makedirs(os.path.join(d, "s", "src"))
    shutil.copy(os.path.join(HERE, "server.rs"), os.path.join(d, "s", "src", "main.rs"))
    with open(os.path.join(d, "s", "Cargo.toml"), "w", encoding="utf-8") as f:
        f.write('[package]\nname = "server"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n%s = { path = "../b" }\n'
                "[profile.dev]\ndebug = 0\nopt-level = 1\n[profile.dev.package.\"*\"]\nopt-level = 1\n[workspace]\n" % name)
    errors = []

    def server():
        try:
            e = dict(base)
            if cli:
                run(["cargo", "build", "--offline", "-q", "--bin", "cli"], e, os.path.join(d, "b"))
                shutil.copy(os.path.join(d, "b", "target", "debug", "cli"), os.path.join(d, "server"))
                return
            run(["cargo", "build", "--offline", "-q"], e, os.path.join(d, "s"))
            shutil.copy(os.path.join(d, "s", "target", "debug", "server"), os.path.join(d, "server"))
        except BaseException as x:      # noqa: BLE001
            errors.append(x)

    def dump():
        try:
            sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
            tool = os.path.join(d, "mirdump")
            t = threading.Thread(target=deps)
            t.start()
            run(["rustc", "+nightly", "--edition", "2021", "-Copt-level=1", os.path.join(HERE, "mirdump.rs"), "-o", tool], base, d)
            t.join()
            if errors:
                return
            models = os.path.join(d, "models.txt")
            with open(models, "w", encoding="utf-8") as f:
                f.write("\n".join(rsrt.names()))
            e = dict(base, LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=tool, MIRDUMP_CRATE=crate,
                     MIRDUMP_OUT=os.path.join(d, "mir.json"), MIRDUMP_MODELS=models)
            run(["cargo", "+nightly", "check", "--offline", "--lib", "-q"], e, os.path.join(d, "a"))
        except BaseException as x:      # noqa: BLE001
            errors.append(x)

    def deps():
        # the dependencies alone, while the tool compiles; the crate itself is checked again with the tool
        try:
            run(["cargo", "+nightly", "check", "--offline", "--lib", "-q"], base, os.path.join(d, "a"))
            os.utime(os.path.join(d, "a", "src", "lib.rs"))
        except BaseException as x:      # noqa: BLE001
            errors.append(x)

    ts = [threading.Thread(target=server), threading.Thread(target=dump)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]
    for n in ("a", "b", "s"):
        shutil.rmtree(os.path.join(d, n, "target"), ignore_errors=True)


_dir = []


def prepare(cli=False):
    """Builds once per check; its child processes use the same build."""
    if _dir:
        return _dir[0]
    d = os.environ.get(VAR)
    if d and os.path.exists(os.path.join(d, "server")):
        _dir.append(d)
        return d
    d = tempfile.mkdtemp(prefix="latkerlo-rs-")
    pid = os.getpid()
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    build(d, cli)
    os.environ[VAR] = d
    _dir.append(d)
    world()
    return d


_world = []


def world():
    if not _world:
        with open(os.path.join(prepare(), "mir.json"), encoding="utf-8") as f:
            _world.append(mir2py.World(json.load(f)))
    return _world[0]


# --------------------------------------------------------------- concrete

_servers = {}


class Server:
    def __init__(self, table):
        e = dict(os.environ)
        e.pop("RS_TABLE", None)
        if table is not None:
            e["RS_TABLE"] = table
        self.p = subprocess.Popen([os.path.join(prepare(), "server")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  text=True, bufsize=1, env=e)

    def ask(self, *q):
        self.p.stdin.write("\t".join(q) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the Rust server ended")
        return line.rstrip("\n").split("\t")

    def close(self):
        self.p.kill()
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait()


def server(table):
    """A process for the dictionary; a few are kept."""
    k = (os.getpid(), table)
    s = _servers.get(k)
    if s is None or s.p.poll() is not None:
        for o in [o for o in _servers if o[0] != k[0]]:
            del _servers[o]
        while len(_servers) >= 4:
            _servers.pop(next(iter(_servers))).close()
        if not _servers:
            pid = os.getpid()
            atexit.register(lambda: [x.p.kill() for x in _servers.values()] if os.getpid() == pid else None)
        s = _servers[k] = Server(table)
    return s


def drop(table):
    s = _servers.pop((os.getpid(), table), None)
    if s is not None:
        s.close()


def hexed(s):
    return s.encode("utf-8", "surrogatepass").hex()


def unhex(s):
    return bytes.fromhex(s).decode("utf-8")


def concrete_settings(kw):
    v = []
    for f in FIELDS:
        x = kw.get(OURS.get(f, f), 0)
        v.append(YS.index(x) if f == "y_hyphens" and x else CONS.index(x) if f == "consonants" and x else int(bool(x)))
    return ",".join(map(str, v))


def parse_fields(s):
    v = [int(x) for x in s.split(",")]
    return dict(zip([OURS.get(f, f) for f in FIELDS], [bool(v[0]), YS[v[1]], CONS[v[2]], bool(v[3]), bool(v[4]), bool(v[5])]))


def pairs(s):
    return [[int(x) for x in p.split("-")] for p in s.split(",") if p]


def strings(n, s):
    v = [unhex(x) for x in s.split(",")] if int(n) else []
    return v


# --------------------------------------------------------------- both


def variant_table(w, ty):
    for t in w.types.values():
        if t and t["k"][0] == "adt" and t["k"][1].split("::")[-1] == ty and t["k"][5]:
            return [v[0].split("::")[-1] for v in t["k"][4]]
    raise core.EngineError("Rust: no enum " + ty)


def settings_fields(w):
    return w.adts["Settings"]["k"][4][0][1]


def symbolic_settings(w, kw):
    """The struct's fields, in its order."""
    out = []
    for f in settings_fields(w):
        name, ty = f[0], f[1]
        if name not in FIELDS:
            raise core.EngineError("Rust: setting " + name)
        x = kw.get(OURS.get(name, name))
        if name in ("y_hyphens", "consonants"):
            names = variant_table(w, w.kind(ty)[1].split("::")[-1])
            ours, theirs = (YS, YV) if name == "y_hyphens" else (CONS, CV)
            out.append(as_variant(x if x is not None else ours[0], lambda v: names.index(theirs[ours.index(v)])))
        else:
            out.append(wrap(x.truth()) if type(x) is SymChoice else x if type(x) is SymBool else bool(x))
    return out


def as_variant(x, f):
    if type(x) is SymChoice:
        return SymChoice(x.var, tuple(f(v) for v in x.outs))
    return f(x)


def py_settings(w, s):
    d = {}
    for (name, ty, *_), x in zip(settings_fields(w), s):
        n = OURS.get(name, name)
        if name in ("y_hyphens", "consonants"):
            names = variant_table(w, w.kind(ty)[1].split("::")[-1])
            ours, theirs = (YS, YV) if name == "y_hyphens" else (CONS, CV)
            d[n] = as_variant(x, lambda i: ours[theirs.index(names[i])])
        else:
            d[n] = x
    return d


class RsApi:
    """call(name, args, settings) -> (value, None) or (None, name of the error)."""

    def __init__(self, h, table=None):
        self.h = h
        self.table = table
        self.w = None

    def text_table(self):
        if self.table is None:
            return None
        return "\n".join("%s=%s" % (k, " ".join(v)) for k, v in dict(self.table).items())

    def call(self, name, args, kw=None):
        kw = kw or {}
        if not self.h.symbolic:
            return self.concrete(name, args, kw)
        if self.w is None:
            self.w = world()
            self.w.renew()
            if self.table is not None:
                t = SDict()
                for k, v in self.table:
                    t[k] = list(v)
                self.w.set_static("RAFSI", rsrt.Lazy.made(t))
        try:
            return self.symbolic(name, [rsrt.from_py(x) for x in args], kw)
        except rsrt.Panic as e:
            return None, "panic"
        except RecursionError:
            raise core.EngineError("Rust: recursion")

    def concrete(self, name, args, kw):
        t = self.text_table()
        if name in ("get_lujvo", "get_lujvo_with_analytics") and isinstance(args[0], (list, tuple)):
            flat = list(args[0])
            q = "get_lujvo_from_list"
        elif name == "get_rafsi_indices":
            flat, q = list(args[0]), name
        else:
            flat, q = list(args), name
        try:
            r = server(t).ask({"analyse_brivla": "analyze_brivla"}.get(q, q), concrete_settings(kw), *[hexed(x) for x in flat])
        except BaseException:
            drop(t)
            raise
        if r[0] == "err":
            return None, r[1]
        if name == "get_lujvo":
            return unhex(r[1]), None
        if name == "get_lujvo_with_analytics":
            return [unhex(r[1]), int(r[2]), pairs(r[3])], None
        if name == "get_veljvo":
            return strings(r[1], r[2]), None
        if name == "score_lujvo":
            return int(r[1]), None
        if name == "is_brivla":
            return r[1] == "1", None
        if name == "analyse_brivla":
            return [TYPES.get(r[1], r[1]), strings(r[2], r[3])], None
        if name in ("normalize", "show"):
            return unhex(r[1]), None
        if name == "get_rafsi_indices":
            return pairs(r[1]), None
        if name == "parse":
            return parse_fields(r[1]), None
        if name == "apply_flags":
            return [r[0] == "ok", parse_fields(r[1])], None
        if name == "all_settings":
            return [parse_fields(x) for x in r[1].split(";")], None
        raise AssertionError(name)

    def result(self, r, f=lambda v: v):
        w = self.w
        if r[0] == 0:
            return f(r[1]), None
        e = rsrt.D(r[1])
        names = variant_table(w, "Jvonunfli")
        return None, names[e[0] if isinstance(e, list) else e]

    def symbolic(self, name, a, kw):
        w = self.w
        s = symbolic_settings(w, kw)
        if name in ("get_lujvo", "get_lujvo_with_analytics"):
            if isinstance(a[0], list):
                r = w.call("jvozba::get_lujvo_from_list", a[0], s)
                return self.result(r, lambda v: v[0] if name == "get_lujvo" else [v[0], v[1], [list(p) for p in v[2]]])
            if name == "get_lujvo":
                return self.result(w.call("jvozba::get_lujvo", a[0], s))
            return self.result(w.call("jvozba::get_lujvo_with_analytics", a[0], s), lambda v: [v[0], v[1], [list(p) for p in v[2]]])
        if name == "get_veljvo":
            return self.result(w.call("katna::get_veljvo", a[0], s))
        if name == "score_lujvo":
            return self.result(w.call("katna::score_lujvo", a[0], s))
        if name == "is_brivla":
            return w.call("tools::is_brivla", a[0], s), None
        if name == "analyse_brivla":
            ts = variant_table(w, "BrivlaType")
            return self.result(w.call("tools::analyze_brivla", a[0], s), lambda v: [TYPES.get(ts[v[0]], ts[v[0]]), v[1]])
        if name == "normalize":
            return w.call("tools::normalize", a[0]), None
        if name == "get_rafsi_indices":
            return [list(p) for p in w.call("tools::get_rafsi_indices", a[0])], None
        if name == "show":
            return rsrt.display(w, s, self.settings_ty()), None
        if name == "parse":
            r = w.impl("tarmi::Settings", "FromStr::from_str")(a[0])
            return (None, "SettingsError") if r[0] else (py_settings(w, r[1]), None)
        if name == "apply_flags":
            r = w.call("tarmi::Settings::apply_flags", rsrt.box(s) if False else rsrt.Ref([s], 0), a[0])
            return [r[0] == 1, py_settings(w, s)], None
        if name == "all_settings":
            v = w.static("latkerlo_jvotci::tarmi::SETTINGS_ITERATOR")
            return [py_settings(w, x) for x in v.force()], None
        raise AssertionError(name)

    def settings_ty(self):
        w = self.w
        return next(i for i, t in w.types.items() if t and t["k"][0] == "adt" and t["k"][1].endswith("::Settings"))


# --------------------------------------------------------------- the command line program


class Ended(Exception):
    """process::exit"""


class Cli:
    """main.rs: arguments and lines in; (exit code or "panic", [text up to each reading of a line]) out."""

    def __init__(self, h, table=None):
        self.h, self.table = h, table

    def run(self, args, lines):
        if not self.h.symbolic:
            e = dict(os.environ, RUST_BACKTRACE="0")
            e.pop("RS_TABLE", None)
            if self.table is not None:
                e["RS_TABLE"] = "\n".join("%s=%s" % (k, " ".join(v)) for k, v in dict(self.table).items())
            try:
                p = subprocess.run([os.path.join(prepare(True), "server")] + [str(a) for a in args], env=e, timeout=10,
                                   input="".join(x + "\n" for x in lines), capture_output=True, text=True)
            except subprocess.TimeoutExpired:
                return "endless", []
            # a reading of a line is between these two
            return "panic" if p.returncode == 101 else p.returncode, p.stdout.split("\x1b[1m\x1b[m")
        w = world()
        w.renew()
        if self.table is not None:
            t = SDict()
            for k, v in self.table:
                t[k] = list(v)
            w.set_static("RAFSI", rsrt.Lazy.made(t))
        io = rsrt.IO
        io.clear()
        io.update(args=["jvotci"] + list(args), lines=[x + "\n" for x in lines], out=[[]], ends=0)
        try:
            w.call("cli_main::main")
            rc = 0
        except Ended as e:
            rc = e.args[0]
        except rsrt.Panic:
            rc = "panic"
        except RecursionError:
            raise core.EngineError("Rust: recursion")
        from .values import s_join
        return rc, [s_join("", x) for x in io["out"]]
