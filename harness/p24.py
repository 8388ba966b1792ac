"""The dictionaries of the implementations agree."""
import os
import re

from engine import jsworld

from .lib import *

ID = "P24"
BOUNDS = "every word and every rafsi of any of the dictionaries (Python, js/docs, js/src, Rust)"
OUTSIDE = "the order of a word's rafsi; a Rust table that is not a literal list of (word, rafsi) entries is left out"
REACH = ("word", "rafsi")
ASSUMPTIONS = ["the Python and JavaScript tables are those the executed sources build; the Rust table is read from its literal"]
SHORT = {"CVC": "[bcdfgjklmnprstvxz][aeiou][bcdfgjklmnprstvxz]", "CCV": "(%s)[aeiou]" % "|".join(I),
         "CVV": "[bcdfgjklmnprstvxz](%s)" % "|".join(D), "CVhV": "[bcdfgjklmnprstvxz][aeiou]'[aeiou]"}
SHORT = re.compile("|".join(SHORT.values()))


def rust():
    fn = os.path.join(jsworld.repo_root(), "rs", "src", "rafsi.rs")
    try:
        with open(fn, encoding="utf-8") as f:
            text = f.read()
    except OSError:
        return None
    toks = re.findall(r'//[^\n]*|/\*.*?\*/|"([^"]*)"|([(),\[\]])', text, re.S)
    out, cur = {}, None
    for s, p in toks:
        if p == "(":
            cur = []
        elif p == ")":
            if cur:
                if cur[0] in out:
                    return None
                out[cur[0]] = cur[1:]
            cur = None
        elif s and cur is not None:
            cur.append(s)
    return out if len(out) > 100 else None


def javascript(variant):
    ns, names = jsworld.load(variant)
    m = ns[names["RAFSI_LIST"]] if "RAFSI_LIST" in names else ns["g_RAFSI_LIST"]
    return {str(k): [str(x) for x in m.d[k]] for k in list(m.d.keys())}


def tables(h):
    t = h.world().load("rafsi").RAFSI_LIST
    out = {"Python": {str(k): [str(x) for x in t[k]] for k in list(t.keys())}}
    for v in ("docs", "src"):
        if h.symbolic:
            out["js/" + v] = js_table(v)
        else:
            r = jsworld.server(v).ask({"fn": "(() => [...RAFSI_LIST])", "args": [], "table": None})
            out["js/" + v] = {k: list(x) for k, x in r["ok"]}
    r = rust()
    if r is not None:
        out["Rust"] = r
    return out


_js = {}


def js_table(v):
    k = jsworld.repo_root(), v
    if k not in _js:
        _js[k] = javascript(v)
    return _js[k]


def jobs(tier):
    return ["word", "rafsi"]


def prop(h, job):
    ts = tables(h)
    names = sorted(ts)
    if job == "word":
        w = h.choice("w", sorted(set().union(*ts.values())))
        h.reach("word")
        first = None
        for n in names:
            x = h.image(w, lambda k, t=ts[n]: "/".join(sorted(t[k])) if k in t else "-")
            h.record(x)
            if first is None:
                first = x
            else:
                h.check(h.eq(first, x), "the same rafsi of every word: %s, %s" % (names[0], n))
        return
    owners = {}
    for n in names:
        o = owners[n] = {}
        for w, rs in ts[n].items():
            for r in rs:
                o.setdefault(r, []).append(w)
    r = h.choice("r", sorted(set().union(*owners.values())))
    h.reach("rafsi")
    for n in names:
        x = h.image(r, lambda k, t=owners[n]: len(t.get(k, ())))
        h.record(x)
        h.check(h.isin(x, [0, 1]), "one word for a rafsi: " + n)
    h.check(h.image(r, lambda k: bool(SHORT.fullmatch(k))), "the shape of a short rafsi")
