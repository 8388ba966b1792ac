"""The web page (index.html, demo_page.js)."""
import itertools

from engine import jsworld

from .lib import *

ID = "P29"
BOUNDS = ("the page in a stand-in for a browser (elements of index.html, events, timers): histories of up to 4 (5) arbitrary events, each a click "
          "or a text of the listed ones; lujvo as a function of the settings that depends on any subset of them and differs at one "
          "(thorough two) arbitrary combinations; words of up to 3 (4) arbitrary Lojban letters and templates, tanru of two components, analysed "
          "by the page's library under all 72 settings")
OUTSIDE = "layout and style; longer words; the browser itself; the library's own correctness (P22, P23)"
REACH = ("word", "not a word", "lujvo", "no lujvo", "easy", "empty", "table")

FIELDS = ("y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz")
VALUES = (("STANDARD", "ALLOW_Y", "FORCE_Y"), (False, True), ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"), (False, True), (False, True))
LABELS = {"STANDARD": (0, "STANDARD"), "ALLOW_Y": (0, "ALLOW_Y"), "FORCE_Y": (0, "FORCE_Y"), "STD_RAF": (1, False), "EXP_RAF": (1, True),
          "CLUSTER": (2, "CLUSTER"), "2_CON": (2, "TWO_CONSONANTS"), "1_CON": (2, "ONE_CONSONANT"), "NO_GLIDE": (3, False),
          "GLIDE": (3, True), "NOMZ": (4, False), "MZ": (4, True)}
COMBOS = [dict(zip(FIELDS, c)) for c in itertools.product(*VALUES)]
BUTTONS = ("brivla", "cmevla", "ezmode")
TEXTS = ["", "nam zba", "-ra'e- -la'o-", "namzba", "-nam- -zan-", "?"]

jsworld.code("page")


def jobs(tier):
    q = tier == "quick"
    masks = list(itertools.product((0, 1), repeat=5))
    out = [("mask", m, 0) for m in masks]
    out += [("mask", m, 1) for m in masks if sum(m) < (2 if q else 4)]
    if not q:
        out += [("mask", m, 2) for m in masks if sum(m) < 2]
    out += [("events", n) for n in range(1, 4 if q else 5)]
    out += [("word", t) for t in ["L", "LL", "LLL", "CVPV", "CVV", "VPVCyIV", "CVCCVC", "IVCVC", "CVPIV", "VPV", "CVCV'V", "CVCCVV"][:7 if q else None]]
    out += [("tanru", k) for k in ((("cvc", "ccv"), ("=_CV'V_", "=_VV_")) if q else
                                   (("cvc", "ccv"), ("=_CV'V_", "=_VV_"), ("cvc", "cvc"), ("cvv", "ccv"), ("=_V_", "=_CVV_")))]
    return out


def rows(h, html):
    """[[(tag, classes, rowspan, colspan, content characters)]] of the table's rows."""
    out, tag, at = [], None, 0
    cell = None
    for ch in html:
        if tag is None:
            if h.eq(ch, "<"):
                tag = ""
            elif cell is not None:
                cell[4].append(ch)
            continue
        if not h.eq(ch, ">"):
            tag = tag + ch
            continue
        t, tag = str(tag), None
        name = t.split()[0].lower() if t.split() else ""
        if name == "tr":
            out.append([])
        elif name in ("td", "th"):
            at = dict(a.split("=", 1) for a in t.replace('"', "").split()[1:] if "=" in a)
            cell = [name, at.get("class", ""), int(at.get("rowspan", 1)), int(float(at.get("colspan", 1))), []]
            out[-1].append(cell)
        elif name in ("/td", "/th"):
            cell = None
        elif name == "br" and cell is not None:
            cell[4].append("\n")
    return out


def text_of(h, chars):
    return join(h, chars)


def label(chars):
    t = "".join(c if isinstance(c, str) else "?" for c in chars)
    return LABELS.get(t)


def cells(h, html):
    """[(labels, class, text)] of the result cells, by the rules of HTML tables."""
    grid, results = {}, []
    for y, row in enumerate(rows(h, html)):
        x = 0
        for name, cls, rs, cs, content in row:
            while (y, x) in grid:
                x += 1
            lab = label(content)
            entry = (lab,)
            for i in range(rs):
                for j in range(cs):
                    grid[y + i, x + j] = entry
            if lab is None and name == "td":
                results.append((y, x, cls, content))
            x += cs
    out = []
    for y, x, cls, content in results:
        labs = {}
        ok = True
        for (j, i), (lab,) in grid.items():
            if lab is not None and (j == y and i < x or i == x and j < y):
                ok = ok and labs.get(lab[0], lab[1]) == lab[1]
                labs[lab[0]] = lab[1]
        h.check(ok, "a cell has one value of each setting")
        out.append((labs, cls, text_of(h, content)))
    return out


def shows(h, html, combos, want):
    """The table shows want[i] = (text, class) for combos[i]."""
    cs = cells(h, html)
    h.reach("table")
    for c, (text, cls) in zip(combos, want):
        mine = [x for x in cs if all(c[FIELDS[f]] == v for f, v in x[0].items())]
        h.check(len(mine) == 1, "each combination of settings has one cell")
        h.record((mine[0][2], mine[0][1]))
        h.check(h.eq(mine[0][2], text), "the cell shows the result under its settings")
        h.check(mine[0][1] == cls, "the cell's colour tells the kind of result")
    used = {f for x in cs for f in x[0]}
    # a setting is listed only where it makes a difference
    for f in used:
        groups = {}
        for c, w in zip(combos, want):
            groups.setdefault(tuple(v for k, v in c.items() if k != FIELDS[f]), []).append(w[0])
        h.check(any(not h.eq(g[0], x) for g in groups.values() for x in g[1:]), "a setting listed makes a difference")


def result(h, lib, text, words, cm, c):
    """(text, class) of the cell for the settings c."""
    if words == 0:
        return "", ""
    if words == 1:
        r, err = lib.call("analyse_brivla", [text], c)
        if err:
            h.reach("not a word")
            return "NOT BRIVLA", "red"
        h.reach("word")
        kind, pieces = r
        kind = str(kind)
        t = kind + "\n[" + h_join(h, ", ", pieces) + "]"
        if kind in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
            sel, err = lib.call("selrafsi_list_from_rafsi_list", [pieces], c)
            h.check(not err, "the rafsi have words")
            t = t + "\n" + h_join(h, " ", sel)
        return t, "yellow" if kind == "CMEVLA" else "green"
    r, err = lib.call("get_lujvo", [text], dict(c, generate_cmevla=cm))
    if err:
        h.reach("no lujvo")
        return "NO LUJVO FOUND", "red"
    h.reach("lujvo")
    return r, "yellow" if cm else "green"


def h_join(h, sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return join(h, out)


def buttons(h, s, cm, ez):
    h.check(s["error"] is None, "no error reaches the page")
    for b, on in (("brivla", not cm), ("cmevla", cm), ("ezmode", ez)):
        h.check((s[b][0] == "active") == on, "the buttons show the mode")


def prop(h, job):
    what = job[0]
    if what == "mask":
        mask, n = job[1], job[2]
        points = []
        for i in range(n):
            points.append({f: h.choice("p%d%s" % (i, f), list(vs)) for f, vs in zip(FIELDS, VALUES)})
        memo = {}

        def made(kw):
            k = tuple(kw[f] for f in jsworld.ORDER)
            if k not in memo:
                t = "x" + "".join(str(kw[f])[0] for f, m in zip(FIELDS, mask) if m)
                for i, p in enumerate(points):
                    if all(h.eq(kw[f], p[f]) for f in FIELDS):
                        t = "q%d" % i if i == 0 else None
                memo[k] = t
            return memo[k]
        every = [dict(c, generate_cmevla=cm) for cm in (False, True) for c in COMBOS]
        page = jsworld.Page(h, table=[], stub=made, combos=every)
        states = page.run([("type", "a b"), ("wait", None)])
        buttons(h, states[-1], False, False)
        want = []
        for c in COMBOS:
            t = made(dict(c, generate_cmevla=False))
            want.append((t, "green") if t is not None else ("NO LUJVO FOUND", "red"))
        shows(h, states[-1]["hard-mode"][1], COMBOS, want)
        return
    table = []
    cm, ez = False, False
    if what == "events":
        evs, text = [], ""
        rendered = False
        for i in range(job[1]):
            e = h.choice("e%d" % i, list(BUTTONS) + ["type", "wait"])
            if h.eq(e, "type"):
                text = str_of(h, h.choice("t%d" % i, TEXTS))
                evs.append(("type", text))
                rendered = True
            elif h.eq(e, "wait"):
                evs.append(("wait", None))
            elif h.eq(e, "ezmode"):
                ez, rendered = not ez, True
                evs.append(("click", "ezmode"))
            elif h.eq(e, "cmevla"):
                rendered = rendered or not cm
                cm = True
                evs.append(("click", "cmevla"))
            else:
                rendered = rendered or cm
                cm = False
                evs.append(("click", "brivla"))
        words = len(text.split())
    elif what == "word":
        w = string(h, job[1])
        if len(w):
            h.assume(h.Not(h.eq(w, "")))
        text, words, rendered = w, 1, True
        evs = [("type", " " + w + "  "), ("wait", None)]
    else:
        t, table = tanru(h, job[1])
        text, words, rendered = t[0] + " " + t[1], 2, True
        evs = [("type", " " + t[0] + "  " + t[1]), ("wait", None)]
        if h.eq(h.choice("cm", [False, True]), True):
            cm = True
            evs.insert(0, ("click", "cmevla"))
    page = jsworld.Page(h, table=table)
    states = page.run(evs + [("wait", None)])
    for s in states:
        h.check(s["error"] is None, "no error reaches the page")
    buttons(h, states[-1], cm, ez)
    if not rendered:
        return
    if words == 0:
        h.reach("empty")
    if ez:
        h.reach("easy")
    lib = jsworld.JsApi(h, "docs", table=table)
    combos = COMBOS[:1] if ez else COMBOS
    want = [result(h, lib, text, words, cm, c) for c in combos]
    shows(h, states[-1]["hard-mode"][1], combos, want)


def str_of(h, c):
    for t in TEXTS:
        if h.eq(c, t):
            return t
