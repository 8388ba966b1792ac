"""Spelling variants are the same word."""
from .lib import *

ID = "P11"
BOUNDS = ("every string of up to 6 (thorough 7) letters and the listed word templates, each letter in either case, h or H or "
          "' for the apostrophe, an optional leading period, up to three commas; all settings")
OUTSIDE = "longer strings off the templates; more commas or periods"
REACH = ("word", "none")

PAIRS = [c + d for c in C + V + ["y"] for d in (c, c.upper())] + ["''", "'h", "'H"]
CONS_ = [c + d for c in C for d in (c, c.upper())]
VOW_ = [c + d for c in V for d in (c, c.upper())]
AP_ = ["''", "'h", "'H"]
CLS = {"L": PAIRS, "C": CONS_, "V": VOW_, "'": AP_, "y": ["yy", "yY"], "I": None, "P": None}


def jobs(tier):
    out = []
    n = 6 if tier == "quick" else 7
    for k in range(0, n + 1):
        for dot in (False, True):
            out.append(("L" * k, dot, None))
    for k in range(1, n):
        for pos in range(0, k + 1):
            out.append(("L" * k, False, pos))
    for t in ("CVCyCVCCV", "CCVCVCV", "VCCVCy'VCCV", "CV'VrCCV", "CVC'yCVV", "CCV'VCV", "CVCCVC"):
        for dot in (False, True):
            for pos in (None, 0, 2, len(t) - 1, len(t)):
                out.append((t, dot, pos))
    for t, ps in (("CVCyCVCCV", (2, 4)), ("CVCyCVCCV", (3, 9)), ("CV'VCCV", (0, 0)), ("CCVCVCV", (5, 5)), ("LLLLL", (1, 3)),
                  ("LLLL", (0, 4)), ("CVCyCVCCV", (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)), ("CCVCV", (1, 1, 1, 2, 2, 3, 4)), ("VCCVCVCCV", (1, 2, 3, 4, 5)), ("CVC'yCVV", (1, 3, 6))):
        out.append((t, False, ps))
        out.append((t, True, ps))
    for t, ps in (("blaCVCgauCCVkla'aCVV", (6, 11)), ("CVVrgauCVCblabroda", (4, 12)), ("CCVCVCVspagetiV", (1, 13)), ("mlatyCVCCyba'aCVV", (3, 10))):
        for dot in (False, True):
            out.append((t, dot, None))
            out.append((t, dot, ps))
    return out


def prop(h, job):
    tmpl, dot, pos = job
    pos = pos if isinstance(pos, tuple) else () if pos is None else (pos,)
    base, var = "", ""
    for i, ch in enumerate(tmpl):
        x = h.chars("c%d" % i, CLS.get(ch, [ch + ch, ch + ch.upper()]))
        base = base + x[0]
        var = var + "," * pos.count(i)
        var = var + x[1]
    var = var + "," * pos.count(len(tmpl))
    if dot:
        var = "." + var
    st = settings(h)
    a = Api(h, table=[])
    r1 = a.analyse(base, **st)
    r2 = a.analyse(var, **st)
    h.record(r1, r2)
    h.reach("none" if r1 is None else "word")
    if r1 is None or r2 is None:
        h.check(r1 is None and r2 is None, "accepted together")
        return
    h.check(h.eq(r1[0], r2[0]), "same type")
    h.check(len(r1[1]) == len(r2[1]) and h.And(*[h.eq(x, y) for x, y in zip(r1[1], r2[1])]), "same pieces")
    h.check(h.eq(a.is_brivla(var, **st), a.is_brivla(base, **st)), "is_brivla the same")
    if r1[0] in ("GISMU", "ZIhEVLA"):
        return
    v1 = a.get_veljvo(base, **st)
    v2 = a.get_veljvo(var, **st)
    h.check(len(v1) == len(v2) and h.And(*[h.eq(x, y) for x, y in zip(v1, v2)]), "same veljvo")
    h.check(h.eq(a.score_lujvo(base, **st), a.score_lujvo(var, **st)), "same score")
