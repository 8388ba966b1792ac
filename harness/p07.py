"""Lossless decomposition."""
from .lib import *
from . import strjobs

ID = "P07"
BOUNDS = strjobs.BOUNDS
OUTSIDE = strjobs.OUTSIDE
REACH = ("GISMU", "LUJVO", "EXTENDED_LUJVO", "ZIhEVLA", "CMEVLA", "raw")


def jobs(tier):
    n = 6 if tier == "quick" else 7
    raw = [("raw", x) for x in strjobs.standard(tier) if tlen(x) <= n or "LL" not in x]
    return strjobs.standard(tier) + raw


def raw(h, tmpl):
    """The decomposing functions called directly: whatever they accept, they return in full."""
    s = string(h, tmpl)
    st = settings(h)
    a = Api(h)
    k = a.world.load("katna")
    errors = (a.DecompositionError, a.InvalidClusterError, a.NotBrivlaError)
    try:
        p = k.jvokaha_2(s, y_hyphens=st["y_hyphens"], allow_mz=st["allow_mz"])
    except errors:
        h.record(None)
        return
    h.record(p)
    h.reach("raw")
    h.check(h.eq(join(h, p), s), "the raw pieces spell the string")
    for x in p:
        h.check(len(x) > 0, "no empty piece")


def prop(h, job):
    if isinstance(job, tuple):
        return raw(h, job[1])
    s = string(h, job)
    st = settings(h)
    a = Api(h)
    r = a.analyse(s, **st)
    if r is None:
        h.record(None)
        return
    t, p = r
    h.record(t, p)
    h.reach(t)
    h.check(h.eq(join(h, p), s), "the pieces spell the word")
    if t in ("GISMU", "ZIhEVLA"):
        h.check(len(p) == 1, "a gismu or zi'evla is one piece")
        return
    hy = [bool(is_hyphen(h, x)) for x in p]
    h.check(len(p) - sum(hy) >= 2, "at least two rafsi")
    h.check(not hy[0] and not hy[-1], "a rafsi at either end")
    for x, y in zip(hy, hy[1:]):
        h.check(not (x and y), "no two hyphens in a row")
    for x, is_h in zip(p, hy):
        h.check(len(x) > 0, "no empty piece")
        if not is_h:
            h.check(h.Not(h.isin("y", x)), "no y inside a rafsi")
            h.check(h.isin(x[0], C + V), "a rafsi starts with a letter")
            h.check(h.isin(x[-1], C + V), "a rafsi ends with a letter")
    h.check(h.eq(t == "CMEVLA", h.isin(s[-1], C)), "cmevla end in a consonant, brivla in a vowel")
