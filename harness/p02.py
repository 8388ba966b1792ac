"""Analytics tell the truth about the word."""
from .lib import *
from . import tanrujobs

ID = "P02"
BOUNDS = tanrujobs.BOUNDS
OUTSIDE = tanrujobs.OUTSIDE
REACH = ("brivla", "cmevla")


def jobs(tier):
    return tanrujobs.standard(tier)


def prop(h, job):
    kinds, fixed = job
    a, t, tab, st, cm = tanrujobs.setup(h, kinds, fixed)
    try:
        w, sc, ix = a.get_lujvo_with_analytics(list(t), generate_cmevla=cm, **st)
    except a.GEN_ERRORS as e:
        h.record(type(e).__name__)
        try:
            a.get_lujvo(list(t), generate_cmevla=cm, **st)
            h.fail("get_lujvo succeeds where the analytics call fails")
        except a.GEN_ERRORS as e2:
            h.check(type(e2) is type(e), "same error")
        return
    h.record(w, ix)
    w2 = a.get_lujvo(list(t), generate_cmevla=cm, **st)
    h.check(h.eq(w, w2), "get_lujvo gives the same word")
    h.check(len(ix) == len(t), "one index pair per component")
    pos = 0
    for n, (c, k, (b, e)) in enumerate(zip(t, kinds, ix)):
        gap = w[pos:b]
        h.check(h.isin(gap, [""] + list(spec.HYPHENS)) if n else h.eq(gap, ""), "only hyphens lie between rafsi")
        h.check(h.isin(w[b:e], tanrujobs.rafsi_of(c, k, tab, kinds)), "each index pair delimits its component's rafsi")
        pos = e
    h.check(pos == len(w), "the last rafsi ends the word")
    h.reach("cmevla" if h.isin(w[-1], C) else "brivla")
