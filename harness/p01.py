"""Generation round-trips through analysis."""
from .lib import *
from . import tanrujobs

ID = "P01"
BOUNDS = tanrujobs.BOUNDS
OUTSIDE = tanrujobs.OUTSIDE
REACH = ("LUJVO", "EXTENDED_LUJVO", "CMEVLA")


def jobs(tier):
    return tanrujobs.standard(tier)


def prop(h, job):
    kinds, fixed = job
    a, t, tab, st, cm = tanrujobs.setup(h, kinds, fixed)
    try:
        w, sc, ix = a.get_lujvo_with_analytics(list(t), generate_cmevla=cm, **st)
    except a.GEN_ERRORS:
        h.record(None)
        return
    h.record(w)
    r = a.analyse(w, **st)
    if r is None:
        h.fail("a generated word does not decompose")
        return
    ty, pieces = r
    h.record(ty, pieces)
    h.reach(ty)
    h.check(h.eq(ty == "CMEVLA", cm), "type says cmevla exactly when one was asked for")
    h.check(ty in ("CMEVLA", "LUJVO", "EXTENDED_LUJVO"), "type is a lujvo type")
    rafsi = [p for p in pieces if not is_hyphen(h, p)]
    h.check(len(rafsi) == len(t), "one rafsi per component")
    for c, k, p in zip(t, kinds, rafsi):
        h.check(h.isin(p, tanrujobs.rafsi_of(c, k, tab, kinds)), "each rafsi belongs to its component, in order")
