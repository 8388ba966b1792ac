"""Gismu recognition is exact."""
from .lib import *

ID = "P10"
BOUNDS = "every string of up to 6 (thorough 7) Lojban letters; both mz settings and every other setting symbolic"
OUTSIDE = "longer strings, which have no gismu shape"
REACH = ("GISMU", "other", "none")


def jobs(tier):
    return all_lengths(0, 6 if tier == "quick" else 7) + ["CVPV", "IVCV", "CVCCV", "CCVCV"]


def prop(h, job):
    s = string(h, job)
    st = settings(h)
    a = Api(h)
    r = a.analyse(s, **st)
    t = r and r[0]
    h.record(t)
    h.reach("none" if t is None else "GISMU" if t == "GISMU" else "other")
    if len(s) != 5:
        h.check(t != "GISMU", "a gismu has five letters")
        return
    c = [h.isin(x, C) for x in s]
    v = [h.isin(x, V) for x in s]
    pair = h.Or(h.isin(s[2:4], PERM), h.And(h.eq(s[2:4], "mz"), st["allow_mz"]))
    g = h.Or(h.And(c[0], v[1], c[2], c[3], v[4], pair), h.And(c[0], c[1], v[2], c[3], v[4], h.isin(s[:2], I)))
    h.check(h.eq(g, t == "GISMU"), "GISMU exactly for CVC/CV and CCVCV with permissible clusters")
    if t == "GISMU":
        h.check(h.eq(r[1][0], s), "one piece")
    b = a.is_brivla(s, **st)
    h.check(h.Implies(g, b), "every gismu is a brivla")
