"""Analysis of any string ends with a result or a documented error."""
from .lib import *
from . import strjobs

ID = "P06"
BOUNDS = ("every string of up to 4 (thorough 5) printable ASCII or selected non-ASCII characters, up to 5 (6) "
          "Lojban characters of either case with h, commas and periods, up to 6 (7) Lojban letters, and the word "
          "templates; all settings")
OUTSIDE = strjobs.OUTSIDE + "; non-string arguments"
REACH = ("GISMU", "LUJVO", "EXTENDED_LUJVO", "ZIhEVLA", "CMEVLA", "NotBrivlaError", "DecompositionError")
TYPES = ("GISMU", "LUJVO", "EXTENDED_LUJVO", "ZIhEVLA", "CMEVLA")


def jobs(tier):
    q = tier == "quick"
    out = ["*" * n for n in range(0, (3 if q else 4) + 1)]
    out += ["N" * n for n in range(1, (4 if q else 5) + 1)]
    return out + strjobs.standard(tier, 6, 7, light=True)


def prop(h, job):
    s = string(h, job)
    st = settings(h)
    a = Api(h, table=[])
    try:
        t, p = a.analyse_brivla(s, **st)
    except a.NotBrivlaError:
        h.reach("NotBrivlaError")
        t = None
        h.record(None)
    else:
        h.record(t, p)
        h.reach(t)
        h.check(t in TYPES, "a documented word type")
        h.check(isinstance(p, list) and len(p) > 0, "a list of pieces")
    b = a.is_brivla(s, **st)
    h.check(b is True or b is False, "is_brivla is a bool")
    try:
        v = a.get_veljvo(s, **st)
        h.record(v)
        h.check(isinstance(v, list) and len(v) >= 2, "a veljvo has two components or more")
    except a.VEL_ERRORS as e:
        h.record(type(e).__name__)
        h.reach(type(e).__name__)
    try:
        h.record(a.score_lujvo(s, **st))
    except a.VEL_ERRORS as e:
        h.record(type(e).__name__)
