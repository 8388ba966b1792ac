"""The public questions about a word agree with each other."""
from .lib import *
from . import strjobs

ID = "P14"
BOUNDS = strjobs.BOUNDS
OUTSIDE = strjobs.OUTSIDE
REACH = ("GISMU", "LUJVO", "EXTENDED_LUJVO", "ZIhEVLA", "CMEVLA", "none")


def jobs(tier):
    return strjobs.standard(tier, 6, 7, light=True)


def prop(h, job):
    s = string(h, job)
    st = settings(h)
    a = Api(h, table=[])
    r = a.analyse(s, **st)
    b = a.is_brivla(s, **st)
    h.record(r, b)
    h.reach(r[0] if r else "none")
    h.check(h.eq(b, r is not None and r[0] != "CMEVLA"), "is_brivla: accepted and not a cmevla")
    ok = r is not None and r[0] in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA")
    try:
        v = a.get_veljvo(s, **st)
    except a.VEL_ERRORS as e:
        v = None
        h.check(r is not None or isinstance(e, a.NotBrivlaError), "not a brivla: NotBrivlaError")
        h.check(r is None or isinstance(e, a.DecompositionError), "not a lujvo: DecompositionError")
    h.check((v is not None) == ok, "a veljvo exists exactly for lujvo and lujvo cmevla")
    try:
        sc = a.score_lujvo(s, **st)
    except a.VEL_ERRORS:
        sc = None
    h.check((sc is not None) == ok, "a score exists exactly for lujvo and lujvo cmevla")
    if ok:
        rafsi = [p for p in r[1] if not is_hyphen(h, p)]
        h.record(v, sc)
        h.check(v is not None and len(v) == len(rafsi), "one veljvo component per rafsi")
        ix = a.get_rafsi_indices(r[1])
        h.check(len(ix) == len(rafsi), "one index pair per rafsi")
        for (x, y), p in zip(ix, rafsi):
            h.check(h.eq(s[x:y], p), "indices delimit the rafsi")
