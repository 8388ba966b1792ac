"""Relaxed settings only add words."""
from .lib import *
from . import strjobs

ID = "P13"
BOUNDS = strjobs.BOUNDS
OUTSIDE = strjobs.OUTSIDE
REACH = ("CLUSTER-TWO_CONSONANTS", "TWO_CONSONANTS-ONE_CONSONANT", "y", "exp", "glides")


def jobs(tier):
    n = 5 if tier == "quick" else 7
    out = []
    for x in strjobs.standard(tier, n, n, light=True):
        for k in ("cons1", "cons2", "y", "exp", "glides"):
            out.append((k, x))
    return out


def prop(h, job):
    k, tmpl = job
    s = string(h, tmpl)
    if k == "cons1":
        a_, b_, rest, label = {"consonants": "CLUSTER"}, {"consonants": "TWO_CONSONANTS"}, {}, "CLUSTER-TWO_CONSONANTS"
    elif k == "cons2":
        a_, b_, rest, label = ({"consonants": "TWO_CONSONANTS"}, {"consonants": "ONE_CONSONANT"}, {},
                               "TWO_CONSONANTS-ONE_CONSONANT")
    elif k == "y":
        a_, b_, rest, label = {"y_hyphens": "STANDARD"}, {"y_hyphens": "ALLOW_Y"}, {}, "y"
    elif k == "exp":
        a_, b_, rest, label = {"exp_rafsi_shapes": False}, {"exp_rafsi_shapes": True}, {}, "exp"
    else:
        a_, b_, rest, label = {"glides": False}, {"glides": True}, {"exp_rafsi_shapes": False}, "glides"
    names = [n for n in ("y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz") if n not in a_]
    st = settings(h, names, **rest)
    a = Api(h)
    r1 = a.analyse(s, **a_, **st)
    if r1 is None and label != "glides":
        h.record(None)
        return
    r2 = a.analyse(s, **b_, **st)
    h.record(r1, r2)
    if r1 is None:
        h.check(r2 is None, "glides decide nothing without experimental rafsi")
        return
    h.reach(label)
    h.check(r2 is not None, "an accepted word stays accepted")
    if r2 is not None:
        h.check(r1[0] == r2[0], "same type")
        h.check(len(r1[1]) == len(r2[1]) and h.And(*[h.eq(p, q) for p, q in zip(r1[1], r2[1])]), "same pieces")
