"""Hyphens appear only where the chosen hyphen rules put them."""
from .lib import *
from . import strjobs

ID = "P18"
BOUNDS = strjobs.BOUNDS
OUTSIDE = strjobs.OUTSIDE
REACH = ("y", "r", "n", "'y", "y'", "'y'")


def jobs(tier):
    return strjobs.standard(tier)


def prop(h, job):
    s = string(h, job)
    st = settings(h)
    a = Api(h)
    r = a.analyse(s, **st)
    if r is None or r[0] in ("GISMU", "ZIhEVLA"):
        h.record(None)
        return
    t, p = r
    h.record(t, p)
    ys = st["y_hyphens"]
    for i, x in enumerate(p):
        if not is_hyphen(h, x):
            continue
        if not 0 < i < len(p) - 1:
            h.fail("a hyphen stands between rafsi")
            continue
        before, after = p[i - 1], p[i + 1]
        for name in REACH:
            if len(x) == len(name) and h.eq(x, name):
                h.reach(name)
                break
        else:
            continue
        if name in ("r", "n"):
            h.check(h.And(h.isin(before[0], C), *[h.isin(c, V + ["'"]) for c in before[1:]], len(before) in (3, 4)),
                    "r and n follow CVV or CV'V")
            h.check(h.eq(h.eq(after[0], "r"), name == "n"), "n exactly before r")
            h.check(h.Not(h.eq(ys, "FORCE_Y")), "no r or n when y is forced")
            h.check(h.isin(after[0], C), "r and n stand before a consonant")
        else:
            if name[0] == "'":
                h.check(h.isin(before[-1], V), "an apostrophe before y stands after a vowel")
            else:
                h.check(h.isin(before[-1], C + ["i", "u"]), "y alone stands after a consonant or an on-glide")
            h.check(h.Implies(h.isin(after[0], V), name[-1] == "'" or len(after) > 1 and h.isin(after[:2], [g + v for g in "iu" for v in "aeiou"])),
                    "a vowel after y takes an apostrophe unless it is a glide")
            h.check(h.Implies(name[-1] == "'", h.isin(after[0], V)), "an apostrophe after y stands before a vowel")
            if name[-1] == "'":
                for n, glides in ((2, [g + v for g in "iu" for v in V]), (3, [g + d for g in "iu" for d in D])):
                    if len(after) >= n:
                        alone = len(after) == n or h.Not(h.isin(after[n], V))
                        h.check(h.Not(h.And(h.isin(after[:n], glides), alone)), "an apostrophe after y stands before no on-glide")
