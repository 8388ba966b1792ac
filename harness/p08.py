"""Brivla do not fall apart."""
from .lib import *
from . import strjobs

ID = "P08"
BOUNDS = strjobs.BOUNDS + "; prefixes that are a cmavo or a string of cmavo"
OUTSIDE = strjobs.OUTSIDE + "; experimental rafsi shapes; the listed known findings"
REACH = ("checked",)


def jobs(tier):
    return strjobs.standard(tier, 7, 8)


def cmavo(h, s):
    """s is (C)V, (C)VV, or those joined by apostrophes -- a cmavo, as a condition."""
    n = len(s)
    # good[i]: s[:i] can be read as complete syllables; track by dynamic programming
    good = {0: True}
    start = 1 if n and True else 0
    res = []

    def syl(i):
        """Conditions and ends of one vowel or diphthong at i."""
        out = []
        if i < n:
            out.append((i + 1, h.isin(s[i], V)))
        if i + 1 < n:
            out.append((i + 2, h.isin(s[i:i + 2], D)))
        return out
    def rest(i, cond):
        if i == n:
            res.append(cond)
            return
        if i + 1 < n:
            for e, c in syl(i + 1):
                rest(e, h.And(cond, h.eq(s[i], "'"), c))
    for e, c in syl(1):
        rest(e, h.And(h.isin(s[0], C), c))
    for e, c in syl(0):
        rest(e, c)
    return h.Or(*res) if res else False


def cmavo_string(h, s):
    """One cmavo or several, each but the first starting with a consonant, as a condition."""
    good = {0: True}
    for e in range(1, len(s) + 1):
        ways = []
        for b in range(e):
            if good[b] is not False:
                c = cmavo(h, s[b:e])
                if c is not False:
                    ways.append(h.And(good[b], c) if b == 0 else h.And(good[b], c, h.isin(s[b], C)))
        good[e] = h.Or(*ways) if ways else False
    return good[len(s)]


def prop(h, job):
    w = string(h, job)
    st = settings(h, exp_rafsi_shapes=False)
    a = Api(h)
    r = a.analyse(w, **st)
    if r is None or r[0] == "CMEVLA":
        h.record(None)
        return
    h.record(r)
    h.reach("checked")
    for k in range(1, len(w) - 2):
        if not cmavo_string(h, w[:k]):
            continue
        rest = w[k:]
        if not h.isin(rest[0], C):
            continue                    # a vowel-initial word follows a pause
        h.record(k)
        r2 = a.analyse(rest, **st)
        h.check(r2 is None or r2[0] == "CMEVLA", "a cmavo followed by a brivla")
