"""Phonotactics of accepted words."""
from .lib import *
from . import strjobs

ID = "P09"
BOUNDS = strjobs.BOUNDS
OUTSIDE = strjobs.OUTSIDE
REACH = ("GISMU", "LUJVO", "EXTENDED_LUJVO", "ZIhEVLA", "CMEVLA")


def jobs(tier):
    return strjobs.standard(tier)


def prop(h, job):
    s = string(h, job)
    st = settings(h)
    a = Api(h)
    r = a.analyse(s, **st)
    if r is None:
        h.record(None)
        return
    t = r[0]
    h.record(t)
    h.reach(t)
    mz = st["allow_mz"]
    cons = [h.isin(c, C) for c in s]
    vow = [h.isin(c, V) for c in s]
    n = len(s)
    h.check(n >= 4, "no brivla or lujvo cmevla is shorter than four letters")
    for i in range(n - 1):
        pair = s[i:i + 2]
        both = h.And(cons[i], cons[i + 1])
        h.check(h.Implies(both, h.isin(pair, P)), "only permissible consonant pairs")
        h.check(h.Implies(h.eq(pair, "mz"), mz), "mz only when allowed")
        h.check(h.Not(h.eq(pair, "yy")), "no double y")
        h.check(h.Implies(h.eq(s[i], "'"), h.isin(s[i + 1], V + ["y"])), "an apostrophe stands before a vowel")
        h.check(h.Implies(h.eq(s[i + 1], "'"), h.isin(s[i], V + ["y"])), "an apostrophe stands after a vowel")
    for i in range(n - 2):
        h.check(h.Not(h.isin(s[i:i + 3], sorted(spec.BANNED_TRIPLES))), "no banned consonant triple")
    h.check(h.isin(s[0], C + V), "starts with a consonant or vowel")
    h.check(h.isin(s[-1], C if t == "CMEVLA" else V), "cmevla end in a consonant, brivla in a vowel")
    h.check(h.Implies(h.And(cons[0], cons[1]), h.isin(s[:2], I)), "an initial pair starts the word")
    if t != "CMEVLA":
        h.check(count(h, vow) >= 2, "two syllables at least")
    if t in ("GISMU", "ZIhEVLA"):
        h.check(h.Not(h.isin("y", s)), "no y outside lujvo")
    if t in ("GISMU", "ZIhEVLA", "LUJVO"):
        # y and ' do not separate the members of a cluster in lujvo
        letters = s if t == "ZIhEVLA" else [c for c in s if not h.isin(c, ["y", "'"])]
        got = h.Or(*[h.And(h.isin(x, C), h.isin(y, C)) for x, y in zip(letters, letters[1:])])
        h.check(h.Or(got, h.And(t == "LUJVO", h.Not(h.eq(st["consonants"], "CLUSTER")))),
                "contains a consonant cluster")
    # vowels: one nucleus, then syllables that begin with an on-glide; only a word or the part after y may begin with one
    i = 0
    while i < n:
        if not vow_at(h, s, i):
            i += 1
            continue
        j = i
        while j < n and vow_at(h, s, j):
            j += 1
        # a final i or u may be the on-glide of a following y
        h.check(h.Or(*[syllables(h, s, i, k, i == 0 or h.eq(s[i - 1], "y")) if k > i else i == 0 for k in
                       ([j] if j == n or not h.eq(s[j], "y") or not h.isin(s[j - 1], ["i", "u"]) else [j, j - 1])]), "vowels in a row form syllables")
        i = j


def vow_at(h, s, i):
    return bool(h.isin(s[i], V))


def syllables(h, s, b, e, glide):
    def nucleus(i):
        out = [(i + 1, True)] if i < e else []
        if i + 1 < e:
            out.append((i + 2, h.isin(s[i:i + 2], D)))
        return out

    def rest(i):
        if i == e:
            return True
        if i + 1 >= e:
            return False
        return h.And(h.isin(s[i], ["i", "u"]), h.Or(*[h.And(c, rest(k)) for k, c in nucleus(i + 1)]))
    first = [h.And(c, rest(k)) for k, c in nucleus(b)]
    return h.Or(*first, h.And(glide, rest(b)))
