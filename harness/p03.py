"""Scores follow the scoring formula everywhere."""
from .lib import *
from . import strjobs, tanrujobs

ID = "P03"
BOUNDS = tanrujobs.BOUNDS + "; words of 2 rafsi, extended and longer words, in either case and with a comma"
OUTSIDE = tanrujobs.OUTSIDE
REACH = ("brivla", "cmevla", "word")
WEIGHT = {"CVCCV": 1, "CVCC": 2, "CCVCV": 3, "CCVC": 4, "CVC": 5, "CV'V": 6, "CCV": 7, "CVV": 8}


def jobs(tier):
    w = strjobs.words2(("", "y", "'y", "r")) + strjobs.extended() + strjobs.long()
    if tier == "quick":
        w = [x for x in w[::5] if tlen(x) < 9] + ["CDIV", "CDCVC", "CDIVC", "CDCVP", "CDrCVPV", "CV'VrIV"] + strjobs.extended() + strjobs.long()
    return tanrujobs.standard(tier, light=True) + [("word", x) for x in dict.fromkeys(w)]


def shape(h, r):
    """CLL shape of a rafsi ("" when it has none); letters decide by class only."""
    out = ""
    if len(r) not in (3, 4, 5):
        return out
    for ch in r:
        if h.isin(ch, C):
            out += "C"
        elif h.isin(ch, V):
            out += "V"
        else:
            out += "'"
    return out


def formula(h, word, rafsi):
    vowels = count(h, [h.isin(ch, V) for ch in word])
    ys = count(h, [h.eq(ch, "y") for ch in word])
    shapes = [shape(h, r) for r in rafsi]
    s = 1000 * len(word) + 100 * ys - vowels - 10 * sum(WEIGHT.get(x, 0) for x in shapes)
    if len(rafsi) == 2 and shapes[0] == "CVV" and len(word) == len(rafsi[0]) + len(rafsi[1]) and \
            shapes[1] in ("CCV", "CCVC", "CVC", "CVCC"):
        s = s - 1
    return s


def word(h, tmpl):
    """A lujvo, in either case and with a comma, scores as its rafsi and hyphens."""
    s, v = "", ""
    for i, ch in enumerate(tmpl):
        vals = TOKENS.get(ch, [ch])
        x = h.chars("c%d" % i, [q for p in vals for q in ((p + p, p + p.upper()) if i < 5 and len(p) == 1 and p.isalpha() else (p + p,))])
        s = s + x[:len(vals[0])]
        v = v + x[len(vals[0]):]
        if i == 1:
            v = v + ","
    st = settings(h, allow_mz=False)
    a = Api(h, table=[])
    r = a.analyse(s, **st)
    if r is None or r[0] in ("GISMU", "ZIhEVLA"):
        h.record(None)
        return
    rafsi = [p for p in r[1] if not is_hyphen(h, p)]
    got = a.score_lujvo(v, **st)
    h.record(got)
    h.reach("word")
    h.check(h.eq(got, formula(h, s, rafsi)), "the score of a word follows the formula")


def prop(h, job):
    if job[0] == "word":
        return word(h, job[1])
    kinds, fixed = job
    a, t, tab, st, cm = tanrujobs.setup(h, kinds, fixed)
    try:
        w, sc, ix = a.get_lujvo_with_analytics(list(t), generate_cmevla=cm, **st)
    except a.GEN_ERRORS:
        h.record(None)
        return
    h.record(w, sc)
    h.reach("cmevla" if h.isin(w[-1], C) else "brivla")
    rafsi = [w[b:e] for b, e in ix]
    h.check(h.eq(sc, formula(h, w, rafsi)), "the analytics score follows the formula")
    try:
        s2 = a.score_lujvo(w, **st)
    except a.VEL_ERRORS:
        h.fail("score_lujvo rejects a generated word")
        return
    h.record(s2)
    h.check(h.eq(sc, s2), "score_lujvo agrees with the generator")
