"""Rafsi indices delimit the rafsi."""
import itertools

from .lib import *
from . import strjobs, tanrujobs

ID = "P21"
BOUNDS = ("every list of up to 4 (thorough 5) pieces of up to 3 letters and of 3 pieces of up to 5; the pieces of every word of "
          "the templates; every tanru of the listed shapes; all settings")
OUTSIDE = "longer lists of pieces, longer words off the templates, tanru of other shapes; empty pieces"
REACH = ("pieces", "word", "generated")


def jobs(tier):
    q = tier == "quick"
    out = [("p", ())]
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for k in itertools.product(range(1, 4), repeat=n):
            if n < 4 or sum(k) <= (9 if q else 11):
                out.append(("p", k))
    for k in itertools.product((1, 2, 4, 5), repeat=3):
        out.append(("p", k))
    out += [("p", k) for k in ((3, 1, 3, 1, 3, 1), (4, 2, 5, 1, 3, 3), (3,) * 5, (1, 1, 1, 1, 1, 1), (8, 2, 3, 3, 2, 7))]
    w = strjobs.words2(("", "y", "'y", "r", "n")) + strjobs.extended()
    out += [("w", x) for x in strjobs.long()]
    out += [("w", x) for x in (w[::4] + strjobs.extended() if q else w)]
    ts = tanrujobs.standard(tier, light=True) if not q else \
        [(k, ()) for k in itertools.product(tanrujobs.SH, repeat=2)] + \
        [(k, tanrujobs.NARROW) for k in itertools.product(("cvc", "ccv", "cvv", "cvhv"), repeat=3)] + \
        [((z, s), ()) for z in tanrujobs.ZI for s in ("cvc", "ccv", "cvv")] + \
        [((s, z), ()) for z in tanrujobs.ZI for s in ("cvc", "ccv", "cvv")] + \
        [((g, s), ()) for g in ("gA:CVC", "gB:") for s in ("ccv", "cvv")] + tanrujobs.long_tanru()
    out += [("t",) + x for x in ts]
    return list(dict.fromkeys(out))


def spans(h, pieces):
    out, pos = [], 0
    for p in pieces:
        if not is_hyphen(h, p):
            out.append((pos, pos + len(p)))
        pos += len(p)
    return out


def prop(h, job):
    if job[0] == "p":
        pieces = [string(h, "L" * n, "p%d" % i) for i, n in enumerate(job[1])]
        a = Api(h, table=[])
        arg = list(pieces)
        ix = a.get_rafsi_indices(arg)
        h.record([tuple(p) for p in ix])
        h.reach("pieces")
        h.check([tuple(p) for p in ix] == spans(h, pieces), "one pair of indices around every piece that is no hyphen")
        h.check(len(arg) == len(pieces) and h.And(*[h.eq(x, y) for x, y in zip(arg, pieces)]), "the argument is left alone")
        return
    if job[0] == "w":
        s = string(h, job[1])
        st = settings(h, glides=False)
        a = Api(h, table=[])
        r = a.analyse(s, **st)
        if r is None:
            h.record(None)
            return
        ix = [tuple(p) for p in a.get_rafsi_indices(r[1])]
        h.record(ix)
        h.reach("word")
        h.check(ix == spans(h, r[1]), "one pair of indices around every rafsi of the word")
        h.check(len(ix) > 0 and ix[0][0] == 0 and ix[-1][1] == len(s), "from the start to the end of the word")
        return
    a, t, tab, st, cm = tanrujobs.setup(h, job[1], job[2])
    r = a.build(list(t), generate_cmevla=cm, **st)
    if r is None:
        h.record(None)
        return
    d = a.analyse(r[0], **st)
    h.record(r[2], d)
    if d is None:
        return                      # P01
    h.reach("generated")
    mine = [tuple(p) for p in a.get_rafsi_indices(d[1])]
    h.check(mine == [tuple(p) for p in r[2]], "generation and decomposition give the same indices")
