"""The generated lujvo is the best one."""
import itertools

from .lib import *
from . import tanrujobs

ID = "P04"
BOUNDS = ("2 and 3 components given as CLL rafsi or zi'evla: against every other hyphenation of the same rafsi; "
          "2 components given as gismu with up to 3 short rafsi from a symbolic dictionary: against every choice of one form "
          "per component; all letters symbolic, all settings symbolic")
OUTSIDE = "more components but for eight tanru of 5 and 6 rafsi, partly written out; the listed known findings"
REACH = ("alternative", "choice")
HY = ("", "y", "'y", "r", "n")


FEW = (("y_hyphens", "STANDARD"), ("consonants", "CLUSTER"), ("allow_mz", False))


# five and more rafsi, partly written out
LONG = ((("cvc", "ccv", "=_gau_", "=_bla_", "cvv"), ("", "", "", "")), (("=_bla_", "cvv", "=_bra_", "cvc", "=_kla_"), ("", "", "", "")),
        (("cvv", "=_bla_", "=_gau_", "=_kla_", "=_mai_", "cvc"), ("r", "", "", "", "")), (("cvhv", "=_rai_", "=_gau_", "cvc", "=_mai_"), ("n", "", "", "")),
        (("cvc", "cvc", "=_gau_", "=_mai_", "ccv", "=_gau_"), ("y", "", "", "", "")), (("cvv", "=_bla_", "cvc", "=_kla_", "cvv"), ("'y", "", "", "")),
        (("=_tos_", "cvc", "=_bra_", "cvc", "=_bla_"), ("", "", "", "y")), (("=_tos_", "cvc", "=_bra_", "cvc", "=_bla_"), ("y", "", "", "y")))


def jobs(tier):
    out = []
    sh = tanrujobs.SH
    q = tier == "quick"
    for k in itertools.product(sh, repeat=2):
        for hy in HY:
            if not q or plausible(k, (hy,)):
                out.append(("hy", k, (hy,)))
    for k, hy in LONG:
        out.append(("hy", k, hy))
    for k in itertools.product(sh[:3] if q else sh[:4], repeat=3):
        for hy in itertools.product(HY[:3] + ("r",) if q else HY, HY[:3]):
            if plausible(k, hy):
                out.append(("hy", k, hy))
    if tier == "thorough":
        for k in itertools.product(sh, repeat=3):
            if k[0] in sh[4:] or k[1] in sh[4:] or k[2] in sh[4:]:
                for hy in itertools.product(HY[:3] + ("r", "n"), HY[:3]):
                    if plausible(k, hy):
                        out.append(("hy", k, hy))
    G = ("gA:CVC", "gB:CVV") if q else ("gA:CVC", "gA:CCV", "gB:CVV", "gA:")
    for g1, g2 in itertools.product(G, G):
        out.append(("choice", (g1, g2), ()))
    # several short rafsi: one component at a time
    two = [("gA:CVC,CCV", "gB:CVV"), ("gA:CVC,CVV", "gB:CCV"), ("gB:CCV", "gA:CCV,CVV"), ("gB:CVC", "gA:CV'V,CCV"),
           ("gA:CVC,CVhV,CVV", "gB:CCV"), ("gB:CCV", "gA:CVC,CCV,CVV")]
    if not q:
        two += [("gA:CVC,CCV", "gB:CCV,CVV"), ("gA:CVC,CV'V", "gB:CVC,CVV"), ("gA:CVC,CCV,CVV", "gA:CVC,CCV")]
    for k in two:
        k2 = tuple(x if "," not in x else x.partition(":")[0] + ":" + ",".join(
            reversed(x.partition(":")[2].split(","))) for x in k)
        for kk in (k, k2):
            if q:
                # the words themselves concrete, their rafsi symbolic
                kk = tuple(x.replace("gA", "=gasnu" if i else "=mamta").replace("gB", "=broda" if i else "=gleki")
                           for i, x in enumerate(kk))
            out.append(("choice", kk, FEW if q else ()))
    three = [("=mamta:CVC", "=gleki:CCV", "=gasnu:CVV"), ("=mamta:CVC", "=gleki:CVV", "=gasnu:CCV"),
             ("=mamta:CVV", "=broda:CVC", "=gasnu:CVV"), ("=broda:CVC", "=mamta:CVC", "=gleki:CCV"),
             ("=mamta:CVC,CVV", "=broda:CVC", "=gasnu:CCV")]
    if not q:
        three += [("=mamta:CVC,CVV", "=broda:CVC,CCV", "=gasnu:CCV"), ("=broda:CVC", "=mamta:CVV,CCV", "=gleki:CCV,CVV")]
    for k in three:
        for cm in (False, True) if not q else (False,):
            out.append(("choice", k, FEW + (("cm", cm),)))
    return out


def plausible(k, hy):
    """Consonants never take 'y, r or n; the rest is left to the code under test."""
    for s, x in zip(k, hy):
        v = s in ("ccv", "cvv", "cvhv")
        if v and x == "y" or not v and x in ("'y", "r", "n") or x in ("r", "n") and s == "ccv":
            return False
    return True


def prop(h, job):
    what, kinds, hy = job
    if what == "hy":
        a, t, tab, st, cm = tanrujobs.setup(h, kinds, (("glides", False), ("exp_rafsi_shapes", False)))
        alt = ""
        body = [c.strip("-") for c in t]
        for i, b in enumerate(body):
            alt = alt + b + (hy[i] if i < len(hy) else "")
        try:
            w, sc, ix = a.get_lujvo_with_analytics(list(t), generate_cmevla=cm, **st)
        except a.GEN_ERRORS:
            w = sc = None
        if w is not None and h.eq(w, alt):
            h.record("same")
            return
        r = a.analyse(alt, **st)
        if r is None:
            h.record("no")
            return
        ty, pieces = r
        rafsi = [p for p in pieces if not is_hyphen(h, p)]
        if len(rafsi) != len(body) or not h.And(*[h.eq(x, y) for x, y in zip(rafsi, body)]):
            h.record("other rafsi")
            return
        if not h.eq(ty == "CMEVLA", cm):
            h.record("other type")
            return
        h.reach("alternative")
        s2 = a.score_lujvo(alt, **st)
        h.record(w, sc, alt, s2)
        if w is None:
            h.fail("a valid lujvo of these rafsi exists but none is generated")
            return
        h.check(s2 >= sc, "no other hyphenation scores lower")
        return
    a, t, tab, st, cm = tanrujobs.setup(h, kinds, (("glides", False), ("exp_rafsi_shapes", False)) + hy)
    r = a.build(list(t), generate_cmevla=cm, **st)
    best = None
    forms = []
    for c, (g, rs) in zip(t, tab):
        forms.append(["-" + x + "-" for x in rs] + [c[:-1] + "-", c])
    b = Api(h, table=[])
    for combo in itertools.product(*forms):
        x = b.build(list(combo), generate_cmevla=cm, **st)
        if x is not None and (best is None or x[1] < best):
            best = x[1]
    h.reach("choice")
    h.record(r, best)
    if r is None or best is None:
        h.check(r is None and best is None, "a lujvo is found exactly when one choice of rafsi gives one")
    else:
        h.check(h.eq(r[1], best), "the best choice of rafsi is taken")
