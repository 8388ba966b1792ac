"""Results depend on the arguments alone."""
from .lib import *

ID = "P16"
BOUNDS = ("histories of up to five public calls on two words/tanru of the listed templates with symbolic letters and "
          "settings, and of the same word or tanru under other settings, in one process image against fresh images; caller-side mutation of every returned list")
OUTSIDE = "longer histories; concurrent calls from several threads"
REACH = ("repeat", "after", "settings")


def jobs(tier):
    ws = ["CVCIVCV", "LLLL" if tier == "quick" else "LLLLL", "CVPVV", "CVCyCVPV", "IVCVCV", "CDrCVC", "CVPyIV"]
    ts = [("cvc", "ccv"), ("cvv", "gA:CVC"), ("cvv", "cvc"), ("gB:CVC", "ccv"),
          ("=gasnu:CV'V,CVC", "ccv"), ("=_pas_", "=broda:CV'V,CCV"), ("=gasnu:CVV,CVC", "=gasnu:CVV,CVC"),
          ("=._CVC_", "=_I,V_"), ("=_QVC_", "=.broda"), ("cvc", "ccv", "=_"), ("cvv", "=_CVhV_")]
    out = []
    for w in ws:
        for o in (("w", "CVCCV"), ("t", ("cvc", "cvc")), ("w", "VPVCV")):
            if tier == "quick" and w == "CVCyCVPV" and o[0] == "t":
                continue
            out.append(("w", w, o))
    for t in ts:
        for o in (("w", "CVCCVC"), ("t", ("cvc", "ccv"))):
            if tier == "thorough" or o[0] == "t" or t in ts[:2]:
                out.append(("t", t, o))
    # the same words and tanru under other settings
    for w in ("LLLL", "CVPVCV", "CVPIV", "CDIV", "CDrIV", "IVCyGV", "CVPV'yIV", "VPVCyIV", "bamzVPV", "IDrIV", "CVCDnrV"):
        out.append(("w", w, ("same", None)))
    for t in (("cvc", "ccv"), ("cvv", "ccv"), ("cvcc", "ccv"), ("=gasnu:CV'V,CVC", "ccv"), ("=_GV_", "ccv"), ("cvv", "=_GV_"), ("=_GV_", "cvv"), ("=_CV'V'V_", "cvc"), ("=VPVCV", "ccv"),
              ("=CVmzV", "ccv")):
        out.append(("t", t, ("same", None)))
    if tier == "thorough":
        for w in ("LLLLLL", "CVCyCD", "VPVCyIV"):
            for o in (("w", "LLLLL"), ("t", ("cvv", "ccv"))):
                out.append(("w", w, o))
        for t in (("cvc", "cvc", "ccv"), ("=IVCVC_", "ccv")):
            for o in (("w", "LLLLL"), ("t", ("cvv", "ccv"))):
                out.append(("t", t, o))
    return out


def ask(h, a, what, x, st, cm, scribble):
    """All public answers about one word or tanru."""
    out = []
    if what == "w":
        r = a.analyse(x, **st)
        out.append(r and (r[0], list(r[1])))
        if r and scribble:
            r[1].append("x")
            r[1][0] = "?"
        out.append(a.is_brivla(x, **st))
        try:
            v = a.get_veljvo(x, **st)
            out.append(list(v))
            if scribble:
                v.clear()
            out.append(a.score_lujvo(x, **st))
        except a.VEL_ERRORS as e:
            out.append(type(e).__name__)
    else:
        arg = list(x)
        try:
            w, sc, ix = a.get_lujvo_with_analytics(arg, generate_cmevla=cm, **st)
            out.append((w, sc, list(ix)))
            if scribble:
                ix.append((9, 9))
        except a.GEN_ERRORS as e:
            out.append(type(e).__name__)
        h.check(len(arg) == len(x) and h.And(*[h.eq(p, q) for p, q in zip(arg, x)]), "the argument is left alone")
    return out


def same(h, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and h.And(*[same(h, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return h.eq(a, b)


def prop(h, job):
    what, tmpl, (ow, otmpl) = job
    tab = []
    if what == "w":
        x = string(h, tmpl, "x")
    else:
        x, tab = tanru(h, tmpl)
    if ow == "same":
        ow, y, st2 = what, x, {"y_hyphens": h.choice("o_y", ["STANDARD", "ALLOW_Y", "FORCE_Y"]), "exp_rafsi_shapes": h.choice("o_e", [False, True]),
                               "consonants": h.choice("o_c", ["CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"]), "glides": h.choice("o_g", [False, True]),
                               "allow_mz": h.choice("o_m", [False, True])}
        a = Api(h, table=tab)
        st, cm = settings(h), h.choice("cm", [False, True]) if what == "t" else False
        ask(h, a, what, x, st2, what == "t" and h.choice("o_cm", [False, True]), False)
        late = ask(h, a, what, x, st, cm, False)
        b = Api(h, table=tab)
        first = ask(h, b, what, x, st, cm, False)
        h.record(first)
        h.reach("settings")
        h.check(same(h, first, late), "other settings before change nothing")
        return
    if ow == "w":
        y = string(h, otmpl, "y")
    else:
        y = [component(h, k, "y%d" % i) for i, k in enumerate(otmpl)]
    st = settings(h) if what == "w" else settings(h, glides=False, exp_rafsi_shapes=True)
    st2 = settings(h) if what == "w" else dict(st)
    if what == "w":
        st2 = {"y_hyphens": h.choice("y2", ["STANDARD", "FORCE_Y"]), "exp_rafsi_shapes": False,
               "consonants": "ONE_CONSONANT", "glides": False, "allow_mz": h.choice("m2", [False, True])}
    cm = h.choice("cm", [False, True]) if what == "t" else False
    before = [(g, list(rs)) for g, rs in tab]
    a = Api(h, table=tab)
    first = ask(h, a, what, x, st, cm, True)
    h.record(first)
    again = ask(h, a, what, x, st, cm, True)
    h.reach("repeat")
    h.check(same(h, first, again), "asking twice gives the same answer")
    ask(h, a, ow, y, st2, False, True)
    third = ask(h, a, what, x, st, cm, False)
    h.reach("after")
    h.check(same(h, first, third), "other calls change nothing")
    b = Api(h, table=tab)
    other = ask(h, b, ow, y, st2, False, False)
    late = ask(h, b, what, x, st, cm, False)
    h.check(same(h, first, late), "order of calls changes nothing")
    h.check(same(h, before, [(g, list(rs)) for g, rs in tab]), "the dictionary is left alone")
