"""Rust and Python generate the same lujvo."""
from .lib import *
from . import tanrujobs
from .rsjobs import *

ID = "P26"
BOUNDS = tanrujobs.BOUNDS + "; components of up to 4 arbitrary Lojban letters or spelling variants"
OUTSIDE = tanrujobs.OUTSIDE + "; words with a final or a second initial period, which Rust drops; lists with unnormalised words (Rust's list \
function takes normalised ones); error messages"
REACH = ("generated", "refused", "text")


def jobs(tier):
    out = [("t", k, f) for k, f in tanrujobs.standard(tier, light=True)]
    for k in ((), ("cvc",), ("gA:CVC",), ("=_", "ccv"), ("=LLL", "=_CVC_"), ("=_LLL_", "ccv"), ("cvc", "=_LLLL_"), ("=LLLL_", "ccv"),
              ("ccv", "=LLL_"), ("=", "ccv"), ("=_V'V_", "ccv"), ("cvc", "=_V'V_"), ("cvv", "=_GV_", "cvc"),
              ("=_CV'V'V_", "cvc"), ("=gasnu:CV'V,CVC", "ccv"),
              ("=_GV_", "=_CV_"), ("=_CV_", "=_GV_"), ("=_GV_", "=_GV_"), ("=_V_", "=_GV_"), ("=_GV_", "=_V_"), ("=_GV_", "=_GVV_", "=_V_"),
              ("cvc", "=_GV_", "=_CV_"), ("=_GV_", "cvv"), ("cvv", "=_GVV_"), ("=_CV_", "=_V_", "cvv"), ("=_CV'V'V_", "=_V'V_"),
              ("=VPVCV", "=VPVCV"), ("=VPVC_", "=VPVCV"), ("=_VPVCV_", "=_GV_")):
        out.append(("t", k, ()))
    for k in tanrujobs.MANY:
        out.append(("t", k, tanrujobs.NARROW))
    for k in (("cvc", "ccv"), ("cvv", "gA:CVC"), ("=._CVC_", "=_I,V_"), ("=_QVC_", "=.broda"), ("=EE", "cvc"), ("=.EE", "ccv"), ("=_EE_", "cvc"),
              ("=_*_", "cvc"), ("cvc", "=*")):
        out.append(("s", k, ()))
    return list(dict.fromkeys(out))


def prop(h, job):
    what, kinds, fixed = job
    t, table = tanru(h, kinds)
    fixed = dict(fixed)
    st = {"generate_cmevla": fixed.pop("cm") if "cm" in fixed else h.choice("cm", [False, True])}
    st.update(settings(h, **fixed))
    a, rs = Api(h, table=table), rsworld.RsApi(h, table=table)
    if what == "s":                     # as one string
        h.reach("text")
        text, sep = "", h.choice("sep", [" ", "  ", "\t", " \n "])
        for i, c in enumerate(t):
            text = text + (sep if i else "") + c
        compare(h, a, rs, "get_lujvo", ["  " + text + " "], st, "the same lujvo from text")
        return
    r = compare(h, a, rs, "get_lujvo_with_analytics", [list(t)], st, "the same lujvo, score and indices")
    h.reach("refused" if r[1] else "generated")
    if len(t) < 3:
        compare(h, a, rs, "get_lujvo", [list(t)], st, "the same lujvo")
