"""A tanru means the same however it is written."""
from .lib import *

ID = "P17"
BOUNDS = ("2- and 3-component tanru of the listed shapes; string and list form, extra blanks, either letter case, h for "
          "the apostrophe, a leading period or a comma on any component; all settings")
OUTSIDE = "longer tanru but for two of 5 and 6 components, partly written out; several commas in one component"
REACH = ("word", "error")

TR = [("-CVC-", "-CVV-"), ("-CVC-", "-CCV-"), ("CVCC-", "-CCV-"), ("-CV'V-", "-CVC-"), ("CVCCV", "CCVCV"),
      ("VCCVCV", "-CVC-"), ("CCVC-", "CVCCV"), ("-CVC-", "-CVC-", "-CCV-"), ("LLL", "-CVC-"), ("-LLL-", "-CVC-"),
      ("-CVC-", "LLLL-"), ("-CVC-", "-bla-", "-gau-", "-CCV-", "-mai-", "broda"), ("klama", "-CVV-", "bladi", "-gau-", "-CVC-")]
MODES = ("string", "blanks", "tabs", "case", "dot0", "dot1", "comma0", "comma1")


def jobs(tier):
    return [(t, m) for t in TR for m in MODES]


def prop(h, job):
    tr, mode = job
    from .p11 import CLS
    base, var = [], []
    for i, t in enumerate(tr):
        b, v = "", ""
        for j, ch in enumerate(t):
            pairs = CLS.get(ch, [ch + ch])
            if mode != "case":
                pairs = sorted(set(p[0] + p[0] for p in pairs))
            x = h.chars("t%d_%d" % (i, j), pairs)
            b = b + x[0]
            v = v + x[1]
        if mode == "dot%d" % i:
            v = "." + v
        if mode == "comma%d" % i:
            v = v[:2] + "," + v[2:]
        base.append(b)
        var.append(v)
    arg = var
    if mode == "string":
        arg = join_with(h, " ", var)
    elif mode == "blanks":
        arg = "  " + join_with(h, "   ", var) + " "
    elif mode == "tabs":
        arg = "\t" + join_with(h, "\t \n", var) + "\n"
    st = settings(h)
    cm = h.choice("cm", [False, True])
    a = Api(h, table=[])

    def go(x):
        try:
            return a.get_lujvo_with_analytics(x, generate_cmevla=cm, **st)
        except a.GEN_ERRORS as e:
            return type(e).__name__
    r1, r2 = go(list(base)), go(arg)
    h.record(r1, r2)
    if isinstance(r1, str) or isinstance(r2, str):
        h.reach("error")
        h.check(isinstance(r1, str) and isinstance(r2, str) and r1 == r2, "same error")
        return
    h.reach("word")
    h.check(h.eq(r1[0], r2[0]), "same word")
    h.check(h.eq(r1[1], r2[1]), "same score")
    h.check(len(r1[2]) == len(r2[2]) and h.And(*[h.eq(p, q) for p, q in zip(r1[2], r2[2])]), "same indices")


def join_with(h, sep, parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + sep + p
    return out
