"""Lujvo generation fails only with its documented errors."""
from .lib import *

ID = "P05"
BOUNDS = ("component lists of 0 to 3 entries; two-entry lists where either entry is any string of up to 4 printable "
          "ASCII or selected non-ASCII characters, or any string of up to 6 Lojban letters/hyphens; all settings")
OUTSIDE = "longer entries than stated; more than 3 malformed entries; arguments that are not strings or lists"
REACH = ("word", "NonLojbanCharacterError", "NoLujvoFoundError", "InvalidClusterError", "NotZihevlaError")

OTHERS = ("-CVC-", "IVCV", "-CV'V-")


def jobs(tier):
    out = [(), ("",), ("IVCV",), ("-CVC-",), ("LLL",), ("", ""), ("", "IVCV"), ("IVCV", ""), ("-", "-"), ("--", "---"), ("-CVC-",) * 2]
    hi = 3 if tier == "quick" else 4
    lo = 4 if tier == "quick" else 5
    for n in range(0, hi + 1):
        for o in OTHERS:
            out.append(("*" * n, o))
            out.append((o, "*" * n))
    for n in range(1, lo + 1):
        for o in OTHERS[:2]:
            for b in ("L" * n, "-" + "L" * n + "-", "L" * n + "-"):
                out.append((b, o))
                out.append((o, b))
    for m in ("LL", "LLL", "CVC-", "-V'V-"):
        out.append(("-CVC-", m, "IVCV"))
        out.append(("-CVC-", "-" + m + "-", "IVCV"))
    out += [("-V-", "-V-"), ("-V'V-", "-GV-"), ("-VV-", "-CVC-", "-V-"), ("-CVC-", "-V-"), ("-CVC-", "-GV-", "-V'V-")]
    out += [("-CVC-", "-bla-", "LL", "-gau-", "IVCV"), ("LLL", "-kla-", "-bla-", "-CD-", "broda", "-gau-"), ("-CVC-", "-CVC-", "-gau-", "-kla-", "LLL"),
            ("-bla-",) * 6 + ("-LLL-",), ("-kla-", "-LL-", "mlat-", "-bla-", "-CVC-", "-CVC-"), ("broda", "*", "broda", "*", "broda"),
            ("-CVC-", "-V-", "-V'V-", "-GV-", "-bla-")]
    return out


def prop(h, job):
    t = [string(h, x, "s%d_" % i) for i, x in enumerate(job)]
    st = settings(h)
    cm = h.choice("cm", [False, True])
    a = Api(h, table=[])
    try:
        w, sc, ix = a.get_lujvo_with_analytics(t, generate_cmevla=cm, **st)
    except a.GEN_ERRORS as e:
        h.record(type(e).__name__)
        h.reach(type(e).__name__)
        return
    h.record(w, sc, ix)
    h.reach("word")
    h.check(len(t) >= 2, "a lujvo needs two components")
    h.check(h.eq(h.isin(w[-1], C), cm), "ends in a consonant exactly when a cmevla was asked for")
    for ch in w:
        h.check(h.isin(ch, L), "only Lojban letters")
