"""The mz option changes nothing but mz."""
from .lib import *
from . import strjobs, tanrujobs

ID = "P12"
BOUNDS = strjobs.BOUNDS + "; 2-component tanru of every rafsi shape"
OUTSIDE = strjobs.OUTSIDE + "; longer tanru but for three of five components"
REACH = ("mz accepted", "same", "tanru same", "tanru mz", "mz like mb", "tanru mz like mb")


def jobs(tier):
    out = [("w", x) for x in strjobs.standard(tier, 6, 7, light=True)]
    out += [("w", "CVmzV"), ("w", "CVmzyCVPV"), ("w", "CVmzVCV"), ("w", "VmzVCV"), ("w", "CVmzVyIV")]
    import itertools
    for k in itertools.product(tanrujobs.SH, repeat=2):
        out.append(("t", k))
    for k in itertools.product(tanrujobs.SH[:3], repeat=3):
        out.append(("t", k))
    out += [("t", k) for k in (("cvc", "=_zba_", "ccv", "=_gau_", "=_bla_"), ("=_bla_", "=_gau_", "=_kla_", "cvc", "=_zba_"), ("=_bla_", "=_kam_", "=_zba_", "cvc", "=_zmo_"))]
    for x in ("CVmzV", "VmzWL", "LVmzWL", "LLVmzW", "VmzWLL", "LLVmzWL", "CVCCVmzV", "CVmzyCVPV", "CVmzyIV", "IVCVmzV",
              "CDrCVmzV", "CV'VCVmzV", "VmzVCV'yIV", "CVCyVmzV", "CVmzyCVmz", "CVCCVmz", "CVmzVCVCV", "VPVmzV", "CVPVmzV",
              "IVmzV'V", "CVmzV'V", "VmzVCyIV", "CVmzVyCVC"):
        out.append(("mb", x))
    for s in tanrujobs.SH:
        for x in ("=CVmz_", "=_CVmz_", "=_CVmzV_", "=CVmzV", "=VmzVCV", "=VmzVC_"):
            out.append(("tmb", (x, s)))
            out.append(("tmb", (s, x)))
    return out


def swap(c, kind):
    t = kind[1:]
    if kind[0] != "=" or "mz" not in t:
        return c
    i = tlen(t[:t.index("mz")])
    return c[:i] + "mb" + c[i + 2:]


def has_mz(h, s):
    return h.Or(*[h.eq(s[i:i + 2], "mz") for i in range(len(s) - 1)])


def prop(h, job):
    what, x = job
    st = settings(h, allow_mz=None)
    st.pop("allow_mz")
    a = Api(h, table=[])
    if what == "mb":
        s = string(h, x)
        r0 = a.analyse(s, allow_mz=True, **st)
        i = tlen(x[:x.index("mz")])
        r1 = a.analyse(s[:i] + "mb" + s[i + 2:], allow_mz=True, **st)
        h.record(r0, r1)
        h.check((r0 is None) == (r1 is None), "between vowels mz is accepted exactly where mb is")
        if r0 is not None and r1 is not None:
            h.reach("mz like mb")
            h.check(r0[0] == r1[0] and [len(p) for p in r0[1]] == [len(p) for p in r1[1]], "and read alike")
        return
    if what == "tmb":
        t, tab = tanru(h, x)
        t2 = [swap(c, k) for c, k in zip(t, x)]
        cm = h.choice("cm", [False, True])
        w0 = a.build(list(t), generate_cmevla=cm, allow_mz=True, **st)
        w1 = a.build(list(t2), generate_cmevla=cm, allow_mz=True, **st)
        h.record(w0, w1)
        h.check((w0 is None) == (w1 is None), "mz makes a lujvo exactly where mb does")
        if w0 is not None and w1 is not None:
            h.reach("tanru mz like mb")
            h.check(h.eq(w0[1], w1[1]), "with the same score")
            h.check(len(w0[2]) == len(w1[2]) and h.And(*[h.eq(p, q) for p, q in zip(w0[2], w1[2])]), "and the same indices")
        return
    if what == "w":
        s = string(h, x)
        r0 = a.analyse(s, allow_mz=False, **st)
        r1 = a.analyse(s, allow_mz=True, **st)
        h.record(r0, r1)
        mz = has_mz(h, s)
        h.check(h.Not(h.And(mz, r0 is not None)), "no mz in a word unless allowed")
        if r0 is None and r1 is not None:
            h.reach("mz accepted")
            # consonants that meet across a dropped y may also form mz
            h.check(h.Or(mz, has_mz(h, [c for c in s if not h.isin(c, ["y", "'"])])),
                    "a word accepted only with the option contains mz")
        if r0 is not None:
            h.reach("same")
            h.check(r1 is not None, "an accepted word stays accepted")
            if r1 is not None:
                h.check(len(r0[1]) == len(r1[1]) and h.And(*[h.eq(p, q) for p, q in zip(r0[1], r1[1])]),
                        "same pieces")
                lj = ("LUJVO", "EXTENDED_LUJVO")
                h.check(r0[0] == r1[0] or (r0[0] in lj and r1[0] in lj), "same type")
        return
    t, tab = tanru(h, x)
    cm = h.choice("cm", [False, True])
    w0 = a.build(list(t), generate_cmevla=cm, allow_mz=False, **st)
    w1 = a.build(list(t), generate_cmevla=cm, allow_mz=True, **st)
    h.record(w0, w1)
    if w0 is not None:
        h.check(h.Not(has_mz(h, w0[0])), "no mz in a generated word unless allowed")
        h.check(w1 is not None, "generation still succeeds")
        if w1 is not None:
            h.check(w1[1] <= w0[1], "the option never makes the best word worse")
            if not has_mz(h, w1[0]):
                h.reach("tanru same")
                h.check(h.eq(w0[0], w1[0]), "without mz the word is the same")
            else:
                h.reach("tanru mz")
    elif w1 is not None:
        h.check(has_mz(h, w1[0]), "a word that needs the option contains mz")
