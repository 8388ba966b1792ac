"""Tanru (component lists) shared by the generation properties."""
import itertools

from .lib import *

BOUNDS = ("every tanru of the listed component shapes: all 2-component combinations of CVC/CCV/CVV/CV'V/CVCC/CCVC "
          "rafsi, gismu with up to 3 short rafsi from a symbolic dictionary, zi'evla and their short rafsi; 3 and 4 "
          "components of rafsi shapes; every letter symbolic; all y-hyphen/consonant/glide/mz/experimental-rafsi "
          "settings and both lujvo/cmevla modes symbolic; any 3- or 4-letter string as a rafsi and any 5-letter string as a "
          "word beside a CCV or CVV rafsi; ten tanru of 5-9 components, partly written out")
OUTSIDE = ("more than 4 components but for those; zi'evla shapes not listed; vowel-initial experimental rafsi given as -V..-; "
           "dictionary words with more than 3 short rafsi")

SH = ("cvc", "ccv", "cvv", "cvhv", "cvcc", "ccvc")

# zi'evla and rafsi-shaped extras: template after "=", "_" stands for "-"
ZI = ("=VPVCV", "=IVCVCV", "=CDPV", "=IV'V", "=IVCVC_", "=VPVC_", "=_VPVCV_")

# any letters where a rafsi or gismu is meant
ANY = ("=_ZZZ_", "=ZZZZ_", "=_ZZZZ_", "=ZZZZZ")


def long_tanru():
    """Five to nine components; some written out so that the paths stay few."""
    n = (("glides", False), ("exp_rafsi_shapes", False))
    out = [(("ccv", "cvv", "=_bla_", "ccv", "cvv"), n), (("cvc", "=_gau_", "ccv", "cvhv", "ccv"), n),
           (("cvv", "ccv", "=_gau_", "cvc", "=_bla_", "ccv"), n), (("ccv", "=mlat_", "ccv", "=_gau_", "=_bla_", "cvv", "=_tca_"), n),
           (("=broda", "=klam_", "cvv", "=spageti", "ccv"), n), (("cvhv", "=_kla_", "cvc", "=_lai_", "=spaget_", "gA:CVC"), n),
           (("=_bla_", "ccv", "cvv", "=_ta'i_", "=_vla_", "cvv", "=_mai_", "=_kla_", "ccv"), n + (("cm", False),)), (("gB:CCV", "=_kla_", "gB:CVV", "=_zmo_", "=_dai_", "=kerf_", "=_cau_", "gA:CVC"), n),
           (("=_pas_", "cvc", "=_bre_", "=_cti_", "=_gau_"), n), (("=_tos_", "=_mab_", "cvc", "=_bra_", "cvc", "=_gau_"), n)]
    return out


def setup(h, kinds, fixed):
    t, tab = tanru(h, kinds)
    fixed = dict(fixed)
    cm = fixed.pop("cm") if "cm" in fixed else h.choice("cm", [False, True])
    st = settings(h, **fixed)
    a = Api(h, table=tab)
    return a, t, tab, st, cm


def rafsi_of(c, kind, tab, kinds=()):
    """The rafsi component c may appear as."""
    if kind[0] == "^":
        kind = kinds[int(kind[1:])]
    if kind.partition(":")[0] in ("gA", "gB"):
        out = [c, c[:-1]]
        for k, rs in tab:
            if k is c:
                out.extend(rs)
        return out
    if c[-1] == "-":
        return [c[1:-1] if c[0] == "-" else c[:-1]]
    out = [c, c[:-1]] if len(c) == 5 else [c]
    for k, rs in tab:
        if k is c:
            out.extend(rs)
    return out


# words with several rafsi (of different shapes, as in the real table: no ties)
MANY = (("=gasnu:CVC,CVV", "=_bla_"), ("=_bla_", "=gasnu:CCV,CVC"), ("=gasnu:CVC,CCV,CVV", "=_bla_"), ("=_lat_", "=gasnu:CVC,CVV,CVhV"),
        ("=_bla_", "=gasnu:CVC,CCV", "=_kla_"), ("=gasnu:CVV,CVC", "=_kerl_"))

NARROW = (("exp_rafsi_shapes", False), ("glides", False), ("allow_mz", False))


def standard(tier, light=False):
    light = light and tier == "quick"
    out = []
    for n in (2, 3):
        for k in itertools.product(SH, repeat=n):
            # 4-letter rafsi inside long tanru: the ends are covered by n == 2
            if n == 3 and sum(x in ("cvcc", "ccvc") for x in k) > 1:
                continue
            if light and n == 3 and sum(x in ("cvcc", "ccvc", "cvhv") for x in k):
                continue
            out.append((k, NARROW if light and n == 3 else ()))
    for z in ZI:
        for s in SH[:4]:
            out.append(((z, s), ()))
            out.append(((s, z), ()))
    for z in ANY[:2] if light else ANY:
        out.append(((z, "ccv"), ()))
        out.append((("ccv", z), ()))
        if not light:
            out.append(((z, "cvv"), ()))
    out += long_tanru()[:4] if light else long_tanru()
    G = ("gA:", "gB:", "gA:CVC", "gA:CCV", "gB:CVV")
    if light:
        G = ("gA:CVC", "gB:CCV")
    for g1, g2 in itertools.product(G, G):
        for cm in (False, True):
            out.append(((g1, g2), (("cm", cm), ("glides", False), ("exp_rafsi_shapes", False))))
    if tier == "thorough":
        for k in itertools.product(SH[:4], repeat=4):
            out.append((k, ()))
        for k in itertools.product(SH, repeat=3):
            if sum(x in ("cvcc", "ccvc") for x in k) > 1:
                out.append((k, ()))
        for z1, z2 in itertools.product(ZI, ZI):
            out.append(((z1, z2), ()))
        for z in ZI:
            for s, s2 in itertools.product(SH[:4], SH[:4]):
                out.append(((z, s, s2), ()))
                out.append(((s, z, s2), ()))
                out.append(((s, s2, z), ()))
        G2 = ("gA:CVC,CVV", "gA:CVC,CCV", "gB:CVC,CVhV")
        for g1, g2 in itertools.product(G2, G2):
            for cm in (False, True):
                out.append(((g1, g2), (("cm", cm),)))
    elif not light:
        for k in itertools.product(("cvc", "ccv", "cvv"), repeat=4):
            out.append((k, (("glides", False), ("exp_rafsi_shapes", False), ("allow_mz", False))))
    return out
