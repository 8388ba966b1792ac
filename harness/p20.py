"""Zi'evla recognition is exact."""
from .lib import *
from . import strjobs

ID = "P20"
BOUNDS = ("every string of up to 7 (thorough 8) consonants, vowels and apostrophes, and the zi'evla templates; all settings "
          "that enter (y-hyphens, mz, experimental rafsi)")
OUTSIDE = ("longer strings off the templates; words whose remainder after a "
           "split is judged by the analysis itself (recursion on shorter words)")
REACH = ("zi'evla", "rejected", "gismu or lujvo")


def jobs(tier):
    q = tier == "quick"
    out = ["Z" * n for n in range(1, (7 if q else 8) + 1)]
    out += ["VPVCV", "VCVPV", "IVCVCV", "CDPV", "CD'VPV", "CVPDCV", "IV'VCV", "CVPCVCV", "VPV'V", "CVCIVCV", "CVPV'V",
            "IVGVCV", "CVPVGV", "VPCVCV", "SVPVCV", "VCCCV", "VCCCVCV", "CVCCCV", "CVCCCVCV", "CCCVCV", "IVVVCV", "CVVVPV",
            "GVVPV", "VVVVPV", "ICVCV", "CVCVPV", "VPVPV", "VPVVV", "IVCVVV", "CVPVVV", "CV'VCCV", "CV'VPV'V", "V'VPV",
            "CVCVCCV", "VCVCCV", "V'VCVPV", "IVVVV", "VPVVVV"]
    out += ["VCCCCV", "CVCCCCV", "VCCCCVCV", "IVCCCCV", "VCSCCCV", "VCCSCCV", "VCCSCCCV", "VCCCCSV", "VCSCSCSCV", "VSmlCSVCV"]
    # many syllables, partly written out
    out += ["VPVla'irsodaCV'a", "IVCVCVtarsoflaCV", "klamatCVCarloiCV", "spaCVfloraloinaCV'V", "graCVtiVcistCV", "tarCVskaVV'Vto", "iaCVrskoIVlati",
            "o'aiaCVrskoVlati", "mabrCVVlVlai", "VVVVVVPV", "spaVVVVVVV", "kaVVVVVspo", "arsV'V'V'V'VCV", "CVsparloCVtVrniCV"]
    if not q:
        out += ["ZZZPVZZ", "IVZZZZ", "CVPZZZZ", "VPVZZZZ", "CVCCCZZZ", "VVVVVPV", "IVVVVVV", "CVV'VCCV'V", "VVCVVCCVV"]
    return out


def classes(h, s):
    return ["C" if h.isin(c, C) else "V" if h.isin(c, V) else c if isinstance(c, str) and c == "'" else
            "'" if h.eq(c, "'") else "y" for c in s]


def runs(cl):
    out, i = [], 0
    while i < len(cl):
        j = i
        while j < len(cl) and cl[j] == cl[i] and cl[i] in "CV":
            j += 1
        j = max(j, i + 1)
        out.append((cl[i], i, j))
        i = j
    return out


def syllables(h, s, b, e, glide):
    """How many syllables the vowels s[b:e] make, or 0.  First (at most one) reading left to right."""
    # from the right: an on-glide vowel pairs with what follows; read as nucleus (on-glide nucleus)*
    def nuclei(i):
        out = [i + 1]
        if i + 1 < e and h.isin(s[i:i + 2], D):
            out.append(i + 2)
        return out

    def rest(i, off):
        """Syllables in s[i:e], each with an on-glide; off is the off-glide just before i."""
        if i == e:
            return 0
        if i + 1 >= e or not h.isin(s[i], ["i", "u"]) or off is not None and h.eq(off, s[i]):
            return None
        for k in nuclei(i + 1):
            n = rest(k, s[k - 1] if k == i + 3 else None)
            if n is not None:
                return n + 1
        return None
    for k in nuclei(b):
        n = rest(k, s[k - 1] if k == b + 2 else None)
        if n is not None:
            return n + 1
    if glide:
        n = rest(b, None)
        if n is not None:
            return n
    return 0


def onset(h, c):
    """Consonants that can start a syllable."""
    n = len(c)
    if n == 1:
        return True
    if n == 2:
        return h.isin(c, I)
    return n == 3 and h.And(h.isin(c[:2], I), h.isin(c[1:], list(spec.ZIHEVLA_INITIAL)))


def long_cluster(h, s, b, e):
    """A closing consonant or none, syllables of a consonant and l, m, n or r, and an onset; ml and mr are not torn apart."""
    ml = h.isin(s[e - 2:e], ["ml", "mr"])
    ways = []
    for k in (b, b + 1):
        for m in range(k, e, 2):
            if e - m <= 3:
                w = h.And(onset(h, s[m:e]), *[h.isin(s[i], ["l", "m", "n", "r"]) for i in range(k + 1, m, 2)])
                ways.append(w if e - m >= 2 else h.And(w, h.Not(ml)))
    return h.Or(*ways)


def shape_ok(h, s, mz):
    """The letters can be a zi'evla."""
    n = len(s)
    cl = classes(h, s)
    if "y" in cl or n < 4 or cl[-1] != "V" or cl[0] == "'":
        return False
    pairs = P if mz else PERM
    for i in range(n):
        if cl[i] == "'" and not (cl[i - 1] == "V" and cl[i + 1] == "V"):
            return False
    syl, first, singles = 0, None, 0
    for k, b, e in runs(cl):
        if k == "C":
            m = e - b
            if m >= 2:
                if first is None:
                    first = b
                    if singles > 1:
                        return False
                for i in range(b, e - 1):
                    if not h.isin(s[i:i + 2], pairs):
                        return False
                for i in range(b, e - 2):
                    if h.isin(s[i:i + 3], list(spec.BANNED_TRIPLES)):
                        return False
                if b == 0:
                    if m > 3 or not h.isin(s[0:2], I):
                        return False
                    if m == 3 and not h.isin(s[1:3], list(spec.ZIHEVLA_INITIAL)):
                        return False
                elif m == 3:
                    # C S C, or C + initial pair (that the first pair is permitted was seen above)
                    if not h.isin(s[b + 1], ["l", "m", "n", "r"]) and not h.isin(s[b + 1:e], I):
                        return False
                elif m > 3 and not long_cluster(h, s, b, e):
                    return False
            if first is None:
                singles += m
        elif k == "V":
            x = syllables(h, s, b, e, b == 0)
            if not x:
                return False
            syl += x
    if first is None or syl < 2:
        return False
    return first


def prop(h, job):
    s = string(h, job)
    st = settings(h, consonants="CLUSTER", glides=False)
    a = Api(h)
    r = a.analyse(s, **st)
    h.record(r)
    if r is not None and r[0] in ("GISMU", "LUJVO"):
        h.reach("gismu or lujvo")
        return
    if r is not None and r[0] in ("EXTENDED_LUJVO", "CMEVLA"):
        h.check(h.isin("y", s) or r[0] == "CMEVLA", "an extended lujvo has y")
        return
    first = shape_ok(h, s, st["allow_mz"])
    if first is None:
        return
    if first is False:
        h.reach("rejected")
        h.check(r is None, "no zi'evla outside the zi'evla phonotactics")
        return
    short = {"y_hyphens": st["y_hyphens"], "allow_mz": st["allow_mz"]}
    why = None
    for k in range(1, first + 1):
        if k == first or h.isin(s[k], C) or h.And(h.isin(s[k], ["i", "u"]), h.isin(s[k + 1], V)):
            if a.is_brivla(s[k:], **short):
                why = "falls apart"
                break
    if why is None and h.isin(s[0], C) and a.is_brivla("to" + s, **short):
        why = "slinku'i"
    if why is None:
        h.reach("zi'evla")
        h.check(r is not None, "a well-formed zi'evla is accepted")
    else:
        h.reach("rejected")
        h.check(r is None, "a word that falls apart is no zi'evla")
