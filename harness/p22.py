"""JavaScript and Python analyse words alike."""
from .lib import *
from . import strjobs
from .jsjobs import *

ID = "P22"
BOUNDS = ("every string over the Lojban letters to length 6 (thorough 7), over spelling variants to length 4 (5), over other characters "
          "to length 2 (3), plus the word templates; lists of up to 4 pieces; all settings symbolic; js/docs, and js/src where it "
          "compiles to different code; is_brivla and score_lujvo on a third of the templates; the same dictionary on both sides (symbolic rafsi)")
OUTSIDE = "longer strings off the templates; the full dictionary"
QUICK_S = 420.0
REACH = ("accepted", "rejected", "components", "pieces")


def jobs(tier):
    q = tier == "quick"
    out = [("p", k) for k in ((), (1,), (3, 1, 3), (2, 1, 2), (4, 2, 1, 5))]
    out += [("w", "L" * k) for k in range(0, 7 if q else 8)]
    out += [("w", "N" * k) for k in range(1, 5 if q else 6)]
    out += [("w", "*" * k) for k in range(1, 3 if q else 4)]
    words = strjobs.words2() + strjobs.joints() + strjobs.zihevla() + strjobs.extended()
    words += ["CVhVIVhV", ".CVhVCVhV", "IVCVCyV", "CV,CC,V", "C,VhV,IVCV", "IVVVVV", "VPVVVV", "VPVCy'VPVCV", "IVCVCy'VPVCV", "CVPVCy'VCV", "VPVy'VPV",
              "CVPVCV'yIV", "GVVyCVPV", "CV'V'yIVCV", "VCCCCCV", "VSCSCCV", "CVCCCCSV"]
    words += strjobs.long()
    if not q:
        words += strjobs.words3()
    full = set(strjobs.words2()[::3] + strjobs.extended())
    out += [("w" if w in full or not q else "a", w) for w in words]
    out += [("v", w) for w in ("CVCCVC", "CVCyIV", "CVPyCVC", "CDrCVC", "IVCVC", "IVCyCV'V", "CV'VnrVC", "CVCCVPV")]
    return list(dict.fromkeys(out))


def prop(h, job):
    what, x = job
    if what == "p":
        pieces = [string(h, "L" * n, "p%d" % i) for i, n in enumerate(x)]
        a, js = Api(h, table=[]), [jsworld.JsApi(h, v) for v in VARIANTS]
        h.reach("pieces")
        mine = a.get_rafsi_indices(pieces)
        h.record([list(p) for p in mine])
        for j in js:
            theirs = j.call("get_rafsi_indices", [pieces], None)
            h.record(theirs)
            h.check(theirs[1] is None and same(h, mine, theirs[0]), "the same indices")
        return
    s = string(h, x)
    st = settings(h)
    table = []
    if what == "v":
        table = [("gasnu", [string(h, "CVC", "r0"), string(h, "IV", "r1")]), ("klama", [string(h, "CD", "r2")]),
                 ("broda", [])]
    a, js = Api(h, table=table), [jsworld.JsApi(h, v, table=table) for v in VARIANTS]
    r = compare(h, a, js, "analyse_brivla", [s], st, "the same type and pieces")
    if r[1]:
        h.reach("rejected")
        if what == "w" and len(s) <= 5:
            compare(h, a, js, "is_brivla", [s], st, "the same verdict")
            compare(h, a, js, "get_veljvo", [s], st, "the same refusal to decompose")
        return
    h.reach("accepted")
    if what != "a":
        compare(h, a, js, "is_brivla", [s], st, "the same verdict")
    v = compare(h, a, js, "get_veljvo", [s], st, "the same components")
    if not v[1]:
        h.reach("components")
    if what != "a":
        compare(h, a, js, "score_lujvo", [s], st, "the same score")
