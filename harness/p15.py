"""Veljvo name the right components and rebuild the word."""
from .lib import *
from . import strjobs

ID = "P15"
BOUNDS = ("lujvo templates of 2 and 3 pieces with every letter symbolic, against a symbolic dictionary of up to two "
          "gismu with short rafsi; five longer words, partly written out; all settings")
OUTSIDE = "larger dictionaries; zi'evla lujvo beyond the listed templates"
REACH = ("selrafsi", "formatted", "rebuilt")

TABLES = (("CVPV:CVC",), ("IVCV:IV",), ("CVPV:CD,CVC",), ("CVPV:CVC", "IVCV:CV'V"), ())


def jobs(tier):
    out = []
    w = ["CVCCVPV", "CVCIVCV", "CVCIV", "CVCCVC", "CVPyIV", "IVCyCVC", "CVCyCVPV", "CDrCVPV", "CV'VrCVC", "IVIV",
         "CVPyCVPV", "CV'Vr~IVCV".replace("~", ""), "IVCyIVCV"]
    ext = ["VPVCV'yIV", "VPVCyCVC", "CVCyVPV", "IVCVCyIV", "CVCy'VPVCV", "IV'yCVPVCV", "CVPV'yIV", "CVPVnCD"]
    three = ["CVCIVIV", "CDrCVCIV"] + ([] if tier == "quick" else ["CVCyCVPyIV", "CVCCVCIV", "IVCVCCVPV"])
    q = tier == "quick"
    for t in TABLES:
        for x in w:
            if q and t == TABLES[2] and len(x) > 7:
                continue
            out.append((x, t, q))
    for x in ("CVCCVPV", "CDCVC", "IVCVC", "CV'VCVC"):
        out.append((x, ("=gasnu:CVC,CD,IV",), "narrow" if q else False))
        out.append((x, ("=broda:CV'V,CD", "=gasnu:CVC"), "narrow" if q else False))
    for x in ("klaCVCmauIVblaCD", "CDrblagauCVCblakla", "mlatyCVPyblaspageti'ygau", "kalblagauCVC", "blagaukalmaiCVPV"):
        out.append((x, TABLES[0], q))
        out.append((x, ("=bakla:kal,gau",), q))
    for t in TABLES[:2] if q else TABLES:
        for x in ext + three:
            out.append((x, t, q))
    return out


def prop(h, job):
    tmpl, tabs, narrow = job
    table = []
    for i, e in enumerate(tabs):
        g, _, rs = e.partition(":")
        word = string(h, g.lstrip("="), "g%d" % i)
        for o, _rs in table:
            h.assume(h.Not(h.eq(o, word)))
        table.append((word, [string(h, r, "g%dr%d" % (i, j)) for j, r in enumerate(rs.split(","))]))
    allr = [r for _, rs in table for r in rs]
    for i in range(len(allr)):
        for j in range(i):
            h.assume(h.Not(h.eq(allr[i], allr[j])))     # no rafsi belongs to two words
    s = string(h, tmpl)
    st = settings(h, **({"glides": False, "consonants": "CLUSTER", "allow_mz": False} if narrow else {}),
                  **({"exp_rafsi_shapes": False, "y_hyphens": "STANDARD"} if narrow == "narrow" else {}))
    a = Api(h, table=table)
    r = a.analyse(s, **st)
    if r is None or r[0] not in ("LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
        h.record(None)
        return
    rafsi = [p for p in r[1] if not is_hyphen(h, p)]
    # gismu differ within their first four letters, those of the dictionary and those in the word
    gs = [g for g, _ in table] + [p for p in rafsi if len(p) == 5 and h.isin(p[-1], V)]
    for i in range(len(gs)):
        for j in range(i):
            h.assume(h.Or(h.eq(gs[i], gs[j]), h.Not(h.eq(gs[i][:4], gs[j][:4]))))
    v = a.get_veljvo(s, **st)
    h.record(r, v)
    h.check(len(v) == len(rafsi), "one component per rafsi")
    for c, p in zip(v, rafsi):
        owners = []
        for g, rs in table:
            four = h.And(h.eq(len(p), 4), h.eq(g[:4], p), h.Not(h.eq(p, "brod")), h.Not(h.isin("'", p)))
            owners.append((g, h.Or(four, *[h.eq(p, x) for x in rs])))
        own = h.Or(*[o for _, o in owners]) if owners else False
        if own:
            h.reach("selrafsi")
            h.check(h.Or(*[h.And(o, h.eq(c, g)) for g, o in owners]), "a rafsi is named by the word it belongs to")
        else:
            h.reach("formatted")
            h.check(h.eq(c.strip("-"), p), "an unassigned rafsi is named by itself")
    cm = r[0] == "CMEVLA"
    try:
        w2, sc2, ix2 = a.get_lujvo_with_analytics(list(v), generate_cmevla=cm, **st)
    except a.GEN_ERRORS as e:
        h.fail("the veljvo of a lujvo gives no lujvo")
        return
    h.reach("rebuilt")
    h.record(w2, sc2)
    h.check(sc2 <= a.score_lujvo(s, **st), "the rebuilt word scores no worse")
    v2 = a.get_veljvo(w2, **st)
    # a gismu the dictionary lacks may come back as its first four letters
    h.check(len(v2) == len(v) and h.And(*[h.Or(h.eq(x, y), h.eq(x[:4] + "-", y) if len(x) == 5 else False)
                                          for x, y in zip(v, v2)]), "and has the same veljvo")
