"""Lujvo well-formedness is exact."""
import itertools

from .lib import *

ID = "P19"
BOUNDS = ("words built from 2, 3 and (CVC chains) 4 CLL rafsi of every shape with every hyphen (none, y, 'y, r, n) at every "
          "joint, every letter symbolic; both word kinds; all y-hyphen, consonant and mz settings (quick: CLUSTER only from 3 rafsi, default settings from 4)")
OUTSIDE = "longer words but for twelve of 5-6 rafsi, partly written out; experimental rafsi shapes and glides, which do not enter CLL lujvo; slinku'i is P08's subject"
REACH = ("well-formed brivla", "well-formed cmevla", "malformed")

T = {"cvc": "CVC", "ccv": "CCV", "cvv": "CVV", "cvhv": "CV'V", "cvcc": "CVCC", "ccvc": "CCVC", "A": "CVCCV", "B": "CCVCV"}
# templates wide enough to hold ill-formed letters too
HY = ("", "y", "'y", "r", "n")
VOWELFINAL = ("ccv", "cvv", "cvhv", "A", "B")


def jobs(tier):
    q = tier == "quick"
    return [j + (q,) for j in words(q)]


def words(q):
    out = []
    heads = ("cvc", "ccv", "cvv", "cvhv", "cvcc", "ccvc")
    for a in heads + ("A", "B"):
        for x in HY:
            for b in T:
                out.append(((a, b), (x,)))
    mids = heads if not q else ("cvc", "ccv", "cvv")
    for a in heads:
        for b in mids:
            for x in HY:
                for y in HY:
                    # joints hopeless for every letter are left to the two-rafsi words
                    if hopeless(a, x) or hopeless(b, y):
                        continue
                    for c in (("ccv", "A", "cvc") if q else tuple(T)):
                        if q and (a in ("cvcc", "ccvc") and (b != "cvc" or c != "ccv") or a == "cvhv" and (b == "cvv" or c == "A")):
                            continue
                        out.append(((a, b, c), (x, y)))
    for x, y, z in itertools.product(("", "y"), repeat=3):
        for c in ("A", "ccv") if q else ("A", "ccv", "cvv", "B", "cvc"):
            out.append((("cvc", "cvc", "cvc", c), (x, y, z)))
    # five and more, partly written out
    for k in LONG:
        k = k.split()
        out.append((tuple(x for x in k if x not in HY), tuple("" if a not in HY and b not in HY else a for a, b in zip(k, k[1:]) if a in HY or b not in HY)))
    return out


LONG = ("ccv=bla cvc cvv=gau ccv cvv", "cvv r ccv=bla cvc y cvc=tav cvc ccv=kla", "cvc cvc=pav cvc cvc=bas ccv", "ccv=bla cvv r ccv cvhv=ta'i A",
        "cvc=tos cvc cvc=ras cvc y ccv=bla", "cvc=tos cvc=mab cvc=ras cvc y ccv=bla A", "cvc y cvc=mab cvc=ras cvc A", "cvhv=ba'u r cvv=kai cvv r cvc ccv=bla",
        "cvv 'y ccv=bla cvc cvv=gau ccv cvv", "ccvc=blat y cvv cvc ccv=kla cvcc=kelr y cvc cvv=mai", "cvc cvcc y cvc=nar cvc B", "cvv=mai n cvc=ril cvv n ccv=kla cvc=rin ccv")


def hopeless(s, x):
    """No letters make the hyphen right."""
    if s in ("cvc", "ccv", "cvcc", "ccvc") and x in ("r", "n"):
        return True
    if s in ("cvc", "cvcc", "ccvc") and x == "'y":
        return True
    if s in ("cvcc", "ccvc") and x == "":
        return True
    return s in ("cvv", "cvhv") and x == "y"


def well_formed(h, shapes, r, hy, ys, mz, cm, cons):
    """CLL chapter 4, with the r-hyphens this library also admits."""
    n = len(shapes)
    pairs = P if mz else PERM
    cond = []
    for i, (s, x) in enumerate(zip(shapes, r)):
        last = i == n - 1
        if s in ("cvcc", "A"):
            cond.append(h.isin(x[2:4], pairs))
        if s in ("ccv", "ccvc", "B"):
            cond.append(h.isin(x[:2], I))
        if s == "cvv":
            cond.append(h.isin(x[1:3], D))
        if s in ("A", "B") and not last:
            return False
    end = shapes[-1]
    if (end in VOWELFINAL) == cm:
        return False
    # tosmabru: a brivla that starts CVC, joined by initial pairs up to CVC/CV with an initial pair, or up to a CVC that takes y
    def toss(k, y_at):
        """h: with the hyphens before joint k empty, does rafsi 0..k-1 plus the rest fall off?"""
        if k == n:
            return False
        joint = h.isin(r[k - 1][-1] + r[k][0], I)
        if shapes[k] == "A":
            return h.And(joint, h.isin(r[k][2:4], I))
        if shapes[k] == "cvc":
            if k == n - 1:
                return False
            return h.And(joint, h.Or(need_y(k), toss(k + 1, y_at)))
        return False

    def need_y(i):
        """Rafsi i, a CVC, cannot stand directly before rafsi i + 1."""
        return h.Or(h.Not(h.isin(r[i][-1] + r[i + 1][0], pairs)), h.isin(r[i][-1] + r[i + 1][:2], list(spec.BANNED_TRIPLES)))
    for i in range(n - 1):
        s, x = shapes[i], hy[i]
        if s in ("cvcc", "ccvc"):
            cond.append(x == "y")
        elif s == "cvc":
            need = need_y(i)
            if i == 0 and not cm:
                need = h.Or(need, toss(1, 0))
            cond.append(need if x == "y" else h.Not(need) if x == "" else False)
        elif s == "ccv":
            cond.append(x == "")
        else:
            nx = h.eq(r[i + 1][0], "r")
            right = nx if x == "n" else h.Not(nx) if x == "r" else True
            must = i == 0 and not cm and not (n == 2 and shapes[1] == "ccv")
            may = i > 0 or shapes[1] in ("ccv", "ccvc", "B")
            if ys == "FORCE_Y":
                cond.append(x == ("'y" if must else ""))
            elif x == "":
                cond.append(not must)
            elif x in ("r", "n"):
                cond.append(right if must or may else False)
            else:
                cond.append(False)
    if cons == "CLUSTER" and all(s in ("cvv", "cvhv") for s in shapes) and not ({"r", "n"} & set(hy)):
        return False
    return h.And(*cond)


def prop(h, job):
    shapes, hy, narrow = job
    # the mz option only matters where m meets z
    fixed = {}
    if narrow and len(shapes) > 2:
        fixed["consonants"] = "CLUSTER"
    if narrow and len(shapes) > 3 and not any("=" in x for x in shapes):
        fixed.update(y_hyphens="STANDARD", allow_mz=False)
    st = settings(h, glides=False, exp_rafsi_shapes=False, **fixed)
    a = Api(h)
    r = [s.partition("=")[2] or string(h, T[s], "r%d" % i) for i, s in enumerate(shapes)]
    shapes = [s.partition("=")[0] for s in shapes]
    w = ""
    pieces = []
    for i, x in enumerate(r):
        w = w + x
        pieces.append(x)
        if i < len(hy) and hy[i]:
            w = w + hy[i]
            pieces.append(hy[i])
    cm = shapes[-1] not in VOWELFINAL
    ok = well_formed(h, shapes, r, hy, st["y_hyphens"], st["allow_mz"], cm, st["consonants"])
    if ok:
        # slinku'i: CV + w read as one word
        if a.is_brivla("to" + w, **st):
            h.record("slinku'i")
            return
        h.reach("well-formed cmevla" if cm else "well-formed brivla")
        g = a.analyse(w, **st)
        h.record(g)
        h.check(g is not None and g[0] == ("CMEVLA" if cm else "LUJVO"), "a well-formed lujvo is accepted")
        if g is not None:
            h.check(len(g[1]) == len(pieces) and h.And(*[h.eq(p, q) for p, q in zip(g[1], pieces)]), "and read as built")
        return
    h.reach("malformed")
    g = a.analyse(w, **st)
    h.record(g)
    if g is None or g[0] != "LUJVO":
        return
    h.check(len(g[1]) != len(pieces) or h.Or(*[h.Not(h.eq(p, q)) for p, q in zip(g[1], pieces)]),
            "a malformed lujvo is not accepted as one")
