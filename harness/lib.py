"""Vocabulary shared by the property harnesses: alphabets, templates, settings."""
import itertools

from engine import spec

C = list(spec.CONSONANTS)
V = list(spec.VOWELS)
L = C + V + ["y", "'"]
D = list(spec.DIPHTHONGS)
I = sorted(spec.INITIAL)
P = sorted(spec.VALID_MZ)
PRINTABLE = [chr(i) for i in range(32, 127)] + ["\t", "\n", "\u0130", "\u00df", "\u00e9", "\u212a", "\u3042", "\x00"]
LOJBAN_PUNCT = L + ["h", "H", ",", "."] + [c.upper() for c in C + V + ["y"]]
PERM = sorted(spec.VALID)          # permissible pairs, mz excluded
TOKENS = {"E": [c for c in LOJBAN_PUNCT if c != "."], "C": C, "V": V, "L": L, "D": D, "I": I, "P": P, "M": PERM, "*": PRINTABLE, "N": LOJBAN_PUNCT,
          "S": ["l", "m", "n", "r"], "G": ["i", "u"], "-": ["-"], "Q": [c.upper() for c in C], "K": C + V, "Z": C + V + ["'"], "W": V + ["y", "'"], "U": C + ["y", "'"]}

# rafsi shapes as templates
SHAPES = {
    "CVC": "CVC", "CCV": "IV", "CVV": "CD", "CVhV": "CV'V",
    "CVCC": "CVP", "CCVC": "IVC", "CVCCV": "CVPV", "CCVCV": "IVCV",
}


def string(h, tmpl, tag="c"):
    """A string over the template; upper-case letters are classes, the rest is literal."""
    s = ""
    for i, ch in enumerate(tmpl):
        vals = TOKENS.get(ch)
        s = s + (ch if vals is None else h.chars("%s%d%s" % (tag, i, ch), vals))
    return s


def tlen(tmpl):
    return sum(len(TOKENS[c][0]) if c in TOKENS else 1 for c in tmpl)


def settings(h, names=("y_hyphens", "exp_rafsi_shapes", "consonants", "glides", "allow_mz"), **fixed):
    d = {}
    for n in names:
        if n in fixed:
            d[n] = fixed[n]
            continue
        d[n] = h.choice(n, {"y_hyphens": list(spec.YS), "exp_rafsi_shapes": [False, True],
                            "consonants": list(spec.CONS), "glides": [False, True],
                            "allow_mz": [False, True]}[n])
    return d


class Api:
    """The package's public functions and error classes."""

    def __init__(self, h, fresh=False, table=None, own_table=False):
        overrides = None
        if table is not None:
            def put(m):
                m.RAFSI_LIST = h.dict_(table)
            overrides = {"rafsi": put}
        w = h.world(fresh=fresh or table is not None or own_table, overrides=overrides,
                    share_rafsi=table is None and not own_table)
        self.world = w
        p = w.load("")
        for n in ("get_lujvo", "get_lujvo_with_analytics", "get_veljvo", "score_lujvo", "is_brivla",
                  "analyse_brivla", "get_rafsi_indices"):
            setattr(self, n, getattr(p, n))
        for n in ("DecompositionError", "InvalidClusterError", "NoLujvoFoundError", "NonLojbanCharacterError",
                  "NotBrivlaError", "NotZihevlaError"):
            setattr(self, n, getattr(p, n))
        self.GEN_ERRORS = (self.NoLujvoFoundError, self.InvalidClusterError, self.NonLojbanCharacterError,
                           self.NotZihevlaError)
        self.VEL_ERRORS = (self.NotBrivlaError, self.DecompositionError)

    def analyse(self, w, **kw):
        """(type, pieces) or None."""
        try:
            t, p = self.analyse_brivla(w, **kw)
        except self.NotBrivlaError:
            return None
        return t, p

    def build(self, comps, **kw):
        """(word, score, indices) or None."""
        try:
            return self.get_lujvo_with_analytics(comps, **kw)
        except self.GEN_ERRORS:
            return None


def join(h, parts):
    if h.symbolic:
        from engine.values import s_join
        return s_join("", list(parts))
    return "".join(parts)


def count(h, xs):
    """Sum of truth values."""
    t = 0
    for x in xs:
        t = t + (x + 0 if not isinstance(x, bool) else int(x))
    return t


def is_hyphen(h, piece):
    return h.isin(piece, list(spec.HYPHENS))


# ------------------------------------------------------------------ tanru

COMPONENTS = {
    "cvc": "-CVC-", "ccv": "-IV-", "cvv": "-CD-", "cvhv": "-CV'V-",
    "cvcc": "CVP-", "ccvc": "IVC-",
    "gA": "CVPV", "gB": "IVCV",
}


def component(h, kind, tag):
    """kind: key of COMPONENTS, or a template after '='."""
    if kind.startswith("="):
        return string(h, kind[1:].replace("_", "-"), tag)
    t = COMPONENTS[kind]
    body = t.strip("-")
    s = string(h, body, tag)
    if t.startswith("-"):
        s = "-" + s
    if t.endswith("-"):
        s = s + "-"
    return s


def tanru(h, kinds):
    """(components, rafsi table).  A kind is "shape" or "gismu:shape,shape"."""
    comps, table = [], []
    for i, k in enumerate(kinds):
        if k[0] == "^":             # the same word again
            comps.append(comps[int(k[1:])])
            continue
        k, _, short = k.partition(":")
        c = component(h, k, "t%d" % i)
        comps.append(c)
        if k in ("gA", "gB") or _:
            for other, rs in table:
                h.assume(h.Not(h.eq(other, c)))     # one dictionary entry per word
            table.append((c, [string(h, SHAPES.get(s, s), "t%dr%d" % (i, j)) for j, s in enumerate(short.split(",")) if s]))
    return comps, table


def all_lengths(lo, hi, token="L"):
    return [token * n for n in range(lo, hi + 1)]


def shape_words(n, shapes, hyphens=("", "y", "'y"), final=None):
    """Templates of n rafsi with every hyphen between."""
    out = []
    for combo in itertools.product(shapes, repeat=n):
        for hy in itertools.product(hyphens, repeat=n - 1):
            t = SHAPES[combo[0]]
            for hyp, s in zip(hy, combo[1:]):
                t += hyp + SHAPES[s]
            if final is None or combo[-1] in final:
                out.append(t)
    return out
