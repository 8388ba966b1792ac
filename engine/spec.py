"""Lojban morphology as The Complete Lojban Language (chapter 3 and 4) states it.

Written from the grammar, not from the code under test.
"""
CONSONANTS = "bcdfgjklmnprstvxz"
VOWELS = "aeiou"
VOICED = "bdgjvz"
UNVOICED = "cfkpstx"
SIBILANTS = "cjsz"
DIPHTHONGS = ("ai", "ei", "oi", "au")


def permissible(a, b, mz=False):
    """CLL 3.6: permissible consonant pairs."""
    if a == b:
        return False
    if (a in VOICED and b in UNVOICED) or (a in UNVOICED and b in VOICED):
        return False
    if a in SIBILANTS and b in SIBILANTS:
        return False
    if a + b in ("cx", "kx", "xc", "xk"):
        return False
    if a + b == "mz":
        return mz
    return True


VALID = frozenset(a + b for a in CONSONANTS for b in CONSONANTS if permissible(a, b))
VALID_MZ = VALID | {"mz"}

# CLL 3.7: the 48 permissible initial pairs
INITIAL = frozenset("""bl br cf ck cl cm cn cp cr ct dj dr dz fl fr gl gr jb jd jg jm jv kl kr ml mr pl pr
sf sk sl sm sn sp sr st tc tr ts vl vr xl xr zb zd zg zm zv""".split())
BANNED_TRIPLES = frozenset(("ndj", "ndz", "ntc", "nts"))

YS = ("STANDARD", "ALLOW_Y", "FORCE_Y")
CONS = ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT")
HYPHENS = ("r", "n", "y", "'y", "y'", "'y'")

# second and third consonant of a three-consonant zi'evla onset
ZIHEVLA_INITIAL = frozenset("bl br dr fl fr gl gr kl kr ml mr pl pr tr vl vr".split())
