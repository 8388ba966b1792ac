"""Rust settings strings."""
from .rsjobs import *

ID = "P27"
BOUNDS = ("every setting (all fields symbolic) shown and read back; every flag string over the ten flags and two others to length 5 (thorough 7) "
          "read; every flag string to length 4 (6) applied to every setting; the whole list of settings")
OUTSIDE = "longer flag strings"
REACH = ("shown", "read", "refused", "applied", "not applied", "list")
F = list("cSAFC21rgz")
ALL = ("generate_cmevla", "y_hyphens", "consonants", "exp_rafsi_shapes", "glides", "allow_mz")
BIT = {"generate_cmevla": "c", "exp_rafsi_shapes": "r", "glides": "g", "allow_mz": "z"}
PICK = {"y_hyphens": {"A": "ALLOW_Y", "F": "FORCE_Y"}, "consonants": {"2": "TWO_CONSONANTS", "1": "ONE_CONSONANT"}}
BASE = {"y_hyphens": ("S", "STANDARD"), "consonants": ("C", "CLUSTER")}


def jobs(tier):
    n, m = (5, 4) if tier == "quick" else (7, 6)
    return [("show",), ("list",)] + [("read", k) for k in range(n + 1)] + [("apply", k) for k in range(m + 1)]


def flags(h, n):
    s = ""
    for i in range(n):
        s = s + h.chars("f%d" % i, F + ["x", "3"])
    return s


def everything(h):
    return dict(settings(h), generate_cmevla=h.choice("cm", [False, True]))


def times(h, s, cs):
    return count(h, [h.isin(c, list(cs)) for c in s])


def prop(h, job):
    rs = rsworld.RsApi(h)
    if job[0] == "list":
        h.reach("list")
        v, e = rs.call("all_settings", [])
        keys = [tuple(x[f] for f in ALL) for x in v]
        h.record(keys)
        h.check(e is None and len(keys) == 144 and len(set(keys)) == 144, "every setting once")
        return
    if job[0] == "show":
        h.reach("shown")
        st = everything(h)
        text, e = rs.call("show", [], st)
        h.record((text, e))
        h.check(e is None, "shown")
        back, e = rs.call("parse", [text])
        h.record((back, e))
        h.check(e is None, "read back")
        for f in ALL:
            h.check(h.eq(back[f], st[f]), "the same " + f)
        return
    s = flags(h, job[1])
    if job[0] == "read":
        v, e = rs.call("parse", [s])
        h.record((v, e))
        good = h.And(times(h, s, F) == len(s), *[times(h, s, g) <= 1 for g in ("c", "r", "g", "z", "SAF", "C21")])
        h.check(h.eq(e is None, good), "accepted exactly when well formed")
        if e is not None:
            h.reach("refused")
            return
        h.reach("read")
        for f, c in BIT.items():
            h.check(h.eq(v[f], times(h, s, c) == 1), "the flag of " + f)
        for f, d in PICK.items():
            for c, name in d.items():
                h.check(h.eq(h.eq(v[f], name), times(h, s, c) == 1), "the flag %s" % c)
            h.check(h.isin(v[f], [BASE[f][1]] + list(d.values())), "a value of " + f)
        return
    st = everything(h)
    (ok, v), e = rs.call("apply_flags", [s], st)
    h.record((ok, v, e))
    h.check(e is None, "no panic")
    h.check(h.eq(ok, times(h, s, F) == len(s)), "applied exactly when only flags")
    if not ok:
        h.reach("not applied")
        for f in ALL:
            h.check(h.eq(v[f], st[f]), "unchanged " + f)
        return
    h.reach("applied")
    for f, c in BIT.items():
        on = h.eq(st[f], True)
        for ch in s:
            hit = h.eq(ch, c)
            on = h.Or(h.And(hit, h.Not(on)), h.And(h.Not(hit), on))
        h.check(h.eq(h.eq(v[f], True), on), "toggled " + f)
    for f, d in PICK.items():
        # a flag selects its value, or the default when it was selected already
        (a, va), (b, vb) = d.items()
        base, default = BASE[f]
        is_a, is_b = h.eq(st[f], va), h.eq(st[f], vb)
        for ch in s:
            other = h.Not(h.isin(ch, [a, b, base]))
            is_a, is_b = (h.Or(h.And(h.eq(ch, a), h.Not(is_a)), h.And(other, is_a)),
                          h.Or(h.And(h.eq(ch, b), h.Not(is_b)), h.And(other, is_b)))
        h.check(h.eq(h.eq(v[f], va), is_a), "flag " + a)
        h.check(h.eq(h.eq(v[f], vb), is_b), "flag " + b)
        h.check(h.isin(v[f], [default, va, vb]), "a value of " + f)
