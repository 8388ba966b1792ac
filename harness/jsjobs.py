"""Comparing the Python package with the JavaScript."""
from engine import jsworld

from .lib import *

VARIANTS = jsworld.variants()       # read here, before the checks fork
for _v in VARIANTS:
    jsworld.code(_v)


def answer(a, name, args, kw):
    """(value, None) or (None, error name) of the Python function."""
    try:
        return getattr(a, name)(*args, **kw), None
    except (a.DecompositionError, a.InvalidClusterError, a.NoLujvoFoundError, a.NonLojbanCharacterError, a.NotBrivlaError,
            a.NotZihevlaError) as e:
        return None, type(e).__name__


def same(h, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and h.And(*[same(h, x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return a is b
    return h.eq(a, b)


def compare(h, a, js, name, args, kw, label):
    """Asks both and checks that they agree; returns Python's answer."""
    mine = answer(a, name, args, kw)
    h.record(mine)
    for j in js:
        theirs = j.call(name, args, kw)
        h.record(theirs)
        if mine[1] or theirs[1]:
            h.check(mine[1] == theirs[1], label + " (error)")
        else:
            h.check(same(h, mine[0], theirs[0]), label)
    return mine
