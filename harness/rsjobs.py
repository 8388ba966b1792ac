"""Comparing the Python package with the Rust crate."""
from engine import rsworld

from .lib import *
from .jsjobs import answer, same

rsworld.prepare()                   # built here, before the checks fork


# fewer than two components: each names its documented error
ERRORS = {"FakeTypeError": "NoLujvoFoundError"}


def compare(h, a, rs, name, args, kw, label):
    """Asks both and checks that they agree; returns Python's answer."""
    mine = answer(a, name, args, kw)
    h.record(mine)
    theirs = rs.call(name, args, kw)
    h.record(theirs)
    if mine[1] or theirs[1]:
        h.check(theirs[1] != "panic", label + " (no panic)")
        h.check(mine[1] == ERRORS.get(theirs[1], theirs[1]), label + " (error)")
    else:
        h.check(same(h, mine[0], theirs[0]), label)
    return mine
