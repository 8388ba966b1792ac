"""Engine conformance: every function of pkg/ run symbolically must agree with CPython on one input of every path,
and the paths together must cover every input.

    python3-vt selftest/run.py [REGEX]
"""
import itertools
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
from engine import core, explore, values, rx      # noqa: E402
from engine.rewrite import Source                  # noqa: E402
from engine.z3enc import Encoder                   # noqa: E402
import z3                                          # noqa: E402

PKG = os.path.join(HERE, "pkg", "py", "latkerlo_jvotci")
ALPHA = ["a", "b", "y", "'", "h", "r", "E"]


def norm(x):
    if isinstance(x, dict):
        return ("dict", [(norm(k), norm(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (set, frozenset)) or type(x).__name__ == "SSet":
        return ("set", sorted(norm(v) for v in x))
    return x


def main():
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else "")
    src, nat = Source("latkerlo_jvotci", PKG), Source("latkerlo_jvotci", PKG, native=True)
    from engine.rewrite import World
    names = [f.__name__ for f in World(nat).load("").T]
    bad = 0
    for i, name in enumerate(names):
        if not pat.search(name):
            continue
        msgs, paths, covered = [], 0, 0
        for n in range(0, 4):
            def prop(h, job):
                w = ""
                for k in range(n):
                    w = w + h.chars("c%d" % k, ALPHA)
                r = h.world().load("").T[i](w)
                h.record(r)
            values.reset(); rx.reset(); core.reset_cons()
            reg, enc = {}, Encoder()
            stack = [[]]
            while stack:
                path = core.Path(stack.pop(), 20000)
                core.set_cur(path)
                h = explore.SymH(path, reg, src, {})
                try:
                    prop(h, n)
                    st = None
                except core.PathInfeasible:
                    stack.extend(path.pending)
                    continue
                except core.EngineStop as e:
                    st = "%s: %s" % (type(e).__name__, e)
                except Exception as e:
                    import traceback
                    st = "raises %s: %s %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-4:-1])
                stack.extend(path.pending)
                paths += 1
                if st:
                    msgs.append((n, st))
                    break
                # two models of each path
                for seed in range(2):
                    r, model = enc.model_of(path.log)
                    if r != z3.sat:
                        break
                    assign = enc.assignment(model, reg.values())
                    conc = {v.name: v.values[assign[v.id]] for v in reg.values()}
                    failed, recs, _ = explore.run_concrete(prop, n, conc, nat)
                    want = [explore.resolve(x, assign) for x in h.records]
                    if failed:
                        msgs.append((conc, failed))
                    elif norm(want) != norm(recs):
                        msgs.append((conc, want, recs))
                    break
            core.set_cur(None)
        if msgs:
            bad += 1
            print("%-22s %4d paths  BAD %s" % (name, paths, str(msgs[0])[:400]))
        elif len(sys.argv) > 1:
            print("%-22s %4d paths ok" % (name, paths))
    print("%d functions, %d bad" % (len(names), bad))
    return bad > 0


sys.exit(main())
