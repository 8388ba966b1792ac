"""Runs a harness over all paths of a job and has the solver decide each one."""
import contextlib
import random
import signal
import sys
import time
import traceback

from . import core, rx, values
from .rewrite import Source, World
from .values import SymBool, SymChoice, SymInt, SymStr, SDict, SSet, form, mk_char, mk_str, wrap
from .z3enc import Encoder
from . import spec

import z3

REPO = "/repo/py/latkerlo_jvotci"
PACKAGE = "latkerlo_jvotci"


class SymH:
    """Harness services, symbolic side."""
    symbolic = True

    def __init__(self, path, registry, source, shared):
        self.path = path
        self.registry = registry
        self.source = source
        self.shared = shared
        self.records = []
        self.reached = []
        self._world = None
        self.names = {}

    # inputs
    def _var(self, name, vals):
        v = self.registry.get(name)
        if v is None:
            v = core.Var(len(self.registry), name, vals)
            self.registry[name] = v
        if v.id not in self.path.vars:
            self.path.add_var(v)
        return v

    def chars(self, name, strings):
        """A string among `strings`, all of one length."""
        v = self._var(name, strings)
        n = len(v.values[0])
        return mk_str([mk_char(v, tuple(s[i] for s in v.values)) for i in range(n)])

    def choice(self, name, vals):
        v = self._var(name, vals)
        if v.n == 1:
            return v.values[0]
        return SymChoice(v, tuple(v.values))

    def image(self, x, f):
        """f of a choice (f is the harness's own)."""
        if isinstance(x, SymChoice):
            return SymChoice(x.var, tuple(f(o) for o in x.outs))
        return f(x)

    # conditions
    def assume(self, cond):
        self.path.assume(form(cond))

    def check(self, cond, label):
        self.path.checks.append((form(cond), label))

    def fail(self, label):
        self.path.checks.append((False, label))

    def reach(self, label):
        self.reached.append(label)

    def record(self, *vals):
        self.records.append(vals)

    # truth-value algebra without branching
    def And(self, *xs):
        return wrap(core.mk_and(*[form(x) for x in xs]))

    def Or(self, *xs):
        return wrap(core.mk_or(*[form(x) for x in xs]))

    def Not(self, x):
        return wrap(core.mk_not(form(x)))

    def Implies(self, a, b):
        return wrap(core.mk_or(core.mk_not(form(a)), form(b)))

    def eq(self, a, b):
        return values.s_eq(a, b)

    def isin(self, x, c):
        return values.s_in(x, c)

    # code under test
    def world(self, fresh=False, overrides=None, share_rafsi=True):
        if fresh or self._world is None:
            share = dict(self.shared) if share_rafsi else {}
            w = World(self.source, overrides, share)
            if fresh:
                return w
            self._world = w
        return self._world

    def dict_(self, *a):
        return SDict(*a)


class ConH:
    """Harness services, concrete side (replay on the unmodified code)."""
    symbolic = False

    def __init__(self, assignment, source):
        self.assignment = assignment
        self.source = source
        self.checks = []
        self.records = []
        self.reached = []
        self._world = None

    def chars(self, name, strings):
        return self.assignment.get(name, strings[0])

    def choice(self, name, vals):
        return self.assignment.get(name, vals[0])

    def image(self, x, f):
        return f(x)

    def assume(self, cond):
        if not cond:
            raise core.PathPruned()

    def check(self, cond, label):
        self.checks.append((bool(cond), label))

    def fail(self, label):
        self.checks.append((False, label))

    def reach(self, label):
        self.reached.append(label)

    def record(self, *vals):
        self.records.append(vals)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or b

    def eq(self, a, b):
        return a == b

    def isin(self, x, c):
        return x in c

    def world(self, fresh=False, overrides=None, share_rafsi=True):
        if fresh or self._world is None:
            w = World(self.source, overrides, None)
            if fresh:
                return w
            self._world = w
        return self._world

    def dict_(self, *a):
        return dict(*a)


def resolve(x, assign):
    """The concrete value of x under a total assignment var id -> index."""
    t = type(x)
    if t is SymStr:
        return "".join(c if type(c) is str else c.outs[assign[c.var.id]] for c in x.chars)
    if t is SymBool:
        return core.eval_under(x.f, assign)
    if t is SymInt:
        return x.const + sum(w[assign[v.id]] for v, w in x.terms.items())
    if t is SymChoice:
        return x.outs[assign[x.var.id]]
    if isinstance(x, (SDict,)):
        return {resolve(k, assign): resolve(v, assign) for k, v in x.items()}
    if isinstance(x, list):
        return [resolve(y, assign) for y in x]
    if isinstance(x, tuple):
        return tuple(resolve(y, assign) for y in x)
    return x


class Hang(BaseException):
    pass


def _on_alarm(*a):
    raise Hang()


@contextlib.contextmanager
def limit(seconds):
    """Raises Hang in the block after that many seconds (main thread only)."""
    try:
        old = signal.signal(signal.SIGALRM, _on_alarm)
    except ValueError:
        yield
        return
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


NATIVE_LIMIT = 10.0
PATH_LIMIT = 90.0


def run_concrete(prop, job, assignment, source, timeout=NATIVE_LIMIT):
    """Returns (failed labels, records, reached) of the native code on one input."""
    h = ConH(assignment, source)
    try:
        with limit(timeout):
            prop(h, job)
    except Hang:
        h.checks.append((False, "does not terminate"))
    except core.PathPruned:
        return None, h.records, h.reached
    except Exception as e:
        h.checks.append((False, "unexpected %s" % type(e).__name__))
    return [l for ok, l in h.checks if not ok], h.records, h.reached


class Result:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.forced = 0
        self.queries = 0
        self.solver_s = 0.0
        self.pruned = 0
        self.vacuous = 0
        self.unknown = 0
        self.checks = 0
        self.concretised = 0
        self.validated = 0
        self.reached = {}
        self.samples = []
        self.violations = []     # (label, assignment, job)
        self.errors = []
        self.functions = set()
        self.leftover = []
        self.budget = 0

    def merge(self, o):
        for k in ("paths", "decisions", "forced", "queries", "solver_s", "pruned", "vacuous", "unknown", "checks",
                  "concretised", "validated", "budget"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples.extend(o.samples[:12 - len(self.samples)])
        self.violations.extend(o.violations)
        self.errors.extend(o.errors)
        self.functions |= o.functions


_shared_cache = {}


def shared_modules(source):
    """Modules reused between paths: only the big dictionary."""
    k = id(source)
    if k not in _shared_cache:
        d = {}
        try:
            w = World(source)
            d["rafsi"] = w.load("rafsi")
        except Exception:
            d = {}
        _shared_cache[k] = d
    return _shared_cache[k]


def _trace_functions(out):
    mon = sys.monitoring
    tool = 4

    def start(code, off):
        fn = code.co_filename
        if fn.startswith("/repo/"):
            out.add(fn.rsplit("/", 1)[1] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.use_tool_id(tool, "fn")
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return lambda: (mon.set_events(tool, 0), mon.free_tool_id(tool))


def explore(prop, job, prefixes, source, native, max_paths=400, max_time=20.0, witness=2, seed=1, max_decisions=20000,
            stop_after=3):
    """Explore the subtree of the given prefixes.  Returns a Result (with .leftover prefixes)."""
    res = Result()
    values.reset()
    rx.reset()
    core.reset_cons()
    registry = {}
    enc = Encoder()
    shared = shared_modules(source)
    stack = list(prefixes)
    t0 = time.time()
    rnd = random.Random("%s/%s/%s" % (seed, job, prefixes[0] if prefixes else ""))
    wit_at = {0, 3, 10, 40, 120, 300}
    while stack:
        if res.paths >= max_paths or time.time() - t0 > max_time:
            res.leftover = stack
            break
        if len(res.violations) >= stop_after:
            break
        prefix = stack.pop()
        path = core.Path(prefix, max_decisions)
        core.set_cur(path)
        h = SymH(path, registry, source, shared)
        base = False
        label = None
        status = "ok"
        undo = None
        if res.paths == 0:
            try:
                undo = _trace_functions(res.functions)
            except Exception:
                undo = None
        try:
            with limit(PATH_LIMIT):
                prop(h, job)
        except Hang:
            status = "budget"
            res.budget += 1
        except core.PathPruned:
            status = "pruned"
            res.pruned += 1
        except core.PathInfeasible:
            status = "infeasible"
            base = True
        except core.BudgetExceeded as e:
            status = "budget"
            res.budget += 1
        except core.EngineError as e:
            status = "error"
            res.errors.append("engine: %s (job %r)" % (e, job))
        except RecursionError:
            status = "error"
            res.errors.append("recursion (job %r)" % (job,))
        except Exception as e:
            label = "unexpected %s" % type(e).__name__
            base = True
            h.tb = traceback.format_exc()
        finally:
            if undo:
                undo()
        res.paths += 1
        res.decisions += sum(1 for x in path.taken if not x[2])
        res.forced += sum(1 for x in path.log if x[2] is True)
        res.concretised += path.stats_concretised
        stack.extend(path.pending)
        if status in ("error", "budget"):
            # undecided by the encoding; one input of the path is still run natively
            r, model = enc.model_of(path.log)
            if r == z3.sat:
                assign = enc.assignment(model, registry.values())
                conc = {v.name: v.values[assign[v.id]] for v in registry.values()}
                failed, recs, _ = run_concrete(prop, job, conc, native)
                if failed:
                    res.violations.append((failed[0], conc, job))
            continue
        if status == "pruned":
            if path.prune_conflict:
                base = True         # an assumption propagation called impossible: the solver confirms it
            elif not any(x[2] is True for x in path.log):
                continue
        res.checks += len(path.checks)
        bad = base
        if status == "ok" and label is None:
            fs = [f for f, _ in path.checks if f is not True]
            bad = core.mk_or(*[core.mk_not(f) for f in fs]) if fs else False
        for f in [bad]:
            if f is not True and f is not False:
                for v in f.vars:
                    enc.var(v)
        if bad is False and not any(x[2] is True for x in path.log):
            r, model = z3.unsat, None      # nothing to decide: no forced branch, no open check
        else:
            r, model = enc.certify(path.log, enc.enc(bad) if bad is not True and bad is not False else z3.BoolVal(bad))
        if r == z3.unknown:
            res.unknown += 1
            res.errors.append("solver: unknown (job %r)" % (job,))
            continue
        if r == z3.sat:
            assign = enc.assignment(model, registry.values())
            conc = {v.name: v.values[assign[v.id]] for v in registry.values()}
            if status != "ok":
                res.errors.append("engine: propagation not confirmed by the solver (job %r, %r)" % (job, conc))
                continue
            failed, recs, _ = run_concrete(prop, job, conc, native)
            if failed:
                res.violations.append((failed[0], conc, job))
            else:
                lab = label or next((l for f, l in path.checks
                                     if f is not True and not core.eval_under(f, assign)), "forced branch")
                res.errors.append("not reproduced: %s (job %r, %r)%s" % (
                    lab, job, conc, "\n" + h.tb if label else ""))
            continue
        if status == "infeasible":
            res.vacuous += 1
            continue
        if status != "ok":
            continue
        for l in h.reached:
            pass
        if (res.paths - 1) in wit_at or rnd.random() < 0.02 or any(l not in res.reached for l in h.reached):
            r, model = enc.model_of(path.log)
            if r == z3.sat:
                assign = enc.assignment(model, registry.values())
                conc = {v.name: v.values[assign[v.id]] for v in registry.values()}
                failed, recs, reached = run_concrete(prop, job, conc, native)
                want = [resolve(x, assign) for x in h.records]
                if failed:
                    res.errors.append("native run fails where the encoding holds: %s (job %r, %r)" % (failed, job, conc))
                elif recs != want or reached != h.reached:
                    res.errors.append("encoding differs from the native run (job %r, %r): %r / %r" % (
                        job, conc, want, recs))
                else:
                    res.validated += 1
                    for l in h.reached:
                        res.reached[l] = res.reached.get(l, 0) + 1
                    if len(res.samples) < 4:
                        res.samples.append({"job": repr(job), "input": conc, "observed": repr(recs)[:400]})
            elif r == z3.unsat:
                res.vacuous += 1
    res.queries = enc.queries
    res.solver_s = enc.seconds
    core.set_cur(None)
    return res
