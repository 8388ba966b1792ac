#!/usr/bin/env python3-vt
"""Decides one property of /repo by symbolic execution of its current source.

    python3-vt check.py P01 [--tier quick|thorough] [--jobs REGEX] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<file>": a counterexample found by the solver
and reproduced by the real, imported package.  Anything else: exit 2.
"""
import argparse
import heapq
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REPO_PY = os.environ.get("LATKERLO_REPO", "/repo") + "/py"
EVIDENCE = os.path.join(HERE, "evidence")


def harness(pid):
    return importlib.import_module("harness." + pid.lower())


# -------------------------------------------------------------------- workers

_W = {}


def _init(pid, seed):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from engine import explore
    from engine.rewrite import Source
    sys.setrecursionlimit(20000)
    _W["mod"] = harness(pid)
    _W["E"] = explore
    _W["seed"] = seed
    d = os.path.join(REPO_PY, "latkerlo_jvotci")
    _W["src"] = Source("latkerlo_jvotci", d)
    _W["nat"] = Source("latkerlo_jvotci", d, native=True)


def _work(task):
    job, prefixes, max_paths, max_time = task
    try:
        return _W["E"].explore(_W["mod"].prop, job, prefixes, _W["src"], _W["nat"], max_paths=max_paths,
                               max_time=max_time, seed=_W["seed"])
    except Exception as e:      # noqa: BLE001
        import traceback
        r = _W["E"].Result()
        r.errors.append("worker: %s\n%s" % (e, traceback.format_exc()[-1500:]))
        return r


# --------------------------------------------------------------------- replay


class GenuineSource:
    """Imports the real package from /repo, nothing rewritten."""
    native = True
    package = "latkerlo_jvotci"


class GenuineWorld:
    def __init__(self, overrides=None):
        import types
        self.mods = {}
        for k in [k for k in sys.modules if k == "latkerlo_jvotci" or k.startswith("latkerlo_jvotci.")]:
            del sys.modules[k]
        if REPO_PY not in sys.path:
            sys.path.insert(0, REPO_PY)
        if overrides and "rafsi" in overrides:
            # the dictionary is data: the stub stands in for it before anything reads it
            m = types.ModuleType("latkerlo_jvotci.rafsi")
            m.__file__ = "<stub>"
            overrides["rafsi"](m)
            sys.modules["latkerlo_jvotci.rafsi"] = m
        self.pkg = importlib.import_module("latkerlo_jvotci")
        assert self.pkg.__file__.startswith(REPO_PY), self.pkg.__file__
        for k, v in list(sys.modules.items()):
            if k == "latkerlo_jvotci" or k.startswith("latkerlo_jvotci."):
                self.mods[k[len("latkerlo_jvotci"):].lstrip(".")] = v

    def load(self, name):
        if name not in self.mods:
            self.mods[name] = importlib.import_module("latkerlo_jvotci" + ("." + name if name else ""))
        return self.mods[name]

    def run(self, name, **hooks):
        import builtins
        fn = os.path.join(REPO_PY, "latkerlo_jvotci", name + ".py")
        with open(fn, encoding="utf-8") as f:
            code = compile(f.read(), fn, "exec", dont_inherit=True)
        exec(code, {"__name__": "__main__", "__package__": "latkerlo_jvotci", "__file__": fn,
                    "__builtins__": dict(builtins.__dict__, **hooks)})


def replay(pid, path, quiet=False):
    from engine import explore, core
    sys.setrecursionlimit(20000)
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    mod = harness(pid)
    job = _tuple(d["job"])

    class H(explore.ConH):
        def world(self, fresh=False, overrides=None, share_rafsi=True):
            if fresh or self._world is None:
                w = GenuineWorld(overrides)
                if fresh:
                    return w
                self._world = w
            return self._world

    h = H(d["input"], None)
    failed = []
    try:
        with explore.limit(explore.NATIVE_LIMIT):
            mod.prop(h, job)
    except explore.Hang:
        failed = ["does not terminate"]
    except core.PathPruned:
        print("input outside the property's scope")
        return 0
    except Exception as e:      # noqa: BLE001
        failed = ["unexpected %s: %s" % (type(e).__name__, e)]
    failed = [l for ok, l in h.checks if not ok] + failed
    if not quiet:
        print("job   :", job)
        print("input :", d["input"])
        print("seen  :", h.records)
    if failed:
        print("FAILS :", "; ".join(failed))
        return 1
    print("holds")
    return 0


def _tuple(x):
    return tuple(_tuple(y) for y in x) if isinstance(x, list) else x


def confirm(pid, job, inp, label, n):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "fails": label, "job": job, "input": inp}, f, indent=1)
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), pid, "--replay", path], capture_output=True,
                           text=True, timeout=120, cwd=HERE)
    except subprocess.TimeoutExpired:
        return path, True, "replay does not terminate"
    return path, p.returncode == 1, p.stdout.strip() + p.stderr.strip()[-800:]


# ---------------------------------------------------------------- known findings


def known_findings(pid):
    """Re-check the listed findings; returns the lines to print."""
    fn = os.path.join(HERE, "known_findings.json")
    out = []
    if not os.path.exists(fn):
        return out
    with open(fn, encoding="utf-8") as f:
        for e in json.load(f)["findings"]:
            if e["property"] != pid or e.get("status") == "fixed":
                continue
            path = os.path.join(EVIDENCE, "replay", "%s-known-%s.json" % (pid, e["id"]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8") as g:
                json.dump({"property": pid, "job": e["job"], "input": e.get("input", {})}, g)
            try:
                p = subprocess.run([sys.executable, os.path.abspath(__file__), pid, "--replay", path],
                                   capture_output=True, text=True, timeout=120, cwd=HERE)
            except subprocess.TimeoutExpired:
                continue
            if p.returncode == 1:
                out.append("KNOWN-FINDING: property=%s %s" % (pid, e["what_fails"]))
    return out


# ------------------------------------------------------------------------ main


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", default="")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.pid, a.replay))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(run(a.pid, tier, seed, a))


def run(pid, tier, seed, a):
    t0 = time.time()
    from engine import explore
    try:
        mod = harness(pid)
    except Exception as e:      # noqa: BLE001
        print("%s: cannot be set up: %s: %s" % (pid, type(e).__name__, e))
        return 2
    ev = os.path.join(EVIDENCE, pid + ".json")
    os.makedirs(EVIDENCE, exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    jobs = list(mod.jobs(tier))
    if a.jobs:
        jobs = [j for j in jobs if re.search(a.jobs, repr(j))]
    budget = a.budget or (getattr(mod, "QUICK_S", 260.0) if tier == "quick" else getattr(mod, "THOROUGH_S", 780.0))
    ncpu = a.workers or min(8, os.cpu_count() or 1)
    began = time.time()         # the time a harness took to build what it needs is not the exploration's
    total = explore.Result()
    done = {}                   # job -> outstanding tasks
    queue = []
    seq = 0
    for j in jobs:
        heapq.heappush(queue, (0, seq, j, [[]]))
        done[j] = 1
        seq += 1
    per_job = {j: [0, 0.0] for j in jobs}
    violations = []
    spurious = []
    tried = 0
    slice_paths, slice_time = 250, 4.0
    ctx = mp.get_context("fork")
    timed_out = False
    with ctx.Pool(ncpu, _init, (pid, seed)) as pool:
        running = []
        while queue or running:
            if time.time() - began > budget:
                timed_out = True
                break
            while queue and len(running) < ncpu + 2:
                pr, _, j, prefixes = heapq.heappop(queue)
                first = pr == 0
                running.append((j, pr, pool.apply_async(_work, ((j, prefixes, 60 if first else slice_paths,
                                                                 2.0 if first else slice_time),))))
            nxt = []
            progressed = False
            for j, pr, fut in running:
                if not fut.ready():
                    nxt.append((j, pr, fut))
                    continue
                progressed = True
                r = fut.get()
                total.merge(r)
                per_job[j][0] += r.paths
                per_job[j][1] += r.solver_s
                done[j] -= 1
                for label, inp, job in r.violations:
                    if tried >= 6:
                        break
                    tried += 1
                    path, ok, text = confirm(pid, job, inp, label, tried)
                    if ok:
                        violations.append((path, text))
                        break
                    spurious.append("violation not reproduced by the imported package: %r %r %s" % (job, inp, text))
                left = r.leftover
                if left:
                    # shallow prefixes first: they hold the larger subtrees
                    k = max(1, min(4, len(left)))
                    for i in range(k):
                        part = left[i::k]
                        if part:
                            seq += 1
                            heapq.heappush(queue, (pr + 1, seq, j, part))
                            done[j] += 1
            running = nxt
            if violations:
                break
            if not progressed:
                time.sleep(0.005)
        pool.terminate()
    total.errors.extend(spurious)
    unfinished = sorted((repr(j) for j, n in done.items() if n > 0)) if (timed_out or violations) else []
    exhaustive = not unfinished and not total.errors and not total.budget
    known = [] if a.jobs else known_findings(pid)
    wall = time.time() - t0
    cov = {
        "states": total.paths,
        "transitions": total.decisions,
        "traces_validated_against_impl": total.validated,
        "samples": total.samples[:6] or [{"note": "no witness"}],
        "exhaustive": exhaustive,
        "explanation": "states = symbolic paths of the real source explored; transitions = branch decisions on them; "
                       "every path's property and every branch taken as implied was decided by Z3 over all inputs "
                       "of the path",
        "functions_encoded": sorted(total.functions),
        "bounds": mod.BOUNDS,
        "outside_bounds": mod.OUTSIDE,
        "jobs": len(jobs),
        "jobs_completed": len(jobs) - len(unfinished),
        "jobs_unfinished": unfinished[:200],
        "solver_queries": total.queries,
        "solver_seconds": round(total.solver_s, 2),
        "assertions_decided": total.checks,
        "branches_implied_and_certified": total.forced,
        "paths_pruned_by_assumptions": total.pruned,
        "paths_infeasible": total.vacuous,
        "paths_undecided": total.budget + len(total.errors),
        "undecided": [e[:400] for e in total.errors[:20]],
        "values_concretised_by_case_split": total.concretised,
        "reached": total.reached,
        "not_reached": sorted(set(getattr(mod, "REACH", ())) - set(total.reached)),
    }
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + BASE_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(ev, "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    print("%s %s: %d jobs (%d unfinished), %d paths, %d decisions, %d queries (%.1fs solver), %d validated, "
          "%d undecided, %.1fs" % (pid, tier, len(jobs), len(unfinished), total.paths, total.decisions, total.queries,
                                   total.solver_s, total.validated, total.budget + len(total.errors), wall))
    if a.v:
        for j, (n, s) in sorted(per_job.items(), key=lambda x: -x[1][0])[:25]:
            print("   ", n, repr(j))
        print("   reached", total.reached)
    if cov["not_reached"]:
        print("   not reached:", cov["not_reached"])
    for e in total.errors[:5]:
        print("   undecided:", e[:700])
    for l in known:
        print(l)
    if violations:
        for path, text in violations[:1]:
            print(text)
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    bad = len(total.errors) + total.budget
    if total.paths == 0 or total.validated == 0 or bad * 10 > total.paths:
        print("ERROR: the check could not decide the property (%d of %d paths)" % (bad, total.paths))
        return 2
    return 0


BASE_ASSUMPTIONS = [
    "the engine in /verif/engine executes the parsed source of /repo/py/latkerlo_jvotci; Python's own semantics come "
    "from CPython, string/dict/regex operations on symbolic values from /verif/engine/values.py and rx.py, which are "
    "cross-checked on every run by solving for witnesses and comparing with the unmodified package",
    "Z3 is trusted for unsat verdicts; sat verdicts are replayed on the imported package",
]

if __name__ == "__main__":
    main()
