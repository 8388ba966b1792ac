"""Translation of formulas to z3 and the per-path solver queries."""
import time

import z3

from . import core


class Encoder:
    def __init__(self, timeout_ms=60000):
        self.ctx_vars = {}
        self.solver = z3.SolverFor("QF_FD")
        self.solver.set("timeout", timeout_ms)
        self.queries = 0
        self.seconds = 0.0
        self.cache = {}
        self.keep = []

    def var(self, v):
        z = self.ctx_vars.get(v.id)
        if z is None:
            bits = max(1, (v.n - 1).bit_length())
            x = z3.BitVec("v%d_%s" % (v.id, v.name), bits)
            if v.n < (1 << bits):
                self.solver.add(z3.ULT(x, z3.BitVecVal(v.n, bits)))
            z = self.ctx_vars[v.id] = (x, bits, v)
        return z

    def _mask(self, v, mask):
        x, bits, _ = self.var(v)
        mask &= v.full
        if mask == 0:
            return z3.BoolVal(False)
        if mask == v.full:
            return z3.BoolVal(True)
        key = (v.id, mask)
        r = self.cache.get(key)
        if r is None:
            ones = bin(mask).count("1")
            neg = ones * 2 > v.n
            m = v.full & ~mask if neg else mask
            lits = []
            i = 0
            while m:
                if m & 1:
                    lits.append(x == i)
                m >>= 1
                i += 1
            r = lits[0] if len(lits) == 1 else z3.Or(lits)
            if neg:
                r = z3.Not(r)
            self.cache[key] = r
        return r

    def enc(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        key = id(f)
        r = self.cache.get(key)
        if r is not None:
            return r
        self.keep.append(f)
        t = type(f)
        if t is core.FU:
            r = self._mask(f.var, f.mask)
        elif t is core.FB:
            groups = {}
            for i, row in enumerate(f.table):
                if row:
                    groups[row] = groups.get(row, 0) | 1 << i
            r = z3.Or([z3.And(self._mask(f.v1, m), self._mask(f.v2, row)) for row, m in groups.items()])
        elif t is core.FNot:
            r = z3.Not(self.enc(f.kid))
        elif t is core.FN:
            ks = [self.enc(k) for k in f.kids]
            r = z3.And(ks) if f.op == "A" else z3.Or(ks)
        else:
            lo = f.const + sum(min(w) for _, w in f.terms)
            hi = f.const + sum(max(w) for _, w in f.terms)
            bits = max(abs(lo), abs(hi), 1).bit_length() + 2
            tot = z3.BitVecVal(f.const, bits)
            for v, w in f.terms:
                x, b, _ = self.var(v)
                e = z3.BitVecVal(w[-1], bits)
                for i in range(v.n - 2, -1, -1):
                    e = z3.If(x == i, z3.BitVecVal(w[i], bits), e)
                tot = tot + e
            zero = z3.BitVecVal(0, bits)
            r = tot < zero if f.op == "<" else tot == zero
        self.cache[key] = r
        return r

    def lit(self, f, val):
        e = self.enc(f)
        return e if val else z3.Not(e)

    def _check(self, expr):
        t = time.time()
        s = self.solver
        s.push()
        try:
            s.add(expr)
            r = s.check()
            m = s.model() if r == z3.sat else None
        finally:
            s.pop()
        self.queries += 1
        self.seconds += time.time() - t
        return r, m

    def bad_formula(self, log, base):
        """base: what is wrong when the whole path condition holds."""
        bad = base
        for f, v, kind in reversed(log):
            l = self.lit(f, v)
            if kind is True:        # forced by propagation: must follow from what precedes it
                bad = z3.Or(z3.Not(l), bad)
            else:
                bad = z3.And(l, bad)
        return bad

    def certify(self, log, base):
        """unsat <=> every forced branch is implied and base cannot happen."""
        for f, v, kind in log:
            if f is not True and f is not False:
                for x in f.vars:
                    self.var(x)
        return self._check(self.bad_formula(log, base))

    def model_of(self, log, extra=()):
        es = [self.lit(f, v) for f, v, _ in log] + list(extra)
        return self._check(z3.And(es) if es else z3.BoolVal(True))

    def assignment(self, model, variables):
        out = {}
        for v in variables:
            x, bits, _ = self.var(v)
            val = model.eval(x, model_completion=True).as_long()
            if val >= v.n:
                val = 0
            out[v.id] = val
        return out
