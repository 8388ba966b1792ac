"""Formulas over finite-domain variables, path state and path exploration.

A variable ranges over a finite list of concrete Python values.  Formulas are
hash-consed:

  FU(var, mask)          the value of var is one of mask
  FB(v1, v2, table)      (v1, v2) is in the relation table (v1.id < v2.id)
  FAnd / FOr / FNot      over >= 3 variables
  FLin                   a sum of per-variable weights compared with 0

`Path.decide` turns a formula into a branch.  Cheap domain propagation decides
which branches to take; it is never trusted: every decision it forces is logged
and becomes part of the solver query of the path (see z3enc.certify).
"""


class EngineStop(BaseException):
    """Ends the current path (never catchable by the code under test)."""


class PathInfeasible(EngineStop):
    pass


class PathPruned(EngineStop):
    """A harness assumption is false on this path."""


class BudgetExceeded(EngineStop):
    pass


class EngineError(EngineStop):
    """The encoding cannot follow the code here."""


class Var:
    __slots__ = ("id", "name", "values", "full", "n", "index")

    def __init__(self, id, name, values):
        self.id = id
        self.name = name
        self.values = list(values)
        self.n = len(self.values)
        self.full = (1 << self.n) - 1
        self.index = {v: i for i, v in enumerate(self.values)}

    def __repr__(self):
        return self.name


_cons = {}


class FU:
    __slots__ = ("var", "mask", "vars", "z")


class FB:
    __slots__ = ("v1", "v2", "table", "vars", "z")


class FN:  # And / Or node over at least 3 variables
    __slots__ = ("op", "kids", "vars", "z")


class FNot:
    __slots__ = ("kid", "vars", "z")


class FLin:  # sum(weights) + const  op  0 ; op in "<", "=="
    __slots__ = ("terms", "const", "op", "vars", "z")


_MAXVARS = 1 << 20


def reset_cons():
    _cons.clear()


def mk_u(var, mask):
    mask &= var.full
    if mask == 0:
        return False
    if mask == var.full:
        return True
    key = ("U", var.id, mask)
    f = _cons.get(key)
    if f is None or f.var is not var:
        f = FU()
        f.var, f.mask, f.vars, f.z = var, mask, (var,), None
        _cons[key] = f
    return f


def mk_b(v1, v2, table):
    """table: one mask over v2 per value of v1."""
    if v1 is v2:
        m = 0
        for i, row in enumerate(table):
            if row >> i & 1:
                m |= 1 << i
        return mk_u(v1, m)
    if v1.id > v2.id:
        table = transpose(table, v2.n)
        v1, v2 = v2, v1
    table = tuple(table)
    first = table[0]
    if all(r == first for r in table):
        return mk_u(v2, first)
    full2 = v2.full
    if all(r == 0 or r == full2 for r in table):
        m = 0
        for i, r in enumerate(table):
            if r:
                m |= 1 << i
        return mk_u(v1, m)
    key = ("B", v1.id, v2.id, table)
    f = _cons.get(key)
    if f is None or f.v1 is not v1 or f.v2 is not v2:
        f = FB()
        f.v1, f.v2, f.table, f.vars, f.z = v1, v2, table, (v1, v2), None
        _cons[key] = f
    return f


_tr_cache = {}


def transpose(table, n2):
    key = (tuple(table), n2)
    r = _tr_cache.get(key)
    if r is None:
        out = [0] * n2
        for i, row in enumerate(table):
            j = 0
            while row:
                if row & 1:
                    out[j] |= 1 << i
                row >>= 1
                j += 1
        r = _tr_cache[key] = tuple(out)
    return r


def mk_not(f):
    if f is True:
        return False
    if f is False:
        return True
    t = type(f)
    if t is FU:
        return mk_u(f.var, ~f.mask)
    if t is FB:
        full = f.v2.full
        return mk_b(f.v1, f.v2, tuple(full & ~r for r in f.table))
    if t is FNot:
        return f.kid
    key = ("N", id(f))
    g = _cons.get(key)
    if g is None:
        g = FNot()
        g.kid, g.vars, g.z = f, f.vars, None
        _cons[key] = g
    return g


def _as_table(f, v1, v2):
    t = type(f)
    if t is FU:
        if f.var is v1:
            full = v2.full
            return tuple(full if f.mask >> i & 1 else 0 for i in range(v1.n))
        return (f.mask,) * v1.n
    return f.table


def _nary(op, fs):
    """op: 'A' or 'O'."""
    absorbing = op == "O"
    flat = []
    seen = set()
    for f in fs:
        if f is absorbing:
            return absorbing
        if f is True or f is False:
            continue
        if type(f) is FN and f.op == op:
            for k in f.kids:
                if id(k) not in seen:
                    seen.add(id(k))
                    flat.append(k)
        elif id(f) not in seen:
            seen.add(id(f))
            flat.append(f)
    if not flat:
        return not absorbing
    if len(flat) == 1:
        return flat[0]
    # merge constraints on the same variable or the same pair
    groups = {}
    rest = []
    for f in flat:
        t = type(f)
        if t is FU or t is FB:
            groups.setdefault(tuple(v.id for v in f.vars), []).append(f)
        else:
            rest.append(f)
    merged = []
    for ids, g in groups.items():
        if len(g) == 1:
            merged.append(g[0])
        elif len(ids) == 1:
            m = g[0].mask
            for f in g[1:]:
                m = m | f.mask if op == "O" else m & f.mask
            merged.append(mk_u(g[0].var, m))
        else:
            tab = g[0].table
            for f in g[1:]:
                if op == "O":
                    tab = tuple(a | b for a, b in zip(tab, f.table))
                else:
                    tab = tuple(a & b for a, b in zip(tab, f.table))
            merged.append(mk_b(g[0].v1, g[0].v2, tab))
    vs = {}
    for f in merged:
        if f is True or f is False:
            if f is absorbing:
                return absorbing
            continue
        for v in f.vars:
            vs[v.id] = v
    for f in rest:
        for v in f.vars:
            vs[v.id] = v
    merged = [f for f in merged if f is not True and f is not False] + rest
    if not merged:
        return not absorbing
    if len(merged) == 1:
        return merged[0]
    if len(vs) <= 2 and not rest:
        ids = sorted(vs)
        if len(ids) == 1:
            v = vs[ids[0]]
            m = merged[0].mask
            for f in merged[1:]:
                m = m | f.mask if op == "O" else m & f.mask
            return mk_u(v, m)
        v1, v2 = vs[ids[0]], vs[ids[1]]
        tab = _as_table(merged[0], v1, v2)
        for f in merged[1:]:
            t2 = _as_table(f, v1, v2)
            if op == "O":
                tab = tuple(a | b for a, b in zip(tab, t2))
            else:
                tab = tuple(a & b for a, b in zip(tab, t2))
        return mk_b(v1, v2, tab)
    if len(merged) == len(flat) and all(a is b for a, b in zip(merged, flat)):
        pass
    key = (op,) + tuple(sorted(id(f) for f in merged))
    g = _cons.get(key)
    if g is None:
        g = FN()
        g.op, g.kids, g.vars, g.z = op, tuple(merged), tuple(vs[i] for i in sorted(vs)), None
        _cons[key] = g
    return g


def mk_and(*fs):
    return _nary("A", fs)


def mk_or(*fs):
    return _nary("O", fs)


def mk_lin(terms, const, op):
    """terms: {var: tuple of int weights, one per value}."""
    norm = {}
    for v, w in terms.items():
        first = w[0]
        if all(x == first for x in w):
            const += first
        else:
            norm[v] = tuple(w)
    if not norm:
        return const < 0 if op == "<" else const == 0
    vs = sorted(norm, key=lambda v: v.id)
    if len(vs) == 1:
        v = vs[0]
        m = 0
        for i, x in enumerate(norm[v]):
            s = x + const
            if s < 0 if op == "<" else s == 0:
                m |= 1 << i
        return mk_u(v, m)
    if len(vs) == 2:
        a, b = vs
        wa, wb = norm[a], norm[b]
        tab = []
        for x in wa:
            m = 0
            for j, y in enumerate(wb):
                s = x + y + const
                if s < 0 if op == "<" else s == 0:
                    m |= 1 << j
            tab.append(m)
        return mk_b(a, b, tab)
    lo = const + sum(min(norm[v]) for v in vs)
    hi = const + sum(max(norm[v]) for v in vs)
    if op == "<":
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif lo > 0 or hi < 0:
        return False
    key = ("L", op, const, tuple((v.id, norm[v]) for v in vs))
    f = _cons.get(key)
    if f is None:
        f = FLin()
        f.terms, f.const, f.op = tuple((v, norm[v]) for v in vs), const, op
        f.vars, f.z = tuple(vs), None
        _cons[key] = f
    return f


def eval_under(f, val):
    """Evaluate f under a total assignment var -> index."""
    if f is True or f is False:
        return f
    t = type(f)
    if t is FU:
        return bool(f.mask >> val[f.var.id] & 1)
    if t is FB:
        return bool(f.table[val[f.v1.id]] >> val[f.v2.id] & 1)
    if t is FNot:
        return not eval_under(f.kid, val)
    if t is FN:
        if f.op == "A":
            return all(eval_under(k, val) for k in f.kids)
        return any(eval_under(k, val) for k in f.kids)
    s = f.const + sum(w[val[v.id]] for v, w in f.terms)
    return s < 0 if f.op == "<" else s == 0


def digest(f):
    """Structural hash of a formula, the same in every worker (they share the hash seed)."""
    if f is True or f is False:
        return int(f)
    d = f.z
    if d is None:
        t = type(f)
        if t is FU:
            d = hash((1, f.var.name, f.mask))
        elif t is FB:
            a, b = f.v1.name, f.v2.name
            tab = f.table
            if a > b:
                a, b, tab = b, a, transpose(tab, f.v2.n)
            d = hash((2, a, b, tab))
        elif t is FNot:
            d = hash((3, digest(f.kid)))
        elif t is FN:
            d = hash((4, f.op, tuple(sorted(digest(k) for k in f.kids))))
        else:
            d = hash((5, f.op, f.const, tuple(sorted((v.name, w) for v, w in f.terms))))
        f.z = d
    return d


class Conflict(Exception):
    pass


class Path:
    """One run of the code under test along one sequence of branch choices."""

    def __init__(self, prefix, max_decisions=20000):
        self.prefix = prefix          # list of bools for the free branches
        self.taken = []               # free branches taken so far
        self.pending = []             # alternatives discovered on this path
        self.dom = {}
        self.pairs = {}
        self.adj = {}
        self.generic = []
        self.decided = {}
        self.log = []                 # (formula, value, forced)
        self.assumed = []
        self.prune_conflict = False
        self.checks = []              # (formula, label)
        self.vars = {}
        self.max_decisions = max_decisions
        self.stats_concretised = 0

    # ---- variables
    def add_var(self, v):
        self.vars[v.id] = v
        self.dom[v.id] = v.full

    # ---- three-valued evaluation
    def eval3(self, f):
        if f is True or f is False:
            return f
        t = type(f)
        if t is FU:
            d = self.dom[f.var.id]
            m = d & f.mask
            if m == 0:
                return False
            if m == d:
                return True
            return None
        if t is FB:
            i1 = f.v1.id
            d1 = self.dom[i1]
            d2 = self.dom[f.v2.id]
            pt = self.pairs.get((i1, f.v2.id))
            tab = f.table
            anyt = anyf = False
            i = 0
            while d1:
                if d1 & 1:
                    al = d2 & pt[i] if pt is not None else d2
                    if al:
                        r = al & tab[i]
                        if r:
                            anyt = True
                        if r != al:
                            anyf = True
                        if anyt and anyf:
                            return None
                d1 >>= 1
                i += 1
            return anyt
        if t is FNot:
            r = self.eval3(f.kid)
            return None if r is None else not r
        if t is FN:
            if f.op == "A":
                res = True
                for k in f.kids:
                    r = self.eval3(k)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            res = False
            for k in f.kids:
                r = self.eval3(k)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        lo = hi = f.const
        for v, w in f.terms:
            d = self.dom[v.id]
            ws = [w[i] for i in range(v.n) if d >> i & 1]
            lo += min(ws)
            hi += max(ws)
        if f.op == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        return None

    # ---- propagation
    def snapshot(self):
        return (dict(self.dom), dict(self.pairs), {k: list(v) for k, v in self.adj.items()}, list(self.generic))

    def restore(self, s):
        self.dom, self.pairs, self.adj, self.generic = s

    def _setdom(self, vid, m, queue):
        d = self.dom[vid]
        n = d & m
        if n != d:
            if n == 0:
                raise Conflict
            self.dom[vid] = n
            queue.append(vid)

    def _revise(self, key, queue):
        a, b = key
        tab = self.pairs[key]
        d1, d2 = self.dom[a], self.dom[b]
        n1 = n2 = 0
        i = 0
        x = d1
        while x:
            if x & 1:
                r = tab[i] & d2
                if r:
                    n1 |= 1 << i
                    n2 |= r
            x >>= 1
            i += 1
        if n1 == 0:
            raise Conflict
        if n1 != d1:
            self.dom[a] = n1
            queue.append(a)
        if n2 != d2:
            self.dom[b] = n2
            queue.append(b)

    def _assert(self, f, val, queue):
        if f is True or f is False:
            if f is not val:
                raise Conflict
            return
        t = type(f)
        if t is FU:
            self._setdom(f.var.id, f.mask if val else ~f.mask, queue)
        elif t is FB:
            a, b = f.v1.id, f.v2.id
            full = f.v2.full
            tab = f.table if val else tuple(full & ~r for r in f.table)
            old = self.pairs.get((a, b))
            if old is not None:
                new = tuple(x & y for x, y in zip(old, tab))
                if new == old:
                    return
                self.pairs[(a, b)] = new
            else:
                self.pairs[(a, b)] = tab
                self.adj.setdefault(a, []).append((a, b))
                self.adj.setdefault(b, []).append((a, b))
            self._revise((a, b), queue)
        elif t is FNot:
            self._assert(f.kid, not val, queue)
        elif t is FN:
            if (f.op == "A") == val:
                for k in f.kids:
                    self._assert(k, val, queue)
            else:
                self.generic.append((f, val))
        else:
            self.generic.append((f, val))

    def assert_formula(self, f, val):
        queue = []
        ng = len(self.generic)
        self._assert(f, val, queue)
        changed = bool(queue) or len(self.generic) != ng or type(f) is FB
        while True:
            while queue:
                v = queue.pop()
                for key in self.adj.get(v, ()):
                    self._revise(key, queue)
            if not (changed and self.generic):
                return
            changed = False
            gen = self.generic
            self.generic = []
            for g, gv in gen:
                r = self.eval3(g)
                if r is not None:
                    if r != gv:
                        raise Conflict
                    continue
                if type(g) is FN:
                    # clause: Or==True or And==False ; unit propagation
                    want = gv
                    open_ = [k for k in g.kids if self.eval3(k) is None]
                    if len(open_) == 1:
                        self._assert(open_[0], want, queue)
                        changed = True
                        continue
                self.generic.append((g, gv))
            if queue:
                changed = True

    # ---- branching
    def decide(self, f):
        if f is True or f is False:
            return f
        key = id(f)
        v = self.decided.get(key)
        if v is not None:
            return v
        v = self.eval3(f)
        if v is not None:
            self.log.append((f, v, True))
            self.decided[key] = v
            return v
        if len(self.log) > self.max_decisions:
            raise BudgetExceeded("decisions")
        k = len(self.taken)
        if k < len(self.prefix):
            v, dg, forced = self.prefix[k]
            if dg != digest(f):
                raise EngineError("replayed path diverged: the run is not deterministic")
            self.taken.append((v, dg, forced))
            self.log.append((f, v, forced))
            try:
                self.assert_formula(f, v)
            except Conflict:
                raise PathInfeasible()
            self.decided[key] = v
            return v
        snap = self.snapshot()
        try:
            self.assert_formula(f, True)
            ok_t = True
        except Conflict:
            ok_t = False
        after_t = self.snapshot() if ok_t else None
        self.restore(snap)
        if ok_t:
            snap2 = self.snapshot()
            try:
                self.assert_formula(f, False)
                ok_f = True
            except Conflict:
                ok_f = False
            if not ok_f:
                self.restore(after_t)
                v = True
            else:
                self.restore(after_t)
                dg = digest(f)
                self.pending.append(self.taken + [(False, dg, False)])
                self.taken.append((True, dg, False))
                self.log.append((f, True, False))
                self.decided[key] = True
                return True
        else:
            try:
                self.assert_formula(f, False)
            except Conflict:
                raise PathInfeasible()
            v = False
        self.taken.append((v, digest(f), True))     # found by looking one step ahead
        self.log.append((f, v, True))
        self.decided[key] = v
        return v

    def assume(self, f):
        """Constrain the inputs of the rest of this path."""
        if f is True:
            return
        if f is False:
            raise PathPruned()
        self.assumed.append(f)
        self.log.append((f, True, "assume"))
        try:
            self.assert_formula(f, True)
        except Conflict:
            self.prune_conflict = True      # the solver has to confirm this one
            raise PathPruned()
        self.decided[id(f)] = True


CUR = None


def cur():
    return CUR


def set_cur(p):
    global CUR
    CUR = p
