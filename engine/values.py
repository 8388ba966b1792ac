"""Symbolic Python values: strings of known length, booleans, integers, choices."""
from . import core
from .core import mk_and, mk_b, mk_lin, mk_not, mk_or, mk_u

# ---------------------------------------------------------------- characters


import operator


class SC:
    """One character: a function of a variable."""
    __slots__ = ("var", "outs", "_masks")


_sc = {}


def mk_char(var, outs):
    first = outs[0]
    if all(o == first for o in outs):
        return first
    key = (id(var), outs)
    c = _sc.get(key)
    if c is None:
        c = SC()
        c.var, c.outs, c._masks = var, outs, {}
        _sc[key] = c
    return c


def reset():
    _sc.clear()
    _member_cache.clear()
    _pair_cache.clear()


def char_mask(c, chars):
    """Mask of variable values for which c is in the string `chars`."""
    m = c._masks.get(chars)
    if m is None:
        m = 0
        for i, o in enumerate(c.outs):
            if o in chars:
                m |= 1 << i
        c._masks[chars] = m
    return m


def char_in(c, chars):
    """Formula: character c is one of `chars` (string of candidates)."""
    if type(c) is str:
        return c in chars
    return mk_u(c.var, char_mask(c, chars))


_pair_cache = {}


def char_eq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        return mk_u(a.var, char_mask(a, b))
    if a is b:
        return True
    if a.var is b.var:
        m = 0
        for i, (x, y) in enumerate(zip(a.outs, b.outs)):
            if x == y:
                m |= 1 << i
        return mk_u(a.var, m)
    key = (id(a), id(b))
    f = _pair_cache.get(key)
    if f is None:
        f = mk_b(a.var, b.var, tuple(char_mask(b, x) for x in a.outs))
        _pair_cache[key] = f
    return f


def char_lt(a, b):
    if type(a) is str and type(b) is str:
        return a < b
    if type(b) is str:
        return mk_u(a.var, sum(1 << i for i, o in enumerate(a.outs) if o < b))
    if type(a) is str:
        return mk_u(b.var, sum(1 << i for i, o in enumerate(b.outs) if a < o))
    if a.var is b.var:
        return mk_u(a.var, sum(1 << i for i, (x, y) in enumerate(zip(a.outs, b.outs)) if x < y))
    return mk_b(a.var, b.var, tuple(
        sum(1 << j for j, y in enumerate(b.outs) if x < y) for x in a.outs))


_member_cache = {}


def chars_in_set(chars, words):
    """Formula: the character tuple equals one of `words` (frozenset of strings of that length)."""
    if not chars:
        return "" in words
    key = (chars, words)
    f = _member_cache.get(key)
    if f is not None:
        return f
    c = chars[0]
    rest = {}
    for w in words:
        rest.setdefault(w[0], []).append(w[1:])
    if type(c) is str:
        r = rest.get(c)
        f = False if r is None else (True if len(chars) == 1 else chars_in_set(chars[1:], frozenset(r)))
    elif len(chars) == 1:
        f = char_in(c, "".join(sorted(rest)))
    else:
        groups = {}
        for ch, r in rest.items():
            groups.setdefault(frozenset(r), []).append(ch)
        if len(chars) == 2 and type(chars[1]) is not str and chars[1].var is not c.var:
            d = chars[1]
            rows = {}
            for r, chs in groups.items():
                m = char_mask(d, "".join(sorted(r)))
                for ch in chs:
                    rows[ch] = m
            f = mk_b(c.var, d.var, tuple(rows.get(o, 0) for o in c.outs))
        else:
            alts = []
            for r, chs in groups.items():
                h = char_in(c, "".join(sorted(chs)))
                if h is False:
                    continue
                alts.append(mk_and(h, chars_in_set(chars[1:], r)))
            f = mk_or(*alts) if alts else False
    _member_cache[key] = f
    return f


# ------------------------------------------------------------------- booleans


def wrap(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def form(x):
    """Formula of a truth value (symbolic or not), branching if it must."""
    t = type(x)
    if t is bool:
        return x
    if t is SymBool:
        return x.f
    if t is SymChoice:
        return x.truth()
    return bool(x)


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return core.CUR.decide(self.f)

    def __eq__(self, o):
        if type(o) in (bool, SymBool):
            g = form(o)
            return wrap(mk_or(mk_and(self.f, g), mk_and(mk_not(self.f), mk_not(g))))
        if isinstance(o, SymChoice):
            return o == bool(self)
        if isinstance(o, (int, SymInt)):
            return int(self) == o
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return wrap(mk_and(self.f, form(o)))
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return wrap(mk_or(self.f, form(o)))
        return int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return self != o

    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return o * int(self)

    __rmul__ = __mul__

    def __lt__(self, o):
        return int(self) < o

    def __le__(self, o):
        return int(self) <= o

    def __gt__(self, o):
        return int(self) > o

    def __ge__(self, o):
        return int(self) >= o

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def s_not(x):
    t = type(x)
    if t is SymBool:
        return wrap(mk_not(x.f))
    if t is SymChoice:
        return wrap(mk_not(x.truth()))
    return not x


# ------------------------------------------------------------------- integers


class SymInt:
    """const + sum of per-variable weights."""
    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = terms

    def _lift(self, o):
        t = type(o)
        if t is SymInt:
            return o
        if t is int:
            return SymInt(o, {})
        if t in (bool, SymBool):
            return SymInt(int(o), {})
        return None

    def __add__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        terms = dict(self.terms)
        for v, w in o.terms.items():
            if v in terms:
                terms[v] = tuple(a + b for a, b in zip(terms[v], w))
            else:
                terms[v] = w
        return mk_int(self.const + o.const, terms)

    __radd__ = __add__

    def __neg__(self):
        return mk_int(-self.const, {v: tuple(-a for a in w) for v, w in self.terms.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._lift(o)
        if o is None:
            return NotImplemented
        return self + (-SymInt(o.const, o.terms) if o.terms else -o.const)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is SymInt:
            o = int(o)
        if type(o) in (bool, SymBool):
            o = int(o)
        if type(o) is not int:
            return o * int(self)
        return mk_int(self.const * o, {v: tuple(a * o for a in w) for v, w in self.terms.items()})

    __rmul__ = __mul__

    def _cmp(self, o, op):
        if type(o) is float:
            if o == float("inf"):
                return op in ("<", "<=", "!=")
            if o == float("-inf"):
                return op in (">", ">=", "!=")
            return {"<": int(self) < o, "<=": int(self) <= o, "==": int(self) == o}[op]
        o = self._lift(o)
        if o is None:
            return NotImplemented
        d = SymInt(self.const - o.const, dict(self.terms))
        for v, w in o.terms.items():
            if v in d.terms:
                d.terms[v] = tuple(a - b for a, b in zip(d.terms[v], w))
            else:
                d.terms[v] = tuple(-b for b in w)
        if op == "<":
            return wrap(mk_lin(d.terms, d.const, "<"))
        if op == "<=":
            return wrap(mk_lin(d.terms, d.const - 1, "<"))
        return wrap(mk_lin(d.terms, d.const, "=="))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return r if r is NotImplemented else s_not(r)

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return r if r is NotImplemented else s_not(r)

    def __eq__(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            return self._cmp(o, "==")
        return False

    def __ne__(self, o):
        return s_not(self == o)

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        """Branch until the value is known."""
        p = core.CUR
        tot = self.const
        for v, w in self.terms.items():
            p.stats_concretised += 1
            groups = {}
            for i, x in enumerate(w):
                groups[x] = groups.get(x, 0) | 1 << i
            items = sorted(groups.items())
            for x, m in items:
                if p.decide(mk_u(v, m)):
                    tot += x
                    break
            else:
                raise core.PathInfeasible()
        return tot

    __index__ = __int__

    def __hash__(self):
        return hash(int(self))

    def __floordiv__(self, o):
        return int(self) // o

    def __mod__(self, o):
        return int(self) % o

    def __truediv__(self, o):
        return int(self) / o

    def __abs__(self):
        return abs(int(self))

    def __repr__(self):
        return "<SymInt>"

    def __str__(self):
        return str(int(self))

    def __format__(self, spec):
        return "<int>"


def mk_int(const, terms):
    norm = {}
    for v, w in terms.items():
        first = w[0]
        if all(x == first for x in w):
            const += first
        else:
            norm[v] = w
    return SymInt(const, norm) if norm else const


def int_of_formula(f):
    if f is True or f is False:
        return int(f)
    if type(f) is core.FU:
        return mk_int(0, {f.var: tuple(f.mask >> i & 1 for i in range(f.var.n))})
    return int(core.CUR.decide(f))


# -------------------------------------------------------------------- choices


class SymChoice:
    """A value chosen among concrete Python values (settings)."""
    __slots__ = ("var", "outs")

    def __init__(self, var, outs):
        object.__setattr__(self, "var", var)
        object.__setattr__(self, "outs", outs)

    def _mask(self, pred):
        m = 0
        for i, o in enumerate(self.outs):
            if pred(o):
                m |= 1 << i
        return mk_u(self.var, m)

    def truth(self):
        return self._mask(bool)

    def __bool__(self):
        return core.CUR.decide(self.truth())

    def __eq__(self, o):
        if isinstance(o, SymChoice):
            if o.var is self.var:
                return wrap(mk_u(self.var, sum(
                    1 << i for i, (a, b) in enumerate(zip(self.outs, o.outs)) if a == b)))
            return wrap(mk_b(self.var, o.var, tuple(
                sum(1 << j for j, b in enumerate(o.outs) if a == b) for a in self.outs)))
        if isinstance(o, (SymStr, SymBool, SymInt)):
            return concrete(self) == o
        return wrap(self._mask(lambda x: x == o))

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(concrete(self))

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__"):
            raise AttributeError(name)
        return getattr(concrete(self), name)

    def __getitem__(self, i):
        return concrete(self)[i]

    def __len__(self):
        return len(concrete(self))

    def __iter__(self):
        return iter(concrete(self))

    def __str__(self):
        return str(concrete(self))

    def __format__(self, spec):
        return "<choice>"

    def __repr__(self):
        return "<SymChoice>"

    def __add__(self, o):
        return concrete(self) + o

    def __radd__(self, o):
        return o + concrete(self)

    def __int__(self):
        return int(concrete(self))

    __index__ = __int__

    def __lt__(self, o):
        return concrete(self) < o

    def __gt__(self, o):
        return concrete(self) > o

    def __and__(self, o):
        return concrete(self) & o

    def __or__(self, o):
        return concrete(self) | o


def concrete(x):
    """Branch until x is a concrete value."""
    t = type(x)
    if t is SymChoice:
        p = core.CUR
        groups = []
        for i, o in enumerate(x.outs):
            for g in groups:
                if g[0] == o and type(g[0]) is type(o):
                    g[1] |= 1 << i
                    break
            else:
                groups.append([o, 1 << i])
        for o, m in groups:
            if p.decide(mk_u(x.var, m)):
                return o
        raise core.PathInfeasible()
    if t is SymStr:
        p = core.CUR
        out = []
        for c in x.chars:
            if type(c) is str:
                out.append(c)
                continue
            p.stats_concretised += 1
            seen = []
            for o in c.outs:
                if o in seen:
                    continue
                seen.append(o)
                if p.decide(char_in_exact(c, o)):
                    out.append(o)
                    break
            else:
                raise core.PathInfeasible()
        return "".join(out)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        return int(x)
    return x


def char_in_exact(c, o):
    return mk_u(c.var, sum(1 << i for i, x in enumerate(c.outs) if x == o))


# -------------------------------------------------------------------- strings

SYM = None  # set below


def chars_of(s):
    if type(s) is SymStr:
        return s.chars
    if type(s) is str:
        return tuple(s)
    if isinstance(s, str):
        return tuple(str.__str__(s))
    if type(s) is SymChoice:
        return tuple(concrete(s))
    raise TypeError("expected str, got %s" % type(s).__name__)


def mk_str(chars):
    for c in chars:
        if type(c) is not str:
            s = SymStr.__new__(SymStr)
            s.chars = tuple(chars)
            return s
    return "".join(chars)


def is_strlike(x):
    return isinstance(x, (str, SymStr)) or (type(x) is SymChoice and isinstance(x.outs[0], str))


def str_eq(a, b):
    ca, cb = chars_of(a), chars_of(b)
    if len(ca) != len(cb):
        return False
    fs = []
    for x, y in zip(ca, cb):
        f = char_eq(x, y)
        if f is False:
            return False
        if f is not True:
            fs.append(f)
    return mk_and(*fs) if fs else True


def str_contains(sub, s):
    """Formula: sub occurs in s."""
    cs, cb = chars_of(sub), chars_of(s)
    n = len(cs)
    if n == 0:
        return True
    if n > len(cb):
        return False
    if n == 1:
        c = cs[0]
        if type(s) is str:
            return char_in(c, s)
        return mk_or(*[char_eq(c, x) for x in cb])
    return mk_or(*[mk_and(*[char_eq(x, y) for x, y in zip(cs, cb[i:i + n])]) for i in range(len(cb) - n + 1)])


_WS = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


class SymStr:
    __slots__ = ("chars",)

    # construction / basics
    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        for c in self.chars:
            yield c if type(c) is str else mk_str((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if any(not (x is None or type(x) is int) for x in (i.start, i.stop, i.step)):
                i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return mk_str(self.chars[i])
        try:
            c = self.chars[i]
        except IndexError:
            raise IndexError("string index out of range") from None
        return c if type(c) is str else mk_str((c,))

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk_str(self.chars + chars_of(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk_str(chars_of(o) + self.chars)

    def __mul__(self, n):
        return mk_str(self.chars * n.__index__())

    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_strlike(o):
            return False
        return wrap(str_eq(self, o))

    def __ne__(self, o):
        return s_not(self == o)

    def _lt(self, o):
        p = core.CUR
        a, b = self.chars, chars_of(o)
        for x, y in zip(a, b):
            if p.decide(char_eq(x, y)):
                continue
            return p.decide(char_lt(x, y))
        return len(a) < len(b)

    def __lt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return self._lt(o)

    def __gt__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mk_sym(o)._lt(self)

    def __le__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return not mk_sym(o)._lt(self)

    def __ge__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return not self._lt(o)

    def __contains__(self, sub):
        return bool(wrap(str_contains(sub, self)))

    def __hash__(self):
        return hash(concrete(self))

    def __str__(self):
        return concrete(self)

    def __repr__(self):
        return "<SymStr %d>" % len(self.chars)

    def __format__(self, spec):
        return concrete(self).__format__(spec)

    def __mod__(self, args):
        return concrete(self) % args

    # character-wise maps
    def _map(self, fn):
        out = []
        for c in self.chars:
            if type(c) is str:
                out.extend(fn(c))
            else:
                got = c._masks.get(fn)
                if got is not None:
                    out.append(got)
                    continue
                res = tuple(fn(o) for o in c.outs)
                if all(len(r) == 1 for r in res):
                    got = c if res == c.outs else mk_char(c.var, res)
                    out.append(got)
                    if type(fn) is type(str.lower):
                        c._masks[fn] = got
                else:
                    lens = {}
                    for i, r in enumerate(res):
                        lens.setdefault(len(r), 0)
                        lens[len(r)] |= 1 << i
                    p = core.CUR
                    for n, m in sorted(lens.items()):
                        if p.decide(mk_u(c.var, m)):
                            for k in range(n):
                                # outside the mask the character is never observed
                                dflt = next(r for r in res if len(r) == n)
                                out.append(mk_char(c.var, tuple(
                                    (r[k] if len(r) == n else dflt[k]) for r in res)))
                            break
                    else:
                        raise core.PathInfeasible()
        return mk_str(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        return self[:1].upper() + self[1:].lower() if len(self) else ""

    def translate(self, table):
        def one(ch):
            try:
                r = table[ord(ch)]
            except LookupError:
                return ch
            if r is None:
                return ""
            return chr(r) if isinstance(r, int) else r
        return self._map(one)

    def expandtabs(self, *a):
        return concrete(self).expandtabs(*a)

    # predicates
    def _match_at(self, sub, i):
        return mk_and(*[char_eq(x, y) for x, y in zip(sub, self.chars[i:i + len(sub)])])

    def startswith(self, prefix, start=None, end=None):
        s = self[start:end] if start is not None or end is not None else self
        if isinstance(prefix, tuple):
            return wrap(mk_or(*[form(s_startswith(s, p)) for p in prefix]))
        return s_startswith(s, prefix)

    def endswith(self, suffix, start=None, end=None):
        s = self[start:end] if start is not None or end is not None else self
        if isinstance(suffix, tuple):
            return wrap(mk_or(*[form(s_endswith(s, p)) for p in suffix]))
        return s_endswith(s, suffix)

    def _all(self, pred):
        if not self.chars:
            return False
        fs = []
        for c in self.chars:
            if type(c) is str:
                if not pred(c):
                    return False
            else:
                fs.append(mk_u(c.var, sum(1 << i for i, o in enumerate(c.outs) if pred(o))))
        return wrap(mk_and(*fs))

    def isalpha(self):
        return self._all(str.isalpha)

    def isdigit(self):
        return self._all(str.isdigit)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return self._all(str.isascii)

    def isprintable(self):
        return self._all(str.isprintable)

    def islower(self):
        no_upper = self._all(lambda c: not (c.isupper() or c.istitle()))
        has = wrap(mk_or(*[char_pred(c, str.islower) for c in self.chars]))
        return wrap(mk_and(form(no_upper), form(has)))

    def isupper(self):
        no_lower = self._all(lambda c: not (c.islower() or c.istitle()))
        has = wrap(mk_or(*[char_pred(c, str.isupper) for c in self.chars]))
        return wrap(mk_and(form(no_lower), form(has)))

    # searching
    def count(self, sub, start=None, end=None):
        s = self[start:end]
        if type(s) is str and type(sub) is str:
            return s.count(sub)
        cs = chars_of(sub)
        chars = chars_of(s)
        if len(cs) == 1:
            tot = 0
            for c in chars:
                tot = int_of_formula(char_eq(c, cs[0])) + tot
            return tot
        if not cs:
            return len(chars) + 1
        n = 0
        i = 0
        p = core.CUR
        while i + len(cs) <= len(chars):
            if p.decide(mk_and(*[char_eq(x, y) for x, y in zip(cs, chars[i:i + len(cs)])])):
                n += 1
                i += len(cs)
            else:
                i += 1
        return n

    def find(self, sub, start=0, end=None):
        cs = chars_of(sub)
        n = len(self.chars)
        start, stop, _ = slice(start, end).indices(n)
        p = core.CUR
        for i in range(start, stop - len(cs) + 1):
            if p.decide(self._match_at(cs, i)):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        cs = chars_of(sub)
        n = len(self.chars)
        start, stop, _ = slice(start, end).indices(n)
        p = core.CUR
        for i in range(stop - len(cs), start - 1, -1):
            if p.decide(self._match_at(cs, i)):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    # cutting
    def split(self, sep=None, maxsplit=-1):
        p = core.CUR
        out = []
        cur = []
        if sep is None:
            inword = False
            i = 0
            n = len(self.chars)
            while i < n:
                c = self.chars[i]
                if p.decide(char_pred(c, str.isspace)):
                    if inword:
                        out.append(mk_str(cur))
                        cur = []
                        inword = False
                else:
                    if not inword and 0 <= maxsplit <= len(out):
                        return out + [mk_str(self.chars[i:]).rstrip()]
                    inword = True
                    cur.append(c)
                i += 1
            if inword:
                out.append(mk_str(cur))
            return out
        cs = chars_of(sep)
        if not cs:
            raise ValueError("empty separator")
        i = 0
        n = len(self.chars)
        while i < n:
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(cs) <= n and p.decide(self._match_at(cs, i)):
                out.append(mk_str(cur))
                cur = []
                i += len(cs)
            else:
                cur.append(self.chars[i])
                i += 1
        out.append(mk_str(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0 and (sep is None or len(sep) == 1):
            return self.split(sep)
        return concrete(self).rsplit(sep, maxsplit)

    def splitlines(self, *a):
        return concrete(self).splitlines(*a)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def _strip_pred(self, chars):
        if chars is None:
            return lambda c: char_pred(c, str.isspace)
        if type(chars) is str:
            return lambda c: char_in(c, chars) if chars else False
        cs = chars_of(chars)
        return lambda c: mk_or(*[char_eq(c, x) for x in cs])

    def lstrip(self, chars=None):
        p = core.CUR
        pred = self._strip_pred(chars)
        i = 0
        while i < len(self.chars) and p.decide(pred(self.chars[i])):
            i += 1
        return mk_str(self.chars[i:])

    def rstrip(self, chars=None):
        p = core.CUR
        pred = self._strip_pred(chars)
        i = len(self.chars)
        while i > 0 and p.decide(pred(self.chars[i - 1])):
            i -= 1
        return mk_str(self.chars[:i])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def removeprefix(self, prefix):
        return self[len(prefix):] if self.startswith(prefix) else self

    def removesuffix(self, suffix):
        if len(suffix) and self.endswith(suffix):
            return self[:len(self) - len(suffix)]
        return self

    def replace(self, old, new, count=-1):
        co, cn = chars_of(old), chars_of(new)
        if len(co) == 0:
            if count >= 0:
                return concrete(self).replace(old, new, count)
            out = list(cn)
            for c in self.chars:
                out.append(c)
                out.extend(cn)
            return mk_str(out)
        if len(co) == 1 and len(cn) == 1 and count < 0 and type(co[0]) is str and type(cn[0]) is str:
            o, n = co[0], cn[0]
            return self._map(lambda ch: n if ch == o else ch)
        p = core.CUR
        out = []
        i = 0
        k = 0
        while i < len(self.chars):
            if (count < 0 or k < count) and i + len(co) <= len(self.chars) and p.decide(self._match_at(co, i)):
                out.extend(cn)
                i += len(co)
                k += 1
            else:
                out.append(self.chars[i])
                i += 1
        return mk_str(out)

    # building
    def join(self, it):
        return s_join(self, it)

    def format(self, *a, **k):
        return concrete(self).format(*a, **k)

    def _pad(self, w, fill, left):
        n = w - len(self.chars)
        if n <= 0:
            return self
        return mk_str((fill,) * n + self.chars) if left else mk_str(self.chars + (fill,) * n)

    def ljust(self, w, fill=" "):
        return self._pad(w, fill, False)

    def rjust(self, w, fill=" "):
        return self._pad(w, fill, True)

    def encode(self, *a):
        return concrete(self).encode(*a)

    def __getattr__(self, name):
        if hasattr(str, name) and not name.startswith("__"):
            return getattr(concrete(self), name)
        raise AttributeError(name)


def char_pred(c, pred):
    if type(c) is str:
        return pred(c)
    return mk_u(c.var, sum(1 << i for i, o in enumerate(c.outs) if pred(o)))


def mk_sym(s):
    """A SymStr even if concrete (for the method implementations)."""
    if type(s) is SymStr:
        return s
    r = SymStr.__new__(SymStr)
    r.chars = chars_of(s)
    return r


def s_startswith(s, p):
    cp, cs = chars_of(p), chars_of(s)
    if len(cp) > len(cs):
        return False
    return wrap(mk_and(*[char_eq(x, y) for x, y in zip(cp, cs)]))


def s_endswith(s, p):
    cp, cs = chars_of(p), chars_of(s)
    if len(cp) > len(cs):
        return False
    return wrap(mk_and(*[char_eq(x, y) for x, y in zip(cp, cs[len(cs) - len(cp):])]))


def s_join(sep, it):
    cs = chars_of(sep)
    out = []
    first = True
    for x in it:
        if not is_strlike(x):
            raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
        if not first:
            out.extend(cs)
        first = False
        out.extend(chars_of(x))
    return mk_str(out)


SYMTYPES = (SymStr, SymBool, SymInt, SymChoice)


def is_sym(x):
    return type(x) in SYMTYPES


def has_sym(x, depth=3):
    if type(x) in SYMTYPES:
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


# ----------------------------------------------------------- generic equality


def s_eq(a, b):
    """Truth value of a == b as formula-bearing value, looking inside lists and tuples."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = form(s_eq(x, y))
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return wrap(mk_and(*fs)) if fs else True
    r = a == b
    if r is NotImplemented:
        return False
    return r


# ---------------------------------------------------------------- membership


_list_cache = {}
_STR = {str}


def _only_str(key):
    return set(map(type, key)) == _STR


def s_in(x, c):
    tc = type(c)
    if type(x) is SymChoice:
        if isinstance(c, (list, tuple, set, frozenset)) and not any(is_sym(y) for y in c):
            return wrap(x._mask(lambda o: o in c))
        if isinstance(x.outs[0], str):
            x = concrete(x)
        else:
            return x in c
    if tc is str:
        if type(x) is str:
            return x in c
        if type(x) is SymStr:
            return wrap(str_contains(x, c))
        return x in c
    if tc is SymStr:
        if not is_strlike(x):
            raise TypeError("'in <string>' requires string as left operand")
        return wrap(str_contains(x, c))
    if tc is SymChoice:
        return s_in(x, concrete(c))
    if tc in (list, tuple, set, frozenset) or (isinstance(c, (list, tuple, set, frozenset))):
        if type(x) is SymStr:
            n = len(x.chars)
            key = tuple(c)
            if _only_str(key):
                ent = _list_cache.get(key)
                if ent is None:
                    ent = {}
                    for y in key:
                        ent.setdefault(len(y), []).append(y)
                    ent = _list_cache[key] = {k: frozenset(v) for k, v in ent.items()}
                words = ent.get(n)
                return wrap(chars_in_set(x.chars, words)) if words else False
            words = set()
            fs = []
            for y in c:
                ty = type(y)
                if ty is str:
                    if len(y) == n:
                        words.add(y)
                elif ty is SymStr:
                    if len(y.chars) == n:
                        f = str_eq(x, y)
                        if f is True:
                            return True
                        fs.append(f)
                elif is_strlike(y):
                    fs.append(form(x == y))
            if words:
                fs.append(chars_in_set(x.chars, frozenset(words)))
            return wrap(mk_or(*fs)) if fs else False
        if isinstance(c, (list, tuple)):
            if has_sym(x) or any(has_sym(y) for y in c):
                fs = []
                for y in c:
                    f = form(s_eq(x, y))
                    if f is True:
                        return True
                    fs.append(f)
                return wrap(mk_or(*fs)) if fs else False
            return x in c
        return x in c
    if isinstance(c, SDict):
        return c.has(x)
    if isinstance(c, SSet):
        return c.has(x)
    if isinstance(c, (dict, type({}.keys()))) and type(x) is SymStr:
        return s_in(x, list(c))
    if hasattr(c, "__contains__"):
        return x in c
    for y in c:
        if s_eq(x, y):
            return True
    return False


# ------------------------------------------------------------- dicts and sets


class _Key:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class SDict(dict):
    """dict whose keys may be symbolic; concrete keys use the ordinary table."""

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self._nsym = 0
        self._bylen = None
        if a:
            src = a[0]
            if hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    @staticmethod
    def _issym(k):
        if type(k) in SYMTYPES:
            return True
        return isinstance(k, tuple) and has_sym(k)

    def _find(self, k):
        """The stored key equal to k (branching), or None."""
        if not self._issym(k):
            if self._nsym == 0:
                return k if dict.__contains__(self, k) else None
            if dict.__contains__(self, k):
                return k
            for s in dict.keys(self):
                if type(s) is _Key and bool(s_eq(s.k, k)):
                    return s
            return None
        for s in dict.keys(self):
            if type(s) is _Key and s.k is k:
                return s
        if type(k) is SymStr:
            if not bool(self.has(k)):
                return None
            n = len(k.chars)
            cands = [s for s in dict.keys(self) if (type(s) is str and len(s) == n) or type(s) is _Key]
        else:
            cands = list(dict.keys(self))
        for s in cands:
            if bool(s_eq(s.k if type(s) is _Key else s, k)):
                return s
        return None

    def has(self, k):
        if not self._issym(k):
            if self._nsym == 0:
                return dict.__contains__(self, k)
            if dict.__contains__(self, k):
                return True
        return s_in(k, [s.k if type(s) is _Key else s for s in dict.keys(self)])

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        s = self._find(k)
        if s is None:
            if hasattr(type(self), "__missing__"):
                return self.__missing__(k)
            raise KeyError(k)
        return dict.__getitem__(self, s)

    def get(self, k, d=None):
        s = self._find(k)
        return d if s is None else dict.__getitem__(self, s)

    def __setitem__(self, k, v):
        s = self._find(k)
        if s is None:
            if self._issym(k):
                s = _Key(k)
                self._nsym += 1
            else:
                s = k
        dict.__setitem__(self, s, v)

    def __delitem__(self, k):
        s = self._find(k)
        if s is None:
            raise KeyError(k)
        if type(s) is _Key:
            self._nsym -= 1
        dict.__delitem__(self, s)

    def pop(self, k, *d):
        s = self._find(k)
        if s is None:
            if d:
                return d[0]
            raise KeyError(k)
        if type(s) is _Key:
            self._nsym -= 1
        return dict.pop(self, s)

    def popitem(self):
        s, v = dict.popitem(self)
        if type(s) is _Key:
            self._nsym -= 1
            s = s.k
        return s, v

    def clear(self):
        self._nsym = 0
        dict.clear(self)

    def setdefault(self, k, d=None):
        s = self._find(k)
        if s is not None:
            return dict.__getitem__(self, s)
        self[k] = d
        return d

    def update(self, *a, **kw):
        for src in a + (kw,):
            if hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v

    def copy(self):
        return SDict(self)

    def __iter__(self):
        for s in list(dict.keys(self)) if self._nsym else dict.keys(self):
            yield s.k if type(s) is _Key else s

    def keys(self):
        if not self._nsym:
            return dict.keys(self)
        return list(self)

    def items(self):
        if not self._nsym:
            return dict.items(self)
        return [(s.k if type(s) is _Key else s, v) for s, v in dict.items(self)]

    def __eq__(self, o):
        if not isinstance(o, dict) or len(self) != len(o):
            return False
        for k, v in self.items():
            if not (k in o) or not s_eq(v, o[k]):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self


class SDefaultDict(SDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class SSet:
    """set made by the code under test: concrete members in a table, symbolic ones in a list."""

    def __init__(self, it=()):
        self.conc = {}
        self.syms = []
        for x in it:
            self._put(x)

    def _put(self, x):
        if has_sym(x):
            if not bool(s_in(x, self.items_)):
                self.syms.append(x)
        elif x not in self.conc and not (self.syms and bool(s_in(x, self.syms))):
            self.conc[x] = None

    @property
    def items_(self):
        return list(self.conc) + self.syms if self.syms else list(self.conc)

    def has(self, x):
        if has_sym(x):
            return s_in(x, self.items_)
        if x in self.conc:
            return True
        return s_in(x, self.syms) if self.syms else False

    def _make(self, it):
        return type(self)(it)

    def add(self, x):
        self._put(x)

    def discard(self, x):
        if not has_sym(x) and x in self.conc:
            del self.conc[x]
            return True
        for y in self.items_:
            if bool(s_eq(x, y)):
                if has_sym(y):
                    self.syms = [z for z in self.syms if z is not y]
                else:
                    del self.conc[y]
                return True
        return False

    def remove(self, x):
        if not self.discard(x):
            raise KeyError(x)

    def pop(self):
        if not self:
            raise KeyError("pop from an empty set")
        x = self.items_[0]
        self.discard(x)
        return x

    def clear(self):
        self.conc, self.syms = {}, []

    def update(self, *its):
        for it in its:
            for x in it:
                self._put(x)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self.conc, self.syms = r.conc, r.syms

    def symmetric_difference_update(self, it):
        r = self.symmetric_difference(it)
        self.conc, self.syms = r.conc, r.syms

    def __contains__(self, x):
        return bool(self.has(x))

    def __iter__(self):
        return iter(self.items_)

    def __len__(self):
        return len(self.conc) + len(self.syms)

    def __bool__(self):
        return bool(self.conc) or bool(self.syms)

    def union(self, *its):
        r = self._make(self.items_)
        for it in its:
            for x in it:
                r._put(x)
        return r

    def intersection(self, *its):
        return self._make([x for x in self.items_ if all(bool(s_in(x, _members(it))) for it in its)])

    def difference(self, *its):
        return self._make([x for x in self.items_ if not any(bool(s_in(x, _members(it))) for it in its)])

    def symmetric_difference(self, it):
        o = SSet(it)
        return self._make([x for x in self.items_ if not bool(o.has(x))]
                          + [x for x in o.items_ if not bool(self.has(x))])

    def issubset(self, o):
        o = _members(o)
        return wrap(mk_and(*[form(s_in(x, o)) for x in self.items_])) if self else True

    def issuperset(self, o):
        fs = [form(self.has(x)) for x in o]
        return wrap(mk_and(*fs)) if fs else True

    def isdisjoint(self, o):
        o = _members(o)
        return s_not(wrap(mk_or(*[form(s_in(x, o)) for x in self.items_]))) if self else True

    def _op(name):                                      # noqa: N805
        def f(self, o):
            if not isinstance(o, SETS):
                return NotImplemented
            return getattr(self, name)(o)
        return f

    __or__ = __ror__ = _op("union")
    __and__ = __rand__ = _op("intersection")
    __sub__ = _op("difference")
    __xor__ = __rxor__ = _op("symmetric_difference")
    __le__ = _op("issubset")
    __ge__ = _op("issuperset")
    del _op

    def __rsub__(self, o):
        if not isinstance(o, SETS):
            return NotImplemented
        return SSet([x for x in o if not bool(self.has(x))])

    def __lt__(self, o):
        if not isinstance(o, SETS):
            return NotImplemented
        return len(self) < len(o) and bool(self.issubset(o))

    def __gt__(self, o):
        if not isinstance(o, SETS):
            return NotImplemented
        return len(self) > len(o) and bool(self.issuperset(o))

    def _iop(name):                                     # noqa: N805
        def f(self, o):
            if not isinstance(o, SETS):
                return NotImplemented
            getattr(self, name)(o)
            return self
        return f

    __ior__ = _iop("update")
    __iand__ = _iop("intersection_update")
    __isub__ = _iop("difference_update")
    __ixor__ = _iop("symmetric_difference_update")
    del _iop

    def __eq__(self, o):
        if not isinstance(o, SETS):
            return False
        return len(self) == len(o) and bool(self.issubset(o))

    def __ne__(self, o):
        return not self == o

    def copy(self):
        return self._make(self.items_)

    def __repr__(self):
        return "<set>"

    __hash__ = None


class SFrozen(SSet):
    """frozenset"""
    add = discard_ = update = remove = pop = clear = None
    __ior__ = __iand__ = __isub__ = __ixor__ = None

    def __hash__(self):
        return hash(frozenset(concrete(x) if is_sym(x) else x for x in self.items_))


SETS = (SSet, set, frozenset, type({}.keys()))


def _members(it):
    """Something s_in can search."""
    if isinstance(it, (list, tuple, dict, SSet, set, frozenset)):
        return it
    if is_strlike(it):
        return list(it)         # set methods look at characters, not substrings
    return list(it)


def _by_value(cls, names, conv):
    def add(name):
        op = getattr(operator, name.strip("_")) if name.strip("_") not in ("divmod", "round", "and", "or", "index") else None
        if op is None:
            op = {"__divmod__": divmod, "__and__": operator.and_, "__or__": operator.or_}[name]
        r = "__r" + name[2:]

        def fwd(self, o):
            return op(conv(self), concrete(o) if is_sym(o) else o)

        def rev(self, o):
            return op(concrete(o) if is_sym(o) else o, conv(self))
        if name not in cls.__dict__:
            setattr(cls, name, fwd)
        if r not in cls.__dict__:
            setattr(cls, r, rev)
    for n in names:
        add(n)


_ARITH = ("__add__", "__sub__", "__mul__", "__truediv__", "__floordiv__", "__mod__", "__divmod__", "__pow__", "__lshift__",
          "__rshift__", "__and__", "__or__", "__xor__")
_by_value(SymInt, _ARITH, int)
_by_value(SymBool, _ARITH, bool)
_by_value(SymChoice, _ARITH, concrete)
for _c in (SymInt, SymBool, SymChoice):
    for _n, _f in (("__neg__", operator.neg), ("__pos__", operator.pos), ("__invert__", operator.invert), ("__abs__", abs),
                   ("__float__", float), ("__int__", int), ("__index__", int), ("__round__", round)):
        if _n not in _c.__dict__:
            setattr(_c, _n, (lambda f: lambda self, *a: f(bool(self) if type(self) is SymBool else concrete(self), *a))(_f))
for _n in ("__le__", "__ge__"):
    if _n not in SymChoice.__dict__:
        setattr(SymChoice, _n, (lambda f: lambda self, o: f(concrete(self), o))(getattr(operator, _n)))
