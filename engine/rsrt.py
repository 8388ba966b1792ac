"""Meaning of Rust's operations and of the standard library's functions for code translated by mir2py."""
import functools
import re

from . import core, rx
from .core import mk_and, mk_not, mk_or
from .values import (SDict, SSet, SymBool, SymChoice, SymInt, SymStr, char_in, chars_of, concrete, form, is_strlike, mk_str, s_eq,
                     s_in, s_not, str_contains, str_eq, wrap)

UNIT = []
MATCH = (rx.Match, re.Match)
MODELS = {}
TYPED = set()


class Panic(Exception):
    """The Rust code panics."""


def unsupported(what):
    return core.EngineError("Rust: " + str(what))


def missing(what):
    raise unsupported("no model of " + what)


# ------------------------------------------------------------------ data


class Ref:
    """A mutable reference, raw pointer or box: a place in a container."""
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def set(self, v):
        self.c[self.k] = v


class SliceRef(Ref):
    """A mutable slice of a list."""
    __slots__ = ()

    def __init__(self, c, k):
        if isinstance(c, Ref):
            c = c.get()
        self.c, self.k = c, k

    def get(self):
        return View(self.c, *self.k.indices(len(self.c))[:2])

    def set(self, v):
        raise unsupported("assignment to a slice")


class View(list):
    """Part of a list, written through."""

    def __init__(self, base, lo, hi):
        list.__init__(self, base[lo:hi])
        self.base, self.lo = base, lo

    def __setitem__(self, i, v):
        list.__setitem__(self, i, v)
        if isinstance(i, slice):
            a, b, _ = i.indices(len(self))
            self.base[self.lo + a:self.lo + b] = v
        else:
            self.base[self.lo + i if i >= 0 else self.lo + len(self) + i] = v


def box(v):
    return Ref([v], 0)


def D(x):
    while isinstance(x, Ref):
        x = x.get()
    return x


class En(list):
    """An enum's value: variant and fields."""
    __slots__ = ()


class Rng(list):
    """A range."""
    __slots__ = ("kind",)

    def __init__(self, kind, v):
        list.__init__(self, v)
        self.kind = kind


class Clo(list):
    """A closure: code and captured values."""
    __slots__ = ("fn",)

    def __init__(self, fn, v):
        list.__init__(self, v)
        self.fn = fn

    def get(self):
        return self

    def __call__(self, *a):
        return self.fn(self, *a)

    def __bool__(self):
        return True


class Lazy:
    def __init__(self, f):
        self.f = f
        self.done = False
        self.world = None

    @classmethod
    def made(cls, v):
        x = cls(None)
        x.done, x.v = True, v
        return x

    def force(self):
        w = self.world
        if w is not None:
            for s in w.forcing:
                w.uses.setdefault(s, set()).add(self.name)
        if not self.done:
            if w is not None:
                w.forcing.append(self.name)
            try:
                self.v = call(self.f)
            finally:
                if w is not None:
                    w.forcing.pop()
            self.done = True
            if w is not None and w.forcing:
                for s in w.forcing:
                    w.uses[s] |= w.uses.get(self.name, set())
        return self.v


class CellV:
    """Cell, RefCell, Mutex, RwLock, OnceLock."""

    def __init__(self, v):
        self.v = [v]

    def __getitem__(self, i):
        return self.v[0]


def call(f, *a):
    f = D(f) if isinstance(f, Ref) else f
    if callable(f):
        return f(*a)
    raise unsupported("call of " + type(f).__name__)


def copy(x):
    t = type(x)
    if t is list:
        return [copy(y) for y in x]
    if t is En:
        return En([copy(y) for y in x])
    if t is Rng:
        return Rng(x.kind, [copy(y) for y in x])
    if t is Clo:
        return Clo(x.fn, list(x))
    return x


def clone(x):
    x = D(x)
    t = type(x)
    if t is list or t is View:
        return [clone1(y) for y in x]
    if t is En:
        return En([clone1(y) for y in x])
    if t is Rng:
        return Rng(x.kind, [clone1(y) for y in x])
    if isinstance(x, It):
        return x.clone()
    if isinstance(x, SDict):
        d = type(x)()
        for k, v in x.items():
            d[k] = clone1(v)
        return d
    if isinstance(x, SSet):
        return SSet(list(x))
    return x


def clone1(x):
    if isinstance(x, Ref):          # a Box
        return box(clone(x))
    if type(x) in (list, En, Rng, SDict, SSet) or isinstance(x, (It, SDict)):
        return clone(x)
    return x


def some(x):
    return En((1, x))


def none():
    return En((0,))


def ok(x):
    return En((0, x))


def err(x):
    return En((1, x))


def repeat(v, n):
    return [v] + [clone1(v) for _ in range(n - 1)] if n else []


def table(x, ds):
    x = concrete(x)
    d = ds[x]
    return d - (1 << 128) if d >> 127 else d if d < 1 << 63 else d


# ------------------------------------------------------------------ scalars


def eq(a, b):
    a, b = D(a), D(b)
    ta, tb = type(a), type(b)
    if ta in (str, int, bool) and tb is ta:
        return a == b
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = form(eq(x, y))
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return wrap(mk_and(*fs)) if fs else True
    if isinstance(a, SSet) and isinstance(b, SSet):
        return len(a) == len(b) and all(a.has(x) for x in b)
    if isinstance(a, SDict) and isinstance(b, SDict):
        return len(a) == len(b) and all(b.has(k) and bool(eq(v, b[k])) for k, v in a.items())
    return s_eq(a, b)


def not_(x):
    return not x if type(x) is bool else s_not(x)


def ne(a, b):
    return not_(eq(a, b))


def inv(x, w):
    x = concrete(x)
    return ~x if w[1] else (1 << w[0]) - 1 - x


def wrapint(x, w):
    bits, signed = w
    x &= (1 << bits) - 1
    if signed and x >> (bits - 1):
        x -= 1 << bits
    return x


def bounds_of(x):
    """Least and greatest value of a SymInt, ignoring the path."""
    lo = hi = x.const
    for w in x.terms.values():
        lo += min(w)
        hi += max(w)
    return lo, hi


def limits(w):
    bits, signed = w
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)


def outside(x, w):
    """Whether the integer does not fit."""
    lo, hi = limits(w)
    if type(x) is int:
        return not lo <= x <= hi
    if type(x) is SymInt:
        a, b = bounds_of(x)
        if lo <= a and b <= hi:
            return False
        return wrap(mk_or(form(x < lo), form(x > hi)))
    if type(x) is float:
        return False
    return outside(concrete(x), w)


def lift(x):
    if type(x) in (SymChoice, SymBool):
        return concrete(x)
    return x


def chk_add(a, b, w):
    r = lift(a) + lift(b)
    return [r, outside(r, w)]


def chk_sub(a, b, w):
    r = lift(a) - lift(b)
    return [r, outside(r, w)]


def chk_mul(a, b, w):
    a, b = lift(a), lift(b)
    if type(a) is SymInt and type(b) is SymInt:
        b = int(b)
    r = a * b
    return [r, outside(r, w)]


def fix(r, w):
    if not isinstance(w, tuple):
        return r
    if type(r) is int:
        lo, hi = limits(w)
        return r if lo <= r <= hi else wrapint(r, w)
    if outside(r, w):
        return wrapint(int(r), w)
    return r


def bin_add(a, b, w):
    return fix(lift(a) + lift(b), w)


def bin_sub(a, b, w):
    return fix(lift(a) - lift(b), w)


def bin_mul(a, b, w):
    return fix(chk_mul(a, b, w)[0] if isinstance(w, tuple) else a * b, w)


bin_addunchecked, bin_subunchecked, bin_mulunchecked = bin_add, bin_sub, bin_mul


def bin_div(a, b, w):
    a, b = concrete(a), concrete(b)
    if not isinstance(w, tuple):
        return a / b
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def bin_rem(a, b, w):
    a, b = concrete(a), concrete(b)
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def bin_bitand(a, b, w):
    if w == "bool":
        return wrap(mk_and(form(a), form(b))) if not (type(a) is bool and type(b) is bool) else a and b
    return concrete(a) & concrete(b)


def bin_bitor(a, b, w):
    if w == "bool":
        return wrap(mk_or(form(a), form(b))) if not (type(a) is bool and type(b) is bool) else a or b
    return concrete(a) | concrete(b)


def bin_bitxor(a, b, w):
    if w == "bool":
        return ne(tobool(a), tobool(b))
    return concrete(a) ^ concrete(b)


def tobool(x):
    return wrap(x.truth()) if type(x) is SymChoice else x


def bin_shl(a, b, w):
    return wrapint(concrete(a) << concrete(b), w)


def bin_shr(a, b, w):
    return concrete(a) >> concrete(b)


bin_shlunchecked, bin_shrunchecked = bin_shl, bin_shr


def bin_cmp(a, b, w):
    return compare(a, b)


def bin_offset(a, b, w):
    raise unsupported("pointer arithmetic")


def ordv(c):
    """Code of a character."""
    if type(c) is str:
        return ord(c)
    if type(c) is SymStr:
        c = c.chars[0]
        return SymChoice(c.var, tuple(ord(o) for o in c.outs))
    return ord(concrete(c))


def chrv(n):
    if type(n) is SymChoice:
        from .values import mk_char
        return mk_str((mk_char(n.var, tuple(chr(o) for o in n.outs)),))
    return chr(concrete(n))


def cast(x, a, b):
    if a == "char":
        n = ordv(x)
        return n if type(n) is SymChoice else wrapint(n, b)
    if b == "char":
        return chrv(x)
    if a == "bool":
        if type(x) is bool:
            return int(x)
        x = tobool(x)
        from .values import int_of_formula
        return int_of_formula(form(x))
    if type(x) is int:
        return wrapint(x, b) if isinstance(b, tuple) else float(x)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return fix(x, b)
    return x


def length(x):
    x = D(x)
    if is_strlike(x):
        return blen(x)
    return len(x)


# ------------------------------------------------------------------ order


def lt(a, b):
    """a < b as a truth value."""
    a, b = D(a), D(b)
    if isinstance(a, list):
        return compare(a, b) == 0
    return a < b


LESS, EQUAL, GREATER = 0, 1, 2


def compare(a, b):
    """Ordering's variant."""
    a, b = D(a), D(b)
    if isinstance(a, list):
        for x, y in zip(a, b):
            c = compare(x, y)
            if c != EQUAL:
                return c
        return compare(len(a), len(b))
    if is_strlike(a) and not (type(a) is str and type(b) is str):
        if bool(s_eq(a, b)):
            return EQUAL
        return LESS if bool(a < b) else GREATER
    if type(a) in (bool, SymBool):
        a, b = int(a), int(b)
    if type(a) is str:
        a, b = a.encode(), b.encode()
    if bool(a == b):
        return EQUAL
    return LESS if bool(a < b) else GREATER


def cmp_to_int(c):
    return c - 1


KEY = functools.cmp_to_key(lambda a, b: compare(a, b) - 1)


# ------------------------------------------------------------------ strings


def only_ascii(s):
    """Branches on characters until it is known which are ASCII; the byte widths when they are not all 1."""
    if type(s) is str:
        return None if s.isascii() else [len(c.encode("utf-8", "surrogatepass")) for c in s]
    ws = None
    for i, c in enumerate(s.chars):
        if type(c) is str:
            n = 1 if c < "\x80" else len(c.encode("utf-8", "surrogatepass"))
        else:
            sizes = c._masks.get("bytes")
            if sizes is None:
                sizes = {}
                for j, o in enumerate(c.outs):
                    n = len(o.encode("utf-8", "surrogatepass"))
                    sizes[n] = sizes.get(n, 0) | 1 << j
                c._masks["bytes"] = sizes
            if len(sizes) == 1:
                n = next(iter(sizes))
            else:
                for n, m in sorted(sizes.items()):
                    if core.CUR.decide(core.mk_u(c.var, m)):
                        break
        if n != 1 and ws is None:
            ws = [1] * i
        if ws is not None:
            ws.append(n)
    return ws


def S(x):
    x = D(x)
    if type(x) is str or type(x) is SymStr:
        return x
    if type(x) is SymChoice:
        return concrete(x)
    if isinstance(x, str):
        return x
    if type(x) is En:               # Cow
        return S(x[1])
    if isinstance(x, MATCH):
        return x.group(0)
    raise unsupported("string expected, got " + type(x).__name__)


def blen(s):
    w = only_ascii(s)
    return len(s) if w is None else sum(w)


def at_byte(s, n, w=None):
    """Index of the character at byte n."""
    if w is None:
        w = only_ascii(s)
    if w is None:
        if not 0 <= n <= len(s):
            raise Panic("byte index out of range")
        return n
    t = 0
    for i, x in enumerate(w):
        if t == n:
            return i
        if t > n:
            raise Panic("not a character boundary")
        t += x
    if t == n:
        return len(s)
    raise Panic("byte index out of range")


def byte_of(s, i):
    w = only_ascii(s)
    return i if w is None else sum(w[:i])


def range_of(r, n):
    """(start, end) of a range over n elements."""
    k = r.kind
    v = [concrete(x) for x in r]
    if k == "Range":
        return v[0], v[1]
    if k == "RangeFrom":
        return v[0], n
    if k == "RangeTo":
        return 0, v[0]
    if k == "RangeFull":
        return 0, n
    if k == "RangeInclusive":
        return v[0], v[1] + 1
    if k == "RangeToInclusive":
        return 0, v[0] + 1
    raise unsupported(k)


def substr(s, r):
    w = only_ascii(s)
    n = len(s) if w is None else sum(w)
    a, b = range_of(r, n)
    if not 0 <= a <= b <= n:
        raise Panic("byte range out of bounds")
    return s[a:b] if w is None else s[at_byte(s, a, w):at_byte(s, b, w)]


def char_pattern(p):
    """Predicate on characters, or None when the pattern is a string."""
    p = D(p)
    if is_strlike(p):
        return None
    if isinstance(p, Clo) or callable(p) and not isinstance(p, list):
        return p
    if isinstance(p, list):
        cs = [D(c) for c in p]
        if all(type(c) is str for c in cs):
            t = "".join(cs)
            return lambda c: c in t if type(c) is str else wrap(char_in(c.chars[0], t))
        return lambda c: any(bool(s_eq(c, x)) for x in cs)
    raise unsupported("pattern")


def find_at(s, p, lo):
    """(start, end) of the first match at or after lo."""
    f = char_pattern(p)
    n = len(s)
    if f is not None:
        for i in range(lo, n):
            if f(s[i]):
                return i, i + 1
        return None
    p = S(p)
    m = len(p)
    for i in range(lo, n - m + 1):
        if str_eq_(s[i:i + m], p):
            return i, i + m
    return None


def str_eq_(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    return wrap(str_eq(a, b))


def rfind_at(s, p, hi):
    f = char_pattern(p)
    if f is not None:
        for i in range(hi - 1, -1, -1):
            if f(s[i]):
                return i, i + 1
        return None
    p = S(p)
    m = len(p)
    for i in range(hi - m, -1, -1):
        if str_eq_(s[i:i + m], p):
            return i, i + m
    return None


def all_matches(s, p, limit=None):
    out = []
    lo = 0
    empty = char_pattern(p) is None and len(S(p)) == 0
    while limit is None or len(out) < limit:
        if lo > len(s):
            break
        m = find_at(s, p, lo)
        if m is None:
            break
        out.append(m)
        lo = m[1] + 1 if empty else m[1]
    return out


def pieces(s, ms):
    out = []
    lo = 0
    for a, b in ms:
        out.append(s[lo:a])
        lo = b
    return out, s[lo:]


def prefix(s, p):
    """Truth value and length of the pattern at the start."""
    f = char_pattern(p)
    if f is not None:
        return (False, 0) if len(s) == 0 else (f(s[0]), 1)
    p = S(p)
    if len(p) > len(s):
        return False, 0
    return str_eq_(s[:len(p)], p), len(p)


def suffix(s, p):
    f = char_pattern(p)
    if f is not None:
        return (False, 0) if len(s) == 0 else (f(s[len(s) - 1]), 1)
    p = S(p)
    if len(p) > len(s):
        return False, 0
    return str_eq_(s[len(s) - len(p):], p), len(p)


def trim(s, p, left, right):
    if left:
        while len(s):
            t, n = prefix(s, p)
            if not n or not t:
                break
            s = s[n:]
    if right:
        while len(s):
            t, n = suffix(s, p)
            if not n or not t:
                break
            s = s[:len(s) - n]
    return s


def is_white(c):
    c = S(c)
    f = lambda x: x.isspace() and x not in "\x1c\x1d\x1e\x1f"
    return char_test(c, f, "white")


def char_test(c, pred, key):
    """Truth value of a predicate on a character."""
    if type(c) is str:
        return pred(c)
    c = c.chars[0]
    if type(c) is str:
        return pred(c)
    m = c._masks.get(("test", key))
    if m is None:
        m = 0
        for i, o in enumerate(c.outs):
            if pred(o):
                m |= 1 << i
        c._masks[("test", key)] = m
    return wrap(core.mk_u(c.var, m))


def fin_sigma(s):
    return s


def lower(s):
    if type(s) is str:
        return s.lower()
    return s.lower()


def upper(s):
    return s.upper()


def ascii_map(f):
    def g(s):
        s = S(s)
        if type(s) is str:
            return "".join(f(c) if c < "\x80" else c for c in s)
        return s._map(lambda c: f(c) if c < "\x80" else c)
    return g


ascii_lower = ascii_map(str.lower)
ascii_upper = ascii_map(str.upper)


def cat(a, b):
    return a + b


# ------------------------------------------------------------------ formatting


class Formatter:
    def __init__(self, alternate=False):
        self.out = ""

    def write(self, s):
        self.out = self.out + s


def display(w, x, ty=None):
    """What {} prints."""
    x = D(x)
    if is_strlike(x):
        return S(x)
    if ty is not None:
        f = local_impl(w, ty, "Display::fmt")
        if f is not None:
            fm = Formatter()
            r = f(x, box(fm))
            if r[0]:
                raise Panic("formatting failed")
            return fm.out
    if type(x) is int:
        return str(x)
    if type(x) is bool:
        return "true" if x else "false"
    if type(x) in (SymInt, SymBool, SymChoice):
        x = concrete(x)
        return display(w, x, ty)
    if type(x) is En and len(x) == 2 and is_strlike(D(x[1])):
        return S(x[1])
    if isinstance(x, Arguments):
        return x.text
    return "<?>"


def debug(w, x, ty=None):
    x = D(x)
    if ty is not None:
        f = local_impl(w, ty, "Debug::fmt")
        if f is not None:
            fm = Formatter()
            f(x, box(fm))
            return fm.out
    if is_strlike(x):
        x = S(x)
        return '"' + x + '"'
    if type(x) in (int, bool):
        return display(w, x)
    if type(x) is list:
        out = "["
        for i, y in enumerate(x):
            out = out + (", " if i else "") + debug(w, y)
        return out + "]"
    return "<?>"


def strip_refs(w, t):
    while w.kind(t)[0] in ("ref", "ptr"):
        t = w.kind(t)[1]
    return t


def local_impl(w, t, what):
    t = strip_refs(w, t)
    s = w.types[t]["s"]
    k = w.kind(t)
    if k[0] != "adt" or not k[5]:
        return None
    return w.impl(k[1].split("::", 1)[-1], what) or w.impl(s, what)


class Arguments:
    def __init__(self, text):
        self.text = text


class Arg:
    def __init__(self, text):
        self.text = text


def render(template, args):
    """core::fmt's encoding of format strings."""
    t = bytes(template)
    i = 0
    nxt = 0
    out = ""
    while True:
        n = t[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out = out + t[i:i + n].decode()
            i += n
            continue
        if n == 0x80:
            k = int.from_bytes(t[i:i + 2], "little")
            out = out + t[i + 2:i + 2 + k].decode()
            i += 2 + k
            continue
        if n == 0xC0:
            out = out + args[nxt].text
            nxt += 1
            continue
        width = prec = None
        flags = 0
        idx = nxt
        if n & 1:
            flags = int.from_bytes(t[i:i + 4], "little")
            i += 4
        if n & 2:
            width = int.from_bytes(t[i:i + 2], "little")
            i += 2
        if n & 4:
            prec = int.from_bytes(t[i:i + 2], "little")
            i += 2
        if n & 8:
            idx = int.from_bytes(t[i:i + 2], "little")
            i += 2
        if width or prec or n & ~0xCF:
            if (width is not None or prec is not None) and args[idx].text != "<?>":
                raise unsupported("format width")
        out = out + args[idx].text
        nxt = idx + 1


# ------------------------------------------------------------------ iterators

END = object()


class It:
    """An iterator."""

    def next(self):
        raise NotImplementedError

    def back(self):
        raise unsupported("reversed " + type(self).__name__)

    def clone(self):
        raise unsupported("clone of " + type(self).__name__)

    def __iter__(self):
        while True:
            x = self.next()
            if x is END:
                return
            yield x

    def size(self):
        """Elements left."""
        return sum(1 for _ in self.clone())


class LIt(It):
    def __init__(self, xs, lo=0, hi=None):
        self.xs = xs
        self.lo = lo
        self.hi = len(xs) if hi is None else hi

    def next(self):
        if self.lo >= self.hi:
            return END
        self.lo += 1
        return self.xs[self.lo - 1]

    def back(self):
        if self.lo >= self.hi:
            return END
        self.hi -= 1
        return self.xs[self.hi]

    def clone(self):
        return type(self)(self.xs, self.lo, self.hi)

    def size(self):
        return self.hi - self.lo

    def rest(self):
        return self.xs[self.lo:self.hi]


class Chars(LIt):
    """Over a string; xs is the string itself."""

    def nth(self, n):
        self.lo += n
        return self.next()


class MutIt(LIt):
    def next(self):
        if self.lo >= self.hi:
            return END
        self.lo += 1
        return Ref(self.xs, self.lo - 1)

    def back(self):
        if self.lo >= self.hi:
            return END
        self.hi -= 1
        return Ref(self.xs, self.hi)


class Count(It):
    """a.. with no end."""

    def __init__(self, n):
        self.n = n

    def next(self):
        self.n += 1
        return self.n - 1

    def clone(self):
        return Count(self.n)


class RngIt(It):
    """A Range used as iterator: keeps its fields up to date."""

    def __init__(self, r):
        self.r = r

    def next(self):
        r = self.r
        if r.kind == "Range":
            a, b = concrete(r[0]), concrete(r[1])
            if type(a) is str:
                if not a < b:
                    return END
                r[0] = chr(ord(a) + 1)
                return a
            if a >= b:
                return END
            r[0] = a + 1
            return a
        if r.kind == "RangeFrom":
            a = concrete(r[0])
            r[0] = a + 1
            return a
        if r.kind == "RangeInclusive":
            a, b = concrete(r[0]), concrete(r[1])
            if r[2] or a > b:
                return END
            if a == b:
                r[2] = True
            else:
                r[0] = chr(ord(a) + 1) if type(a) is str else a + 1
            return a
        raise unsupported("iteration over " + r.kind)

    def back(self):
        r = self.r
        a, b = concrete(r[0]), concrete(r[1])
        if r.kind == "Range":
            if not a < b:
                return END
            r[1] = chr(ord(b) - 1) if type(b) is str else b - 1
            return r[1]
        if r.kind == "RangeInclusive":
            if r[2] or a > b:
                return END
            if a == b:
                r[2] = True
            else:
                r[1] = chr(ord(b) - 1) if type(b) is str else b - 1
            return b
        raise unsupported("reversed " + r.kind)

    def clone(self):
        return RngIt(copy(self.r))


class Adapt(It):
    """One source, one function."""

    def __init__(self, it, f=None):
        self.it, self.f = it, f

    def clone(self):
        c = type(self).__new__(type(self))
        c.__dict__.update(self.__dict__)
        c.it = self.it.clone()
        return c


class MapIt(Adapt):
    def next(self):
        x = self.it.next()
        return END if x is END else self.f(x)

    def back(self):
        x = self.it.back()
        return END if x is END else self.f(x)

    def size(self):
        return self.it.size()


class FilterIt(Adapt):
    def next(self):
        while True:
            x = self.it.next()
            if x is END or self.f(x):
                return x

    def back(self):
        while True:
            x = self.it.back()
            if x is END or self.f(x):
                return x


class FilterMapIt(Adapt):
    def _one(self, step):
        while True:
            x = step()
            if x is END:
                return END
            r = self.f(x)
            if r[0]:
                return r[1]

    def next(self):
        return self._one(self.it.next)

    def back(self):
        return self._one(self.it.back)


class EnumIt(Adapt):
    def __init__(self, it):
        self.it = it
        self.i = 0

    def next(self):
        x = self.it.next()
        if x is END:
            return END
        self.i += 1
        return [self.i - 1, x]

    def back(self):
        n = self.it.size()
        x = self.it.back()
        return END if x is END else [self.i + n - 1, x]

    def size(self):
        return self.it.size()


class ZipIt(It):
    def __init__(self, *its):
        self.its = its

    def next(self):
        out = []
        for i in self.its:
            x = i.next()
            if x is END:
                return END
            out.append(x)
        return out

    def back(self):
        ns = [i.size() for i in self.its]
        m = min(ns)
        for i, n in zip(self.its, ns):
            for _ in range(n - m):
                i.back()
        out = [i.back() for i in self.its]
        return END if any(x is END for x in out) else out

    def clone(self):
        return ZipIt(*[i.clone() for i in self.its])


class ChainIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self):
        x = self.a.next()
        return self.b.next() if x is END else x

    def back(self):
        x = self.b.back()
        return self.a.back() if x is END else x

    def clone(self):
        return ChainIt(self.a.clone(), self.b.clone())


class SkipIt(Adapt):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def next(self):
        while self.n:
            self.n -= 1
            if self.it.next() is END:
                return END
        return self.it.next()

    def back(self):
        return END if self.it.size() <= self.n else self.it.back()

    def size(self):
        return max(0, self.it.size() - self.n)


class TakeIt(Adapt):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def next(self):
        if not self.n:
            return END
        self.n -= 1
        return self.it.next()

    def back(self):
        n = self.it.size()
        for _ in range(n - self.n):
            self.it.back()
        if not self.n:
            return END
        self.n -= 1
        return self.it.back()

    def size(self):
        return min(self.n, self.it.size()) if not isinstance(self.it, (Count,)) else self.n


class TakeWhileIt(Adapt):
    done = False

    def next(self):
        if self.done:
            return END
        x = self.it.next()
        if x is END or self.f(x):
            return x
        self.done = True
        return END


class MapWhileIt(Adapt):
    done = False

    def next(self):
        x = self.it.next()
        if x is END:
            return x
        r = self.f(x)
        return r[1] if r[0] else END


class SkipWhileIt(Adapt):
    started = False

    def next(self):
        x = self.it.next()
        while not self.started and x is not END:
            if not self.f(x):
                self.started = True
                return x
            x = self.it.next()
        return x

    def back(self):
        return LIt(list(self)).back() if False else _whole_back(self)


def _whole_back(it):
    xs = LIt(list(it.clone()))
    x = xs.back()
    raise unsupported("reversed " + type(it).__name__)


class StepIt(Adapt):
    def __init__(self, it, n):
        self.it, self.n, self.first = it, n, True

    def next(self):
        if self.first:
            self.first = False
            return self.it.next()
        for _ in range(self.n - 1):
            if self.it.next() is END:
                return END
        return self.it.next()


class RevIt(Adapt):
    def next(self):
        return self.it.back()

    def back(self):
        return self.it.next()

    def size(self):
        return self.it.size()


class InspectIt(Adapt):
    def next(self):
        x = self.it.next()
        if x is not END:
            self.f(x)
        return x


class PeekIt(Adapt):
    def __init__(self, it):
        self.it, self.buf = it, []

    def next(self):
        return self.buf.pop() if self.buf else self.it.next()

    def peek(self):
        if not self.buf:
            self.buf = [self.it.next()]
        return self.buf

    def back(self):
        x = self.it.back()
        return self.buf.pop() if x is END and self.buf else x

    def clone(self):
        c = PeekIt(self.it.clone())
        c.buf = list(self.buf)
        return c


class FlatIt(It):
    def __init__(self, it):
        self.it = it
        self.cur = self.tail = None

    def next(self):
        while True:
            if self.cur is not None:
                x = self.cur.next()
                if x is not END:
                    return x
            y = self.it.next()
            if y is END:
                self.cur = None
                return END if self.tail is None else self.tail.next()
            self.cur = as_it(y)

    def back(self):
        while True:
            if self.tail is not None:
                x = self.tail.back()
                if x is not END:
                    return x
            y = self.it.back()
            if y is END:
                self.tail = None
                return END if self.cur is None else self.cur.back()
            self.tail = as_it(y)

    def clone(self):
        c = FlatIt(self.it.clone())
        c.cur = self.cur.clone() if self.cur else None
        c.tail = self.tail.clone() if self.tail else None
        return c


class ScanIt(Adapt):
    def __init__(self, it, st, f):
        self.it, self.f, self.st = it, f, [st]

    def next(self):
        x = self.it.next()
        if x is END:
            return END
        r = self.f(Ref(self.st, 0), x)
        return r[1] if r[0] else END


class CycleIt(It):
    def __init__(self, it):
        self.orig, self.it = it.clone(), it

    def next(self):
        x = self.it.next()
        if x is END:
            self.it = self.orig.clone()
            x = self.it.next()
        return x


class FnIt(It):
    """from_fn, successors, repeat_with."""

    def __init__(self, f):
        self.f = f

    def next(self):
        return self.f()


def as_it(x):
    """IntoIterator::into_iter."""
    if isinstance(x, It):
        return x
    t = type(x)
    if t is list or t is View:
        return LIt(x)
    if t is Rng:
        return RngIt(x)
    if isinstance(x, Ref):
        y = x.get()
        if isinstance(y, It):
            return y
        if isinstance(y, Ref):
            return as_it(y)
        if type(y) is Rng:
            return RngIt(y)
        if type(y) in (list, View):
            return MutIt(y)
        if isinstance(y, SDict):
            return LIt([[k, Ref(y, k)] for k in y])
        if type(y) is En:
            return LIt([Ref(y, 1)] if y[0] else [])
        return as_it(y)
    if t is En:
        return LIt(x[1:] if x[0] else [])
    if isinstance(x, SDict):
        return LIt([[k, v] for k, v in x.items()])
    if isinstance(x, SSet):
        return LIt(list(x))
    raise unsupported("iteration over " + t.__name__)


def it_arg(x):
    """The iterator a method is called on, whether by value or by reference."""
    if isinstance(x, It):
        return x
    x = D(x)
    return x if isinstance(x, It) else as_it(x)


def fn(f):
    """Python callable of a closure or function value."""
    if isinstance(f, Ref):
        f = D(f)
    return f


# ------------------------------------------------------------------ models


def model(*names, typed=False):
    def dec(f):
        for n in names:
            MODELS[n] = f
        if typed:
            TYPED.add(f)
        return f
    return dec


def simple(**kw):
    pass


def opt(x):
    return none() if x is END or x is None else En((1, x))


def args_of(w, t):
    """Type arguments of an ADT."""
    return w.kind(t)[3]


def name_of(w, t):
    k = w.kind(t)
    return k[1].split("<")[0].split("::")[-1] if k[0] == "adt" else k[0]


# identity-like
for _n in ("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "String::as_str", "Vec::as_slice", "String::as_mut_str", "hint::must_use",
           "Into::into_identity", "str::as_str", "slice::as_slice", "Option::as_slice", "Vec::into_boxed_slice", "slice::as_ref",
           "String::into_boxed_str", "Cow::into_owned", "slice::into_vec", "Vec::leak", "String::leak", "hint::black_box", "Pin::new",
           "array::as_slice", "IntoDeserializer::x", "Wrapping::x", "boxed::into_string", "array::each_ref"):
    MODELS[_n] = None


def _deref(x):
    if type(x) is Lazy:
        return x.force()
    if isinstance(x, Ref):
        x = x.get()
        return x.force() if type(x) is Lazy else x
    if type(x) is En and len(x) == 2 and is_strlike(x[1]):
        return x[1]
    if type(x) is CellV:
        return x.v[0]
    return x


for _n in list(MODELS):
    MODELS[_n] = _deref


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice")
def _(x):
    y = x.get()
    return y if isinstance(y, Ref) else x


@model("LazyLock::new", "LazyCell::new", "OnceCell::new_x")
def _(f):
    return Lazy(f)


@model("LazyLock::force", "LazyCell::force")
def _(x):
    return D(x).force()


@model("OnceLock::new", "OnceCell::new")
def _():
    return CellV(None)


@model("OnceLock::get_or_init", "OnceCell::get_or_init")
def _(c, f):
    if c.v[0] is None:
        c.v[0] = call(f)
    return c.v[0]


@model("RefCell::new", "Cell::new", "Mutex::new", "RwLock::new")
def _(v):
    return CellV(v)


@model("RefCell::borrow", "Cell::get")
def _(c):
    return D(c).v[0]


@model("RefCell::borrow_mut")
def _(c):
    return Ref(D(c).v, 0)


@model("Mutex::lock", "RwLock::write", "RwLock::read")
def _(c):
    return ok(Ref(D(c).v, 0))


@model("Cell::set")
def _(c, v):
    D(c).v[0] = v
    return UNIT


@model("Clone::clone", "ToOwned::to_owned", "Option::cloned", "Option::copied", "slice::to_vec", "str::to_owned", "Result::cloned",
       "Result::copied", "Clone::clone_into_x", "slice::to_owned", "Rc::clone", "Arc::clone", "Cow::to_mut_x", "String::clone")
def _(x):
    return clone(x)


@model("Clone::clone_from")
def _(a, b):
    a.set(clone(b))
    return UNIT


@model("Box::new", "Rc::new", "Arc::new")
def _(x):
    return box(x)


@model("Box::new_uninit", "Box::new_uninit_in")
def _(*a):
    return box(None)


@model("boxed::box_assume_init_into_vec_unsafe", "Box::assume_init", "boxed::into_vec", "slice::into_vec")
def _(b):
    return D(b)


@model("mem::swap")
def _(a, b):
    x, y = a.get(), b.get()
    a.set(y)
    b.set(x)
    return UNIT


@model("mem::replace")
def _(a, v):
    x = a.get()
    a.set(v)
    return x


def default(w, t):
    k = w.kind(t)
    if k[0] in ("int", "uint"):
        return 0
    if k[0] == "bool":
        return False
    if k[0] == "char":
        return "\0"
    if k[0] == "tuple":
        return [default(w, x) for x in k[1]]
    if k[0] == "array":
        return [default(w, k[1]) for _ in range(k[2])]
    if k[0] == "ref":
        i = w.kind(k[1])
        return "" if i[0] == "str" else []
    n = name_of(w, t)
    if n == "String":
        return ""
    if n in ("Vec", "VecDeque"):
        return []
    if n in ("HashMap", "IndexMap", "BTreeMap"):
        return SDict()
    if n in ("HashSet", "IndexSet", "BTreeSet"):
        return SSet()
    if n == "Option":
        return none()
    f = local_impl(w, t, "Default::default")
    if f is not None:
        return f()
    raise unsupported("default of " + w.types[t]["s"])


@model("Default::default", typed=True)
def _(w, t):
    return default(w, t[0])


@model("mem::take", typed=True)
def _(w, t, a):
    x = a.get()
    a.set(default(w, t[0]))
    return x


@model("drop::drop", "mem::drop", "mem::forget", "Vec::reserve", "String::reserve", "Vec::shrink_to_fit", "String::shrink_to_fit")
def _(*a):
    return UNIT


@model("convert::identity")
def _(x):
    return x


def convert(w, x, src, dst):
    """From/Into."""
    x0 = x
    dn = name_of(w, dst)
    if src == dst:
        return x
    k = w.kind(dst)
    if k[0] == "adt" and k[5]:
        f = w.impls.get((k[1].split("::", 1)[-1], "From::from"))
        if f:
            return w.ns[w.fn(f)](x)
    sk = w.kind(src)
    if dn == "String" or dn == "Cow":
        return S(x)
    if dn in ("int", "uint"):
        if sk[0] in ("char", "bool"):
            return cast(x, sk[0], (k[1], k[0] == "int"))
        return x
    if dn == "char":
        return chrv(x)
    if dn in ("Vec", "VecDeque"):
        x = D(x)
        return [ordv(c) for c in x] if is_strlike(x) else list(x)
    if dn in ("HashSet", "BTreeSet", "IndexSet"):
        return mkset(D(x), dn)
    if dn in ("HashMap", "BTreeMap", "IndexMap"):
        return mkmap(D(x), dn)
    if dn in ("Box", "Rc", "Arc"):
        return x if isinstance(x, Ref) else box(x)
    if dn == "Option":
        return some(x)
    if dn in ("Regex",):
        return x
    if dn in ("ref", "str", "slice"):
        return x0
    raise unsupported("conversion to " + w.types[dst]["s"])


@model("From::from", "Into::into", typed=True)
def _(w, t, x):
    if t[0] is None:
        return x
    return convert(w, x, t[1][0], t[0])


def mkset(xs, kind):
    xs = list(as_it(xs))
    if kind == "BTreeSet":
        xs = sorted(xs, key=KEY)
    return SSet(xs)


def mkmap(xs, kind):
    d = SMapSorted() if kind == "BTreeMap" else SDict()
    for e in as_it(xs):
        d[e[0]] = e[1]
    return d


class SMapSorted(SDict):
    """BTreeMap."""

    def items(self):
        return sorted(SDict.items(self), key=lambda kv: KEY(kv[0]))

    def __iter__(self):
        return iter([k for k, _ in self.items()])


@model("TryFrom::try_from", "TryInto::try_into", typed=True)
def _(w, t, x):
    """Result<T, _>."""
    dst = args_of(w, t[0])[0]
    k = w.kind(dst)
    if k[0] in ("int", "uint"):
        if w.kind(t[1][0])[0] == "char":
            x = ordv(x)
        return err([]) if outside(x, (k[1], k[0] == "int")) else ok(x)
    if k[0] == "array":
        x = D(x)
        return ok(list(x)) if len(x) == k[2] else err(x)
    if k[0] == "char":
        return ok(chrv(x))
    if k[0] == "ref" and w.kind(k[1])[0] == "array":
        x = D(x)
        return ok(x) if len(x) == w.kind(k[1])[2] else err([])
    raise unsupported("TryFrom")


# ---------------------------------------------------------------- comparison


MODELS["PartialEq::eq"] = eq
MODELS["PartialEq::ne"] = ne


@model("Ord::cmp")
def _(a, b):
    return compare(a, b)


@model("PartialOrd::partial_cmp")
def _(a, b):
    return some(compare(a, b))


@model("PartialOrd::lt")
def _(a, b):
    return lt(a, b)


@model("PartialOrd::gt")
def _(a, b):
    return lt(b, a)


@model("PartialOrd::le")
def _(a, b):
    return not_(lt(b, a))


@model("PartialOrd::ge")
def _(a, b):
    return not_(lt(a, b))


@model("Ord::min", "cmp::min")
def _(a, b):
    return b if bool(lt(b, a)) else a


@model("Ord::max", "cmp::max")
def _(a, b):
    return a if bool(lt(b, a)) else b


@model("Ord::clamp")
def _(a, lo, hi):
    return lo if bool(lt(a, lo)) else hi if bool(lt(hi, a)) else a


@model("Ordering::reverse")
def _(o):
    return 2 - o


@model("Ordering::then")
def _(o, p):
    return p if o == EQUAL else o


@model("Ordering::then_with")
def _(o, f):
    return call(f) if o == EQUAL else o


for _n, _f in (("is_lt", lambda o: o == 0), ("is_gt", lambda o: o == 2), ("is_eq", lambda o: o == 1), ("is_ne", lambda o: o != 1),
               ("is_le", lambda o: o < 2), ("is_ge", lambda o: o > 0)):
    MODELS["Ordering::" + _n] = _f


# ---------------------------------------------------------------- numbers


def op_models():
    for name, f in (("Add", bin_add), ("Sub", bin_sub), ("Mul", bin_mul), ("Div", bin_div), ("Rem", bin_rem)):
        def m(w, t, a, b, f=f, name=name):
            a, b = D(a), D(b)
            if is_strlike(a):
                return cat(S(a), S(b))
            if isinstance(a, SSet):
                return SSet([x for x in a if not b.has(x)])
            k = w.kind(strip_refs(w, t[0]))
            wd = (k[1], k[0] == "int") if k[0] in ("int", "uint") else k[0]
            if name in ("Div", "Rem") and isinstance(wd, tuple) and bool(eq(b, 0)):
                raise Panic("division by zero")
            if name in ("Add", "Sub", "Mul") and isinstance(wd, tuple):
                r = {"Add": chk_add, "Sub": chk_sub, "Mul": chk_mul}[name](a, b, wd)
                if r[1]:
                    raise Panic("overflow")
                return r[0]
            return f(a, b, wd)
        model("%s::%s" % (name, name.lower()), typed=True)(m)

        def ma(w, t, a, b, m=m):
            k = strip_refs(w, t[1][0])
            a.set(m(w, (k,), a.get(), b))
            return UNIT
        model("%sAssign::%s_assign" % (name, name.lower()), typed=True)(ma)


op_models()


@model("Not::not", typed=True)
def _(w, t, x):
    k = w.kind(t[0])
    return not_(tobool(D(x))) if k[0] == "bool" else inv(D(x), (k[1], k[0] == "int"))


@model("BitXor::bitxor", "BitAnd::bitand", "BitOr::bitor", "BitXorAssign::bitxor_assign", "BitAndAssign::bitand_assign",
       "BitOrAssign::bitor_assign", typed=True)
def _(w, t, *a):
    raise unsupported("bit operator on references")


def num_models():
    def width(w, t):
        k = w.kind(strip_refs(w, t))
        return (k[1], k[0] == "int")

    def reg(name, f):
        def g(w, t, *a):
            return f(width(w, t[1][0]), *[lift(D(x)) for x in a])
        for ty in ("usize", "isize", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "num"):
            model("%s::%s" % (ty, name), typed=True)(g)

    def clampv(wd, r):
        lo, hi = limits(wd)
        if not outside(r, wd):
            return r
        return lo if bool(r < lo) else hi

    def checked(op):
        def f(wd, a, b):
            r, o = op(a, b, wd)
            return none() if o else some(r)
        return f
    reg("saturating_sub", lambda wd, a, b: clampv(wd, a - b))
    reg("saturating_add", lambda wd, a, b: clampv(wd, a + b))
    reg("saturating_mul", lambda wd, a, b: clampv(wd, chk_mul(a, b, wd)[0]))
    reg("wrapping_sub", lambda wd, a, b: fix(a - b, wd))
    reg("wrapping_add", lambda wd, a, b: fix(a + b, wd))
    reg("wrapping_mul", lambda wd, a, b: fix(chk_mul(a, b, wd)[0], wd))
    reg("checked_sub", checked(chk_sub))
    reg("checked_add", checked(chk_add))
    reg("checked_mul", checked(chk_mul))
    reg("overflowing_sub", lambda wd, a, b: [fix(a - b, wd), outside(a - b, wd)])
    reg("overflowing_add", lambda wd, a, b: [fix(a + b, wd), outside(a + b, wd)])
    reg("pow", lambda wd, a, b: concrete(a) ** concrete(b))
    reg("abs", lambda wd, a: -a if bool(a < 0) else a)
    reg("unsigned_abs", lambda wd, a: -a if bool(a < 0) else a)
    reg("abs_diff", lambda wd, a, b: b - a if bool(a < b) else a - b)
    reg("rem_euclid", lambda wd, a, b: concrete(a) % abs(concrete(b)))
    reg("div_euclid", lambda wd, a, b: concrete(a) // concrete(b))
    reg("signum", lambda wd, a: -1 if bool(a < 0) else 1 if bool(a > 0) else 0)
    reg("is_negative", lambda wd, a: a < 0)
    reg("is_positive", lambda wd, a: a > 0)
    reg("min_value", lambda wd: limits(wd)[0])
    reg("checked_div", lambda wd, a, b: none() if bool(eq(b, 0)) else some(bin_div(a, b, wd)))
    reg("checked_add_signed", checked(chk_add))
    reg("saturating_add_signed", lambda wd, a, b: clampv(wd, a + b))
    reg("wrapping_add_signed", lambda wd, a, b: fix(a + b, wd))
    reg("count_ones", lambda wd, a: bin(wrapint(concrete(a), (wd[0], False))).count("1"))
    reg("is_ascii_lowercase", lambda wd, a: 97 <= concrete(a) <= 122)
    reg("is_ascii_alphabetic", lambda wd, a: chr(concrete(a)).isalpha() and concrete(a) < 128)


num_models()


@model("bool::then")
def _(c, f):
    return some(call(f)) if c else none()


@model("bool::then_some")
def _(c, v):
    return some(v) if c else none()


# ---------------------------------------------------------------- Option and Result


def om(name):
    def dec(f):
        MODELS["Option::" + name] = f
        return f
    return dec


def rm(name):
    def dec(f):
        MODELS["Result::" + name] = f
        return f
    return dec


om("is_some")(lambda o: bool(D(o)[0]))
om("is_none")(lambda o: not D(o)[0])
rm("is_ok")(lambda o: not D(o)[0])
rm("is_err")(lambda o: bool(D(o)[0]))
om("is_some_and")(lambda o, f: call(f, o[1]) if o[0] else False)
om("is_none_or")(lambda o, f: call(f, o[1]) if o[0] else True)
rm("is_ok_and")(lambda o, f: False if o[0] else call(f, o[1]))
rm("is_err_and")(lambda o, f: call(f, o[1]) if o[0] else False)


@om("unwrap")
def _(o):
    if not o[0]:
        raise Panic("unwrap of None")
    return o[1]


@om("expect")
def _(o, m):
    if not o[0]:
        raise Panic("expect")
    return o[1]


@rm("unwrap")
def _(o):
    if o[0]:
        raise Panic("unwrap of Err")
    return o[1]


@rm("expect")
def _(o, m):
    if o[0]:
        raise Panic("expect")
    return o[1]


@rm("unwrap_err")
def _(o):
    if not o[0]:
        raise Panic("unwrap_err of Ok")
    return o[1]


MODELS["Result::expect_err"] = lambda o, m: MODELS["Result::unwrap_err"](o)
om("unwrap_or")(lambda o, d: o[1] if o[0] else d)
rm("unwrap_or")(lambda o, d: d if o[0] else o[1])
om("unwrap_or_else")(lambda o, f: o[1] if o[0] else call(f))
rm("unwrap_or_else")(lambda o, f: call(f, o[1]) if o[0] else o[1])


@model("Option::unwrap_or_default", typed=True)
def _(w, t, o):
    return o[1] if o[0] else default(w, t[0])


@model("Result::unwrap_or_default", typed=True)
def _(w, t, o):
    return default(w, t[0]) if o[0] else o[1]


om("map")(lambda o, f: some(call(f, o[1])) if o[0] else none())
rm("map")(lambda o, f: o if o[0] else ok(call(f, o[1])))
rm("map_err")(lambda o, f: err(call(f, o[1])) if o[0] else o)
om("map_or")(lambda o, d, f: call(f, o[1]) if o[0] else d)
rm("map_or")(lambda o, d, f: d if o[0] else call(f, o[1]))
om("map_or_else")(lambda o, d, f: call(f, o[1]) if o[0] else call(d))
rm("map_or_else")(lambda o, d, f: call(d, o[1]) if o[0] else call(f, o[1]))
om("and_then")(lambda o, f: call(f, o[1]) if o[0] else none())
rm("and_then")(lambda o, f: o if o[0] else call(f, o[1]))
om("and")(lambda o, p: p if o[0] else none())
rm("and")(lambda o, p: o if o[0] else p)
om("or")(lambda o, p: o if o[0] else p)
rm("or")(lambda o, p: p if o[0] else o)
om("or_else")(lambda o, f: o if o[0] else call(f))
rm("or_else")(lambda o, f: call(f, o[1]) if o[0] else o)
om("xor")(lambda o, p: none() if bool(o[0]) == bool(p[0]) else o if o[0] else p)
om("ok_or")(lambda o, e: ok(o[1]) if o[0] else err(e))
om("ok_or_else")(lambda o, f: ok(o[1]) if o[0] else err(call(f)))
rm("ok")(lambda o: none() if o[0] else some(o[1]))
rm("err")(lambda o: some(o[1]) if o[0] else none())
om("filter")(lambda o, f: o if o[0] and call(f, o[1]) else none())
om("zip")(lambda o, p: some([o[1], p[1]]) if o[0] and p[0] else none())
om("flatten")(lambda o: o[1] if o[0] else none())
rm("flatten")(lambda o: o if o[0] else o[1])
om("inspect")(lambda o, f: (call(f, o[1]), o)[1] if o[0] else o)
om("transpose")(lambda o: ok(none()) if not o[0] else (ok(some(o[1][1])) if not o[1][0] else err(o[1][1])))
rm("transpose")(lambda o: some(err(o[1])) if o[0] else (some(ok(o[1][1])) if o[1][0] else none()))
for _n in ("as_ref", "as_deref", "iter_x"):
    om(_n)(lambda o: (lambda p: some(D(p[1])) if p[0] else none())(D(o)))
rm("as_ref")(lambda o: (lambda p: En((p[0], D(p[1]))))(D(o)))
rm("as_deref")(lambda o: (lambda p: En((p[0], D(p[1]))))(D(o)))
rm("as_mut")(lambda o: (lambda p: En((p[0], Ref(p, 1))))(o.get()))
for _n in ("as_mut", "as_deref_mut"):
    om(_n)(lambda o: (lambda p: some(p[1] if isinstance(p[1], Ref) and False else Ref(p, 1)) if p[0] else none())(o.get()))
om("iter")(lambda o: as_it(D(o)))
rm("iter")(lambda o: LIt([] if D(o)[0] else D(o)[1:]))
om("into_iter")(lambda o: as_it(o))


@om("take")
def _(o):
    x = o.get()
    o.set(none())
    return x


@om("replace")
def _(o, v):
    x = o.get()
    o.set(some(v))
    return x


@om("insert")
def _(o, v):
    o.set(some(v))
    return Ref(o.get(), 1)


@om("get_or_insert_with")
def _(o, f):
    if not o.get()[0]:
        o.set(some(call(f)))
    return Ref(o.get(), 1)


@om("get_or_insert")
def _(o, v):
    if not o.get()[0]:
        o.set(some(v))
    return Ref(o.get(), 1)


@model("Try::branch", typed=True)
def _(w, t, r):
    n = name_of(w, t[1][0])
    if n == "Option":
        return En((0, r[1])) if r[0] else En((1, none()))
    if n == "Result":
        return En((1, err(r[1]))) if r[0] else En((0, r[1]))
    raise unsupported("? on " + n)


@model("Try::from_output", typed=True)
def _(w, t, x):
    n = name_of(w, t[0])
    return some(x) if n == "Option" else ok(x)


@model("FromResidual::from_residual", typed=True)
def _(w, t, r):
    if name_of(w, t[0]) == "Option":
        return none()
    return err(convert(w, r[1], args_of(w, t[1][0])[1], args_of(w, t[0])[1]))


# ---------------------------------------------------------------- formatting


@model("Argument::new_display", typed=True)
def _(w, t, x):
    return Arg(display(w, x, t[2][0] if t[2] and t[2][0] is not None else t[1][0]))


@model("Argument::new_debug", typed=True)
def _(w, t, x):
    return Arg(debug(w, x, t[1][0]))


@model("Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_binary", "Argument::new_octal", "Argument::new_lower_exp",
       "Argument::from_usize")
def _(x):
    return Arg("<?>")       # a number in a message; no harness looks at messages


@model("Arguments::new", "Arguments::new_v1")
def _(t, a):
    return Arguments(render(D(t), D(a)))


@model("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def _(s):
    s = D(s)
    return Arguments(s if is_strlike(s) else "".join(s))


@model("Arguments::as_str")
def _(a):
    return some(D(a).text)


@model("Arguments::as_statically_known_str")
def _(a):
    return none()


@model("fmt::format")
def _(a):
    return D(a).text


@model("ToString::to_string", typed=True)
def _(w, t, x):
    return display(w, x, t[1][0] if t[1] else t[2][0] if t[2] else None)


MODELS["SpecToString::spec_to_string"] = MODELS["ToString::to_string"]
TYPED.add(MODELS["ToString::to_string"])


@model("Formatter::write_str", "Write::write_str", "Formatter::pad", "String::write_str")
def _(f, s):
    g = f.get()
    while isinstance(g, Ref):
        f, g = g, g.get()
    if isinstance(g, Formatter):
        g.write(S(s))
    else:
        f.set(cat(g, S(s)))
    return ok(UNIT)


@model("Write::write_char", "Formatter::write_char")
def _(f, c):
    return MODELS["Formatter::write_str"](f, c)


@model("Formatter::write_fmt", "Write::write_fmt")
def _(f, a):
    return MODELS["Formatter::write_str"](f, D(a).text)


@model("Formatter::debug_c_like_enum_write_str")
def _(f, names, i):
    D(f).write(S(names)[concrete(i):].split(" ")[0])
    return ok(UNIT)


@model("Formatter::debug_tuple_field1_finish", "Formatter::debug_struct_fields_finish", "Formatter::debug_tuple_field2_finish",
       "Formatter::debug_struct_field1_finish", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish",
       "Formatter::debug_tuple_fields_finish")
def _(f, name, *a):
    D(f).write(name + "(..)")
    return ok(UNIT)


@model("Display::fmt", "Debug::fmt", typed=True)
def _(w, t, x, f):
    D(f).write(display(w, x, t[1][0]))
    return ok(UNIT)


@model("rt::panic_fmt", "rt::begin_panic", "panicking::panic", "panicking::panic_fmt", "panicking::panic_display", "panicking::panic_explicit",
       "panicking::assert_failed", "panicking::unreachable_display", "panicking::panic_nounwind", "rt::panic_display",
       "panicking::panic_str_2015", "panicking::panic_bounds_check", "process::abort", "panicking::panic_const_add_overflow")
def _(*a):
    raise Panic("panic!")


@model("stdio::_print", "stdio::_eprint", "io::_print", "io::_eprint")
def _(*a):
    return UNIT


# ---------------------------------------------------------------- str and String


def sm(*names):
    def dec(f):
        for n in names:
            MODELS["str::" + n] = f
            MODELS["String::" + n] = f
        return f
    return dec


sm("len")(lambda s: blen(S(s)))
sm("is_empty")(lambda s: len(S(s)) == 0)
sm("chars")(lambda s: Chars(S(s)))
sm("as_bytes", "to_vec", "into_bytes", "as_bytes_mut")(lambda s: bytes_of(S(s)))
sm("bytes")(lambda s: LIt(bytes_of(S(s))))
sm("is_ascii")(lambda s: only_ascii(S(s)) is None)
sm("is_char_boundary")(lambda s, i: boundary(S(s), concrete(i)))
sm("to_string", "to_owned", "into_string")(lambda s: S(s))
sm("to_lowercase")(lambda s: lower(S(s)))
sm("to_uppercase")(lambda s: upper(S(s)))
sm("to_ascii_lowercase")(ascii_lower)
sm("to_ascii_uppercase")(ascii_upper)
sm("eq_ignore_ascii_case")(lambda a, b: eq(ascii_lower(S(a)), ascii_lower(S(b))))


def boundary(s, i):
    try:
        at_byte(s, i)
        return True
    except Panic:
        return False


def bytes_of(s):
    if type(s) is str:
        return list(s.encode("utf-8", "surrogatepass"))
    if only_ascii(s) is None:
        return [ordv(c) for c in s]
    return list(concrete(s).encode("utf-8", "surrogatepass"))


@sm("char_indices")
def _(s):
    s = S(s)
    w = only_ascii(s)
    out = []
    t = 0
    for i, c in enumerate(s):
        out.append([t, c])
        t += 1 if w is None else w[i]
    return LIt(out)


@sm("contains")
def _(s, p):
    s = S(s)
    f = char_pattern(p)
    if f is not None:
        q = D(p)
        if isinstance(q, list) and not isinstance(q, Clo):
            fs = [form(f(c)) for c in s]
            return wrap(mk_or(*fs)) if fs else False
        return any(bool(f(c)) for c in s)
    p = S(p)
    if type(s) is str and type(p) is str:
        return p in s
    return wrap(str_contains(p, s))


sm("starts_with")(lambda s, p: prefix(S(s), p)[0])
sm("ends_with")(lambda s, p: suffix(S(s), p)[0])


@sm("strip_prefix")
def _(s, p):
    s = S(s)
    t, n = prefix(s, p)
    return some(s[n:]) if t else none()


@sm("strip_suffix")
def _(s, p):
    s = S(s)
    t, n = suffix(s, p)
    return some(s[:len(s) - n]) if t else none()


@sm("find")
def _(s, p):
    s = S(s)
    m = find_at(s, p, 0)
    return none() if m is None else some(byte_of(s, m[0]))


@sm("rfind")
def _(s, p):
    s = S(s)
    m = rfind_at(s, p, len(s))
    return none() if m is None else some(byte_of(s, m[0]))


@sm("split")
def _(s, p):
    s = S(s)
    xs, last = pieces(s, all_matches(s, p))
    return LIt(xs + [last])


@sm("rsplit")
def _(s, p):
    s = S(s)
    xs, last = pieces(s, all_matches(s, p))
    return LIt((xs + [last])[::-1])


@sm("split_terminator")
def _(s, p):
    s = S(s)
    xs, last = pieces(s, all_matches(s, p))
    return LIt(xs + ([last] if len(last) else []))


@sm("split_inclusive")
def _(s, p):
    s = S(s)
    out = []
    lo = 0
    for a, b in all_matches(s, p):
        out.append(s[lo:b])
        lo = b
    if lo < len(s):
        out.append(s[lo:])
    return LIt(out)


@sm("splitn")
def _(s, n, p):
    s = S(s)
    if n == 0:
        return LIt([])
    xs, last = pieces(s, all_matches(s, p, n - 1))
    return LIt(xs + [last])


@sm("split_once")
def _(s, p):
    s = S(s)
    m = find_at(s, p, 0)
    return none() if m is None else some([s[:m[0]], s[m[1]:]])


@sm("rsplit_once")
def _(s, p):
    s = S(s)
    m = rfind_at(s, p, len(s))
    return none() if m is None else some([s[:m[0]], s[m[1]:]])


@sm("split_at")
def _(s, n):
    s = S(s)
    i = at_byte(s, concrete(n))
    return [s[:i], s[i:]]


@sm("split_at_checked")
def _(s, n):
    s = S(s)
    try:
        i = at_byte(s, concrete(n))
    except Panic:
        return none()
    return some([s[:i], s[i:]])


@sm("split_whitespace", "split_ascii_whitespace")
def _(s):
    s = S(s)
    out = []
    cur = ""
    for c in s:
        if is_white(c):
            if len(cur):
                out.append(cur)
            cur = ""
        else:
            cur = cur + c
    if len(cur):
        out.append(cur)
    return LIt(out)


@sm("lines")
def _(s):
    s = S(s)
    xs, last = pieces(s, all_matches(s, "\n"))
    xs = xs + ([last] if len(last) else [])
    return LIt([x[:len(x) - 1] if len(x) and bool(suffix(x, "\r")[0]) else x for x in xs])


sm("matches")(lambda s, p: (lambda s: LIt([s[a:b] for a, b in all_matches(s, p)]))(S(s)))
sm("match_indices")(lambda s, p: (lambda s: LIt([[byte_of(s, a), s[a:b]] for a, b in all_matches(s, p)]))(S(s)))
sm("trim_matches")(lambda s, p: trim(S(s), p, True, True))
sm("trim_start_matches", "trim_left_matches")(lambda s, p: trim(S(s), p, True, False))
sm("trim_end_matches", "trim_right_matches")(lambda s, p: trim(S(s), p, False, True))
sm("trim")(lambda s: trim(S(s), is_white, True, True))
sm("trim_start", "trim_left")(lambda s: trim(S(s), is_white, True, False))
sm("trim_end", "trim_right")(lambda s: trim(S(s), is_white, False, True))
sm("repeat")(lambda s, n: _times(S(s), concrete(n)))


def _times(s, n):
    out = ""
    for _ in range(n):
        out = out + s
    return out


def replace(s, p, to, limit=None):
    f = char_pattern(p)
    if f is None and len(S(p)) == 1 and type(s) is SymStr and len(to) == 1 and type(to) is str and type(S(p)) is str and limit is None:
        a = S(p)
        return s._map(lambda c: to if c == a else c)
    xs, last = pieces(s, all_matches(s, p, limit))
    out = ""
    for x in xs:
        out = out + x + to
    return out + last


sm("replace")(lambda s, p, to: replace(S(s), p, S(to)))
sm("replacen")(lambda s, p, to, n: replace(S(s), p, S(to), concrete(n)))


@sm("get")
def _(s, r):
    try:
        return some(substr(S(s), D(r)))
    except Panic:
        return none()


MODELS["str::get_unchecked"] = lambda s, r: substr(S(s), D(r))


@model("str::parse", typed=True)
def _(w, t, s):
    """Result<F, F::Err>."""
    return parse(w, args_of(w, t[0])[0], S(s))


@model("FromStr::from_str", typed=True)
def _(w, t, s):
    return parse(w, args_of(w, t[0])[0], S(s))


def parse(w, t, s):
    k = w.kind(t)
    if k[0] in ("int", "uint"):
        s = concrete(s)
        body = s[1:] if s[:1] in (("+", "-") if k[0] == "int" else ("+",)) else s
        if not body or not all(c in "0123456789" for c in body) or outside(int(s), (k[1], k[0] == "int")):
            return err([])
        return ok(int(s))
    if k[0] == "bool":
        s = concrete(s)
        return ok(s == "true") if s in ("true", "false") else err([])
    if k[0] == "char":
        return ok(s) if len(s) == 1 else err([])
    if name_of(w, t) == "String":
        return ok(s)
    f = local_impl(w, t, "FromStr::from_str")
    if f is None:
        raise unsupported("parse")
    return f(s)


@model("String::new", "String::with_capacity")
def _(*a):
    return ""


@model("String::push", "String::push_str")
def _(r, x):
    r.set(cat(S(r.get()), S(x)))
    return UNIT


@model("String::pop")
def _(r):
    s = S(r.get())
    if not len(s):
        return none()
    r.set(s[:len(s) - 1])
    return some(s[len(s) - 1])


@model("String::clear")
def _(r):
    r.set("")
    return UNIT


@model("String::insert", "String::insert_str")
def _(r, i, x):
    s = S(r.get())
    i = at_byte(s, concrete(i))
    r.set(s[:i] + S(x) + s[i:])
    return UNIT


@model("String::remove")
def _(r, i):
    s = S(r.get())
    i = at_byte(s, concrete(i))
    if i >= len(s):
        raise Panic("remove")
    r.set(s[:i] + s[i + 1:])
    return s[i]


@model("String::truncate")
def _(r, n):
    s = S(r.get())
    n = concrete(n)
    if n < blen(s):
        r.set(s[:at_byte(s, n)])
    return UNIT


@model("String::retain")
def _(r, f):
    out = ""
    for c in S(r.get()):
        if call(f, c):
            out = out + c
    r.set(out)
    return UNIT


@model("String::drain")
def _(r, g):
    s = S(r.get())
    a, b = range_of(D(g), blen(s))
    a, b = at_byte(s, a), at_byte(s, b)
    if a > b:
        raise Panic("drain")
    r.set(s[:a] + s[b:])
    return Chars(s[a:b])


@model("String::replace_range")
def _(r, g, x):
    s = S(r.get())
    a, b = range_of(D(g), blen(s))
    a, b = at_byte(s, a), at_byte(s, b)
    r.set(s[:a] + S(x) + s[b:])
    return UNIT


@model("String::split_off")
def _(r, n):
    s = S(r.get())
    i = at_byte(s, concrete(n))
    r.set(s[:i])
    return s[i:]


@model("String::from_utf8", "str::from_utf8", "converts::from_utf8")
def _(b):
    return ok(unbytes(D(b)))


@model("String::from_utf8_lossy")
def _(b):
    return unbytes(D(b))


def unbytes(b):
    out = ""
    if all(type(x) is int for x in b):
        return bytes(b).decode("utf-8")
    for x in b:
        out = out + chrv(x)
    return out


@model("str::chars_rev")
def _(s):
    return RevIt(Chars(S(s)))


@model("Chars::as_str")
def _(c):
    c = D(c)
    return c.xs[c.lo:c.hi]


# ---------------------------------------------------------------- char


def cm(name, pred=None):
    def dec(f):
        for ty in ("char", "methods"):
            MODELS[ty + "::" + name] = f
        return f
    if pred is not None:
        return dec(lambda c: char_test(S(c), pred, name) if is_strlike(D(c)) else pred(chr(concrete(D(c)))))
    return dec


cm("is_alphabetic", str.isalpha)
cm("is_numeric", str.isnumeric)
cm("is_alphanumeric", str.isalnum)
cm("is_whitespace", lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f")
cm("is_lowercase", str.islower)
cm("is_uppercase", str.isupper)
cm("is_ascii", str.isascii)
cm("is_ascii_alphabetic", lambda c: c.isascii() and c.isalpha())
cm("is_ascii_lowercase", lambda c: c.isascii() and c.islower())
cm("is_ascii_uppercase", lambda c: c.isascii() and c.isupper())
cm("is_ascii_digit", lambda c: c.isascii() and c.isdigit())
cm("is_ascii_alphanumeric", lambda c: c.isascii() and c.isalnum())
cm("is_ascii_punctuation", lambda c: c in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
cm("is_ascii_whitespace", lambda c: c in " \t\n\x0c\r")
cm("is_control", lambda c: ord(c) < 32 or 127 <= ord(c) < 160)
cm("to_ascii_lowercase")(ascii_lower)
cm("to_ascii_uppercase")(ascii_upper)
cm("to_lowercase")(lambda c: Chars(lower(S(c))))
cm("to_uppercase")(lambda c: Chars(upper(S(c))))
cm("len_utf8")(lambda c: blen(S(c)))
cm("eq_ignore_ascii_case")(lambda a, b: eq(ascii_lower(S(a)), ascii_lower(S(b))))
cm("is_digit")(lambda c, r: char_test(S(c), lambda x: x.isascii() and x.isalnum() and int(x, 36) < r, ("digit", r)))
cm("from_u32")(lambda n: some(chrv(n)))
cm("to_digit")(lambda c, r: (lambda x: some(int(x, 36)) if x.isascii() and x.isalnum() and int(x, 36) < r else none())(concrete(S(c))))


# ---------------------------------------------------------------- Vec and slices


def vm(*names):
    def dec(f):
        for n in names:
            for ty in ("Vec", "slice", "VecDeque", "array", "vec_deque"):
                MODELS.setdefault(ty + "::" + n, f)
        return f
    return dec


@model("Vec::new", "VecDeque::new", "Vec::with_capacity", "VecDeque::with_capacity")
def _(*a):
    return []


@model("vec::from_elem")
def _(x, n):
    return repeat(x, concrete(n))


vm("len")(lambda v: len(D(v)))
vm("is_empty")(lambda v: len(D(v)) == 0)
vm("iter")(lambda v: LIt(D(v)))
vm("iter_mut")(lambda v: MutIt(D(v)))
vm("first", "front")(lambda v: opt(D(v)[0] if len(D(v)) else None))
vm("last", "back")(lambda v: opt(D(v)[-1] if len(D(v)) else None))
vm("first_mut", "front_mut")(lambda v: some(Ref(D(v), 0)) if len(D(v)) else none())
vm("last_mut", "back_mut")(lambda v: some(Ref(D(v), len(D(v)) - 1)) if len(D(v)) else none())


@vm("split_first")
def _(v):
    v = D(v)
    return some([v[0], v[1:]]) if len(v) else none()


@vm("split_last")
def _(v):
    v = D(v)
    return some([v[-1], v[:-1]]) if len(v) else none()


@vm("get")
def _(v, i):
    v, i = D(v), D(i)
    if isinstance(i, Rng):
        a, b = range_of(i, len(v))
        return some(v[a:b]) if 0 <= a <= b <= len(v) else none()
    i = concrete(i)
    return some(v[i]) if 0 <= i < len(v) else none()


@vm("get_mut")
def _(v, i):
    v, i = D(v), concrete(D(i))
    return some(Ref(v, i)) if 0 <= i < len(v) else none()


@vm("contains")
def _(v, x):
    v, x = D(v), D(x)
    if is_strlike(x):
        ys = [D(y) for y in v]
        return s_in(S(x), ys)
    fs = []
    for y in v:
        f = form(eq(x, y))
        if f is True:
            return True
        if f is not False:
            fs.append(f)
    return wrap(mk_or(*fs)) if fs else False


@vm("push", "push_back")
def _(v, x):
    D(v).append(x)
    return UNIT


@vm("push_front")
def _(v, x):
    D(v).insert(0, x)
    return UNIT


@vm("pop", "pop_back")
def _(v):
    v = D(v)
    return some(v.pop()) if v else none()


@vm("pop_front")
def _(v):
    v = D(v)
    return some(v.pop(0)) if v else none()


@vm("insert")
def _(v, i, x):
    v, i = D(v), concrete(i)
    if i > len(v):
        raise Panic("insert")
    v.insert(i, x)
    return UNIT


@vm("remove")
def _(v, i):
    v, i = D(v), concrete(i)
    if i >= len(v):
        raise Panic("remove")
    return v.pop(i)


@vm("swap_remove")
def _(v, i):
    v, i = D(v), concrete(i)
    if i >= len(v):
        raise Panic("swap_remove")
    x = v[i]
    y = v.pop()
    if i < len(v):
        v[i] = y
    return x


@vm("clear")
def _(v):
    del D(v)[:]
    return UNIT


@vm("truncate")
def _(v, n):
    del D(v)[concrete(n):]
    return UNIT


@vm("extend_from_slice", "extend_from_within_x")
def _(v, x):
    D(v).extend(clone1(y) for y in D(x))
    return UNIT


@vm("append")
def _(v, x):
    D(v).extend(D(x))
    del D(x)[:]
    return UNIT


@vm("retain")
def _(v, f):
    v = D(v)
    v[:] = [x for x in list(v) if call(f, x)]
    return UNIT


@vm("retain_mut")
def _(v, f):
    v = D(v)
    keep = [bool(call(f, Ref(v, i))) for i in range(len(v))]
    v[:] = [x for x, k in zip(v, keep) if k]
    return UNIT


@vm("drain")
def _(v, g):
    v = D(v)
    a, b = range_of(D(g), len(v))
    if not a <= b <= len(v):
        raise Panic("drain")
    out = v[a:b]
    del v[a:b]
    return LIt(out)


@vm("split_off")
def _(v, n):
    v, n = D(v), concrete(n)
    out = v[n:]
    del v[n:]
    return out


@vm("reverse")
def _(v):
    v = D(v)
    v[:] = v[::-1]
    return UNIT


@vm("swap")
def _(v, i, j):
    v, i, j = D(v), concrete(i), concrete(j)
    if i >= len(v) or j >= len(v):
        raise Panic("swap")
    v[i], v[j] = v[j], v[i]
    return UNIT


@vm("sort", "sort_unstable")
def _(v):
    v = D(v)
    v[:] = sorted(v, key=KEY)
    return UNIT


@vm("sort_by", "sort_unstable_by")
def _(v, f):
    v = D(v)
    v[:] = sorted(v, key=functools.cmp_to_key(lambda a, b: call(f, a, b) - 1))
    return UNIT


@vm("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def _(v, f):
    v = D(v)
    v[:] = sorted(v, key=lambda x: KEY(call(f, x)))
    return UNIT


@vm("dedup")
def _(v):
    v = D(v)
    out = []
    for x in v:
        if not out or not eq(out[-1], x):
            out.append(x)
    v[:] = out
    return UNIT


@vm("join", "connect")
def _(v, sep):
    v = [D(x) for x in D(v)]
    sep = D(sep)
    if v and not is_strlike(v[0]):
        out = []
        for i, x in enumerate(v):
            if i:
                out += list(sep) if isinstance(sep, list) else [sep]
            out += list(x)
        return out
    if not v and not is_strlike(sep):
        return []
    out = ""
    for i, x in enumerate(v):
        out = out + (S(sep) if i else "") + S(x)
    return out


@model("slice::concat", "Concat::concat", typed=True)
def _(w, t, v):
    v = [D(x) for x in D(v)]
    if name_of(w, t[0]) == "String":
        out = ""
        for x in v:
            out = out + S(x)
        return out
    return [clone1(y) for x in v for y in x]


@vm("starts_with")
def _(v, x):
    v, x = D(v), D(x)
    return len(x) <= len(v) and eq(v[:len(x)], list(x))


@vm("ends_with")
def _(v, x):
    v, x = D(v), D(x)
    return len(x) <= len(v) and eq(v[len(v) - len(x):], list(x))


@vm("split_at")
def _(v, n):
    v, n = D(v), concrete(n)
    if n > len(v):
        raise Panic("split_at")
    return [v[:n], v[n:]]


vm("windows")(lambda v, n: LIt([D(v)[i:i + n] for i in range(len(D(v)) - n + 1)]))
vm("array_windows")(lambda v: missing("array_windows"))
vm("chunks")(lambda v, n: LIt([D(v)[i:i + n] for i in range(0, len(D(v)), n)]))
vm("chunks_exact")(lambda v, n: LIt([D(v)[i:i + n] for i in range(0, len(D(v)) - n + 1, n)]))


@vm("split")
def _(v, f):
    out = [[]]
    for x in D(v):
        if call(f, x):
            out.append([])
        else:
            out[-1].append(x)
    return LIt(out)


@vm("binary_search")
def _(v, x):
    v = D(v)
    lo, hi = 0, len(v)
    while lo < hi:
        m = (lo + hi) // 2
        c = compare(v[m], x)
        if c == EQUAL:
            return ok(m)
        if c == LESS:
            lo = m + 1
        else:
            hi = m
    return err(lo)


@vm("fill")
def _(v, x):
    v = D(v)
    for i in range(len(v)):
        v[i] = clone1(x)
    return UNIT


@vm("resize")
def _(v, n, x):
    v, n = D(v), concrete(n)
    del v[n:]
    while len(v) < n:
        v.append(clone1(x))
    return UNIT


@vm("repeat")
def _(v, n):
    return [clone1(x) for _ in range(concrete(n)) for x in D(v)]


@vm("map")
def _(v, f):
    return [call(f, x) for x in v]


@vm("rotate_left")
def _(v, n):
    v = D(v)
    v[:] = v[n:] + v[:n]
    return UNIT


@vm("make_contiguous")
def _(v):
    return v


@vm("is_sorted")
def _(v):
    v = D(v)
    return all(compare(a, b) != GREATER for a, b in zip(v, v[1:]))


def index(x, i):
    x, i = D(x), D(i)
    if is_strlike(x) or type(x) is En:
        return substr(S(x), i)
    if isinstance(x, list):
        if isinstance(i, Rng):
            a, b = range_of(i, len(x))
            if not 0 <= a <= b <= len(x):
                raise Panic("slice index out of range")
            return x[a:b]
        i = concrete(i)
        if not 0 <= i < len(x):
            raise Panic("index out of bounds")
        return x[i]
    if isinstance(x, SDict):
        if type(i) is int and not x.has(i):
            ks = list(x)            # IndexMap by position
            if i < len(ks):
                return x[ks[i]]
            raise Panic("index")
        if not x.has(i):
            raise Panic("no such key")
        return x[i]
    if isinstance(x, MATCH):
        r = x.group(i)
        if r is None:
            raise Panic("no such group")
        return r
    raise unsupported("indexing " + type(x).__name__)


MODELS["Index::index"] = index


@model("IndexMut::index_mut")
def _(x, i):
    v, i = D(x), D(i)
    if isinstance(v, list):
        if isinstance(i, Rng):
            a, b = range_of(i, len(v))
            if not 0 <= a <= b <= len(v):
                raise Panic("slice index out of range")
            return SliceRef(v, slice(a, b))
        i = concrete(i)
        if not 0 <= i < len(v):
            raise Panic("index out of bounds")
        return Ref(v, i)
    if isinstance(v, SDict):
        if not v.has(i):
            raise Panic("no such key")
        return Ref(v, i)
    raise unsupported("indexing " + type(v).__name__)


# ---------------------------------------------------------------- maps and sets


def mm(*names):
    def dec(f):
        for n in names:
            for ty in ("HashMap", "IndexMap", "BTreeMap", "Map"):
                MODELS.setdefault(ty + "::" + n, f)
        return f
    return dec


def setm(*names):
    def dec(f):
        for n in names:
            for ty in ("HashSet", "IndexSet", "BTreeSet"):
                MODELS.setdefault(ty + "::" + n, f)
        return f
    return dec


def key(k):
    k = D(k)
    return clone(k) if isinstance(k, list) else k


class Hk(tuple):
    pass


@model("HashMap::new", "IndexMap::new", "HashMap::with_capacity", "IndexMap::with_capacity", "HashMap::with_hasher",
       "HashMap::with_capacity_and_hasher", "IndexMap::with_hasher")
def _(*a):
    return SDict()


@model("BTreeMap::new")
def _():
    return SMapSorted()


@model("HashSet::new", "IndexSet::new", "BTreeSet::new", "HashSet::with_capacity", "IndexSet::with_capacity")
def _(*a):
    return SSet()


def hk(k):
    """Key as the dictionaries take it."""
    k = D(k)
    if isinstance(k, list):
        return tuple(hk(x) for x in k)
    return k


mm("get")(lambda d, k: (lambda d, k: some(d[k]) if d.has(k) else none())(D(d), hk(k)))
mm("get_mut")(lambda d, k: (lambda d, k: some(Ref(d, k)) if d.has(k) else none())(D(d), hk(k)))
mm("contains_key")(lambda d, k: D(d).has(hk(k)))
mm("get_key_value")(lambda d, k: (lambda d, k: some([k, d[k]]) if d.has(k) else none())(D(d), hk(k)))
mm("len")(lambda d: len(D(d)))
mm("is_empty")(lambda d: len(D(d)) == 0)
mm("iter")(lambda d: as_it(D(d)))
mm("into_iter")(lambda d: as_it(d))
mm("iter_mut")(lambda d: as_it(box(D(d))))
mm("keys", "into_keys")(lambda d: LIt([k for k in D(d)]))
mm("values", "into_values")(lambda d: LIt([v for _, v in D(d).items()]))
mm("values_mut")(lambda d: LIt([Ref(D(d), k) for k in D(d)]))
mm("first", "first_key_value")(lambda d: opt(([[k, v] for k, v in D(d).items()] or [None])[0]))
mm("last", "last_key_value")(lambda d: opt(([[k, v] for k, v in D(d).items()] or [None])[-1]))


@mm("insert")
def _(d, k, v):
    d, k = D(d), hk(k)
    old = some(d[k]) if d.has(k) else none()
    d[k] = v
    return old


@mm("remove", "swap_remove", "shift_remove")
def _(d, k):
    d, k = D(d), hk(k)
    return some(d.pop(k)) if d.has(k) else none()


@mm("clear")
def _(d):
    D(d).clear()
    return UNIT


@mm("retain")
def _(d, f):
    d = D(d)
    for k in list(d):
        if not call(f, k, Ref(d, k)):
            del d[k]
    return UNIT


@mm("drain")
def _(d):
    d = D(d)
    out = [[k, v] for k, v in d.items()]
    d.clear()
    return LIt(out)


class Entry:
    def __init__(self, d, k):
        self.d, self.k = d, k


mm("entry")(lambda d, k: Entry(D(d), hk(k)))


@model("Entry::or_insert")
def _(e, v):
    if not e.d.has(e.k):
        e.d[e.k] = v
    return Ref(e.d, e.k)


@model("Entry::or_insert_with")
def _(e, f):
    if not e.d.has(e.k):
        e.d[e.k] = call(f)
    return Ref(e.d, e.k)


@model("Entry::or_default", typed=True)
def _(w, t, e):
    if not e.d.has(e.k):
        e.d[e.k] = default(w, w.kind(t[0])[1])
    return Ref(e.d, e.k)


@model("Entry::and_modify")
def _(e, f):
    if e.d.has(e.k):
        call(f, Ref(e.d, e.k))
    return e


@setm("contains")
def _(s, x):
    return D(s).has(hk(x))


@setm("insert")
def _(s, x):
    s, x = D(s), hk(x)
    if s.has(x):
        return False
    s.add(x)
    return True


@setm("remove", "shift_remove", "swap_remove")
def _(s, x):
    s, x = D(s), hk(x)
    if not s.has(x):
        return False
    s.discard(x)
    return True


setm("len")(lambda s: len(D(s)))
setm("is_empty")(lambda s: len(D(s)) == 0)
setm("iter")(lambda s: LIt(list(D(s))))
setm("union")(lambda a, b: LIt(list(D(a)) + [x for x in D(b) if not D(a).has(x)]))
setm("intersection")(lambda a, b: LIt([x for x in D(a) if D(b).has(x)]))
setm("difference")(lambda a, b: LIt([x for x in D(a) if not D(b).has(x)]))
setm("is_subset")(lambda a, b: all(D(b).has(x) for x in D(a)))
setm("is_superset")(lambda a, b: all(D(a).has(x) for x in D(b)))
setm("is_disjoint")(lambda a, b: not any(D(b).has(x) for x in D(a)))
setm("get")(lambda s, x: some(D(x)) if D(s).has(hk(x)) else none())


# ---------------------------------------------------------------- ranges


@model("RangeInclusive::new")
def _(a, b):
    return Rng("RangeInclusive", [a, b, False])


MODELS["RangeInclusive::start"] = lambda r: D(r)[0]
MODELS["RangeInclusive::end"] = lambda r: D(r)[1]


def rng_contains(r, x):
    r, x = D(r), D(x)
    k = r.kind
    fs = []
    lo = r[0] if k in ("Range", "RangeFrom", "RangeInclusive") else None
    hi = {"Range": lambda: r[1], "RangeInclusive": lambda: r[1], "RangeTo": lambda: r[0], "RangeToInclusive": lambda: r[0]}.get(k, lambda: None)()
    if lo is not None:
        fs.append(form(not_(lt(x, lo))))
    if hi is not None:
        fs.append(form(lt(x, hi) if k in ("Range", "RangeTo") else not_(lt(hi, x))))
    return wrap(mk_and(*fs)) if fs else True


for _n in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeBounds"):
    MODELS[_n + "::contains"] = rng_contains
MODELS["Range::is_empty"] = MODELS["RangeInclusive::is_empty"] = lambda r: not_(lt(D(r)[0], D(r)[1])) if D(r).kind == "Range" else lt(D(r)[1], D(r)[0])


@model("RangeBounds::start_bound")
def _(r):
    r = D(r)
    return En((0, r[0])) if r.kind in ("Range", "RangeFrom", "RangeInclusive") else En((2,))


@model("RangeBounds::end_bound")
def _(r):
    r = D(r)
    if r.kind == "Range":
        return En((1, r[1]))
    if r.kind == "RangeTo":
        return En((1, r[0]))
    if r.kind == "RangeInclusive":
        return En((0, r[1]))
    if r.kind == "RangeToInclusive":
        return En((0, r[0]))
    return En((2,))


# ---------------------------------------------------------------- iterators


def im(*names, typed=False):
    def dec(f):
        for n in names:
            for ty in ("Iterator", "Itertools", "DoubleEndedIterator", "ExactSizeIterator", "Peekable"):
                MODELS.setdefault(ty + "::" + n, f)
        if typed:
            TYPED.add(f)
        return f
    return dec


@model("IntoIterator::into_iter", "iter::into_iter", "Extend::x")
def _(x):
    if isinstance(x, Ref) and type(x.get()) is Rng:
        return x
    if type(x) is Rng:
        return RngIt(x)
    return as_it(x)


@im("next")
def _(x):
    return opt(it_arg(x).next())


@im("next_back")
def _(x):
    return opt(it_arg(x).back())


@im("nth")
def _(x, n):
    it = it_arg(x)
    n = concrete(n)
    if type(it) is Chars:
        return opt(it.nth(n))
    for _ in range(n):
        if it.next() is END:
            return none()
    return opt(it.next())


@im("nth_back")
def _(x, n):
    it = it_arg(x)
    for _ in range(concrete(n)):
        if it.back() is END:
            return none()
    return opt(it.back())


@im("count")
def _(x):
    it = it_arg(x)
    if isinstance(it, LIt):
        return it.hi - it.lo if it.hi > it.lo else 0
    if type(it) is FilterIt and isinstance(it.it, LIt):
        # a sum of truth values where the predicate does not branch
        n = 0
        for y in it.it:
            r = it.f(y)
            if type(r) is bool:
                n = n + int(r)
            else:
                from .values import int_of_formula
                f = form(r)
                n = n + (int_of_formula(f) if type(f) is core.FU else int(bool(r)))
        return n
    return sum(1 for _ in it)


im("len")(lambda x: it_arg(x).size())
im("size_hint")(lambda x: [0, none()])
im("by_ref")(lambda x: x)
im("map")(lambda x, f: MapIt(it_arg(x), fn(f)))
im("filter")(lambda x, f: FilterIt(it_arg(x), fn(f)))
im("filter_map")(lambda x, f: FilterMapIt(it_arg(x), fn(f)))
im("enumerate")(lambda x: EnumIt(it_arg(x)))
im("zip")(lambda x, y: ZipIt(it_arg(x), as_it(y)))
im("chain")(lambda x, y: ChainIt(it_arg(x), as_it(y)))
im("skip")(lambda x, n: SkipIt(it_arg(x), concrete(n)))
im("take")(lambda x, n: TakeIt(it_arg(x), concrete(n)))
im("take_while")(lambda x, f: TakeWhileIt(it_arg(x), fn(f)))
im("skip_while")(lambda x, f: SkipWhileIt(it_arg(x), fn(f)))
im("map_while")(lambda x, f: MapWhileIt(it_arg(x), fn(f)))
im("step_by")(lambda x, n: StepIt(it_arg(x), concrete(n)))
im("rev")(lambda x: RevIt(it_arg(x)))
im("inspect")(lambda x, f: InspectIt(it_arg(x), fn(f)))
im("peekable")(lambda x: PeekIt(it_arg(x)))
im("fuse")(lambda x: it_arg(x))
im("cloned", "copied")(lambda x: MapIt(it_arg(x), clone1))
im("flatten")(lambda x: FlatIt(it_arg(x)))
im("flat_map")(lambda x, f: FlatIt(MapIt(it_arg(x), fn(f))))
im("scan")(lambda x, s, f: ScanIt(it_arg(x), s, fn(f)))
im("cycle")(lambda x: CycleIt(it_arg(x)))
im("sorted", "sorted_unstable")(lambda x: LIt(sorted(it_arg(x), key=KEY)))
im("sorted_by")(lambda x, f: LIt(sorted(it_arg(x), key=functools.cmp_to_key(lambda a, b: call(f, a, b) - 1))))
im("sorted_by_key", "sorted_unstable_by_key")(lambda x, f: LIt(sorted(it_arg(x), key=lambda y: KEY(call(f, y)))))
im("collect_vec")(lambda x: list(it_arg(x)))
im("is_empty")(lambda x: it_arg(x).size() == 0)


def _product(xs, ys):
    return LIt([[a, b] for a in xs for b in ys])


im("cartesian_product")(lambda x, y: _product(list(it_arg(x)), list(as_it(y))))
MODELS["itertools::cons_tuples"] = lambda x: MapIt(as_it(x), lambda t: list(t[0]) + [t[1]])


@im("all_equal")
def _(x):
    xs = list(it_arg(x))
    return all(bool(eq(a, xs[0])) for a in xs)


@im("join")
def _(x, sep):
    return MODELS["slice::join"](list(it_arg(x)), sep)


@im("unique")
def _(x):
    seen = SSet()
    out = []
    for y in it_arg(x):
        if not seen.has(hk(y)):
            seen.add(hk(y))
            out.append(y)
    return LIt(out)


@im("dedup")
def _(x):
    out = []
    for y in it_arg(x):
        if not out or not eq(out[-1], y):
            out.append(y)
    return LIt(out)


@im("tuple_windows")
def _(x):
    raise unsupported("tuple_windows")


@im("intersperse")
def _(x, s):
    out = []
    for i, y in enumerate(it_arg(x)):
        if i:
            out.append(clone1(s))
        out.append(y)
    return LIt(out)


@im("multi_cartesian_product")
def _(x):
    out = [[]]
    for y in it_arg(x):
        out = [a + [b] for a in out for b in list(as_it(y))]
    return LIt(out)


@im("peek")
def _(x):
    b = it_arg(x).peek()
    return opt(b[0])


@im("next_if")
def _(x, f):
    it = it_arg(x)
    b = it.peek()
    if b[0] is not END and call(f, b[0]):
        return some(it.next())
    return none()


@im("next_if_eq")
def _(x, y):
    it = it_arg(x)
    b = it.peek()
    if b[0] is not END and eq(b[0], y):
        return some(it.next())
    return none()


@im("any")
def _(x, f):
    f = fn(f)
    for y in it_arg(x):
        if f(y):
            return True
    return False


@im("all")
def _(x, f):
    f = fn(f)
    for y in it_arg(x):
        if not f(y):
            return False
    return True


@im("contains")
def _(x, y):
    for z in it_arg(x):
        if eq(y, z):
            return True
    return False


@im("find")
def _(x, f):
    for y in it_arg(x):
        if call(f, y):
            return some(y)
    return none()


@im("rfind")
def _(x, f):
    it = it_arg(x)
    while True:
        y = it.back()
        if y is END:
            return none()
        if call(f, y):
            return some(y)


@im("find_map")
def _(x, f):
    for y in it_arg(x):
        r = call(f, y)
        if r[0]:
            return r
    return none()


@im("position", "find_position_x")
def _(x, f):
    for i, y in enumerate(it_arg(x)):
        if call(f, y):
            return some(i)
    return none()


@im("find_position")
def _(x, f):
    for i, y in enumerate(it_arg(x)):
        if call(f, y):
            return some([i, y])
    return none()


@im("rposition")
def _(x, f):
    xs = list(it_arg(x))
    for i in range(len(xs) - 1, -1, -1):
        if call(f, xs[i]):
            return some(i)
    return none()


@im("last")
def _(x):
    r = END
    for y in it_arg(x):
        r = y
    return opt(r)


@im("fold")
def _(x, a, f):
    f = fn(f)
    for y in it_arg(x):
        a = f(a, y)
    return a


@im("rfold")
def _(x, a, f):
    for y in RevIt(it_arg(x)):
        a = call(f, a, y)
    return a


@im("try_fold", typed=True)
def _(w, t, x, a, f):
    n = name_of(w, t[0])
    for y in it_arg(x):
        r = call(f, a, y)
        if (r[0] == 0) == (n == "Option"):
            return r
        a = r[1]
    return some(a) if n == "Option" else ok(a)


@im("try_for_each", typed=True)
def _(w, t, x, f):
    n = name_of(w, t[0])
    for y in it_arg(x):
        r = call(f, y)
        if (r[0] == 0) == (n == "Option"):
            return r
    return some(UNIT) if n == "Option" else ok(UNIT)


@im("reduce")
def _(x, f):
    it = it_arg(x)
    a = it.next()
    if a is END:
        return none()
    for y in it:
        a = call(f, a, y)
    return some(a)


@im("for_each", "foreach")
def _(x, f):
    for y in it_arg(x):
        call(f, y)
    return UNIT


@im("sum", typed=True)
def _(w, t, x):
    k = w.kind(t[0])
    wd = (k[1], k[0] == "int")
    a = 0
    for y in it_arg(x):
        a = a + lift(D(y))
    if outside(a, wd):
        raise Panic("overflow")
    return a


@im("product")
def _(x):
    a = 1
    for y in it_arg(x):
        a = a * concrete(D(y))
    return a


def pick(x, better):
    it = it_arg(x)
    a = it.next()
    if a is END:
        return none()
    for y in it:
        if better(a, y):
            a = y
    return some(a)


im("min")(lambda x: pick(x, lambda a, y: compare(y, a) == LESS))
im("max")(lambda x: pick(x, lambda a, y: compare(y, a) != LESS))
im("min_by")(lambda x, f: pick(x, lambda a, y: call(f, a, y) == GREATER))
im("max_by")(lambda x, f: pick(x, lambda a, y: call(f, a, y) != GREATER))


@im("min_by_key")
def _(x, f):
    r = pick([[call(f, y), y] for y in it_arg(x)], lambda a, y: compare(y[0], a[0]) == LESS)
    return some(r[1][1]) if r[0] else r


@im("max_by_key")
def _(x, f):
    r = pick([[call(f, y), y] for y in it_arg(x)], lambda a, y: compare(y[0], a[0]) != LESS)
    return some(r[1][1]) if r[0] else r


@im("eq")
def _(x, y):
    return eq(list(it_arg(x)), list(as_it(y)))


@im("partition", typed=True)
def _(w, t, x, f):
    a, b = [], []
    for y in it_arg(x):
        (a if call(f, y) else b).append(y)
    e = w.kind(t[0])[1][0]
    return [gather(w, e, a), gather(w, e, b)]


@im("unzip", typed=True)
def _(w, t, x):
    xs = list(it_arg(x))
    ts = w.kind(t[0])[1]
    return [gather(w, ts[0], [a[0] for a in xs]), gather(w, ts[1], [a[1] for a in xs])]


def gather(w, t, it):
    """FromIterator."""
    n = name_of(w, t)
    if n in ("Vec", "VecDeque"):
        return list(it)
    if n == "String":
        out = ""
        for x in it:
            out = out + S(x)
        return out
    if n == "Cow":
        return gather(w, [i for i, k in w.types.items() if k and k["s"] == "std::string::String"][0], it)
    if n in ("HashSet", "BTreeSet", "IndexSet"):
        return mkset([hk(x) for x in it], n)
    if n in ("HashMap", "BTreeMap", "IndexMap"):
        return mkmap([[hk(x[0]), x[1]] for x in it], n)
    if n == "Box":
        return box(list(it))
    if n == "Result":
        bad = []

        def go():
            for x in it:
                if x[0]:
                    bad.append(x[1])
                    return
                yield x[1]
        r = gather(w, args_of(w, t)[0], list(go()))
        return err(bad[0]) if bad else ok(r)
    if n == "Option":
        out = []
        for x in it:
            if not x[0]:
                return none()
            out.append(x[1])
        return some(gather(w, args_of(w, t)[0], out))
    if n == "tuple":
        for _ in it:
            pass
        return UNIT
    raise unsupported("collect into " + w.types[t]["s"])


@im("collect", "try_collect", typed=True)
def _(w, t, x):
    return gather(w, t[0], it_arg(x))


@model("FromIterator::from_iter", typed=True)
def _(w, t, x):
    return gather(w, t[0], as_it(x))


@im("collect_array", "collect_tuple")
def _(x):
    raise unsupported("collect_tuple")


@model("Extend::extend", typed=True)
def _(w, t, c, x):
    v = D(c)
    if is_strlike(v):
        for y in as_it(x):
            v = v + S(y)
        c.set(v)
    elif isinstance(v, list):
        v.extend([clone1(D(y)) if isinstance(y, Ref) else y for y in as_it(x)])
    elif isinstance(v, SDict):
        for y in as_it(x):
            v[hk(y[0])] = y[1]
    elif isinstance(v, SSet):
        for y in as_it(x):
            v.add(hk(y))
    else:
        raise unsupported("extend")
    return UNIT


@model("iter::once", "once::once")
def _(x):
    return LIt([x])


@model("iter::empty", "empty::empty")
def _():
    return LIt([])


@model("iter::repeat", "repeat::repeat")
def _(x):
    return MapIt(Count(0), lambda _: clone1(x))


@model("iter::repeat_n", "repeat_n::repeat_n")
def _(x, n):
    return LIt([clone1(x) for _ in range(concrete(n))])


@model("iter::from_fn", "from_fn::from_fn")
def _(f):
    return FnIt(lambda: (lambda r: r[1] if r[0] else END)(call(f)))


@model("iter::successors", "successors::successors")
def _(first, f):
    cur = [first]

    def step():
        r = cur[0]
        if not r[0]:
            return END
        cur[0] = call(f, r[1])
        return r[1]
    return FnIt(step)


@model("iter::zip", "zip::zip")
def _(a, b):
    return ZipIt(as_it(a), as_it(b))


@model("array::from_fn", typed=True)
def _(w, t, f):
    return [call(f, i) for i in range(w.kind(t[0])[2])]


# ---------------------------------------------------------------- regex


_rx = {}


def rust_regex(p):
    """The engine's pattern for a Rust one."""
    if p not in _rx:
        q = ""
        i = 0
        depth = False
        while i < len(p):
            c = p[i]
            if c == "\\":
                if p[i:i + 2] == "\\z":
                    q += "\\Z"
                elif p[i + 1] in "pP":
                    raise unsupported("Unicode classes in a regex")
                else:
                    q += p[i:i + 2]
                i += 2
                continue
            if c == "[":
                depth = True
            elif c == "]":
                depth = False
            elif c == "$" and not depth:
                q += "\\Z"
                i += 1
                continue
            elif c == "(" and p[i:i + 3] == "(?<" and p[i + 3] not in "=!":
                q += "(?P<"
                i += 3
                continue
            if depth and c in "&~" and p[i:i + 2] == c + c:
                raise unsupported("set operations in a regex")
            q += c
            i += 1
        _rx[p] = rx.shim.compile(q)
    return _rx[p]


@model("Regex::new")
def _(p):
    return ok(rust_regex(S(p)))


MODELS["Regex::is_match"] = lambda r, s: D(r).search(S(s)) is not None
MODELS["Regex::captures"] = lambda r, s: opt(D(r).search(S(s)))
MODELS["Regex::find"] = lambda r, s: opt(D(r).search(S(s)))
MODELS["Regex::find_iter"] = lambda r, s: LIt(list(D(r).finditer(S(s))))
MODELS["Regex::captures_iter"] = lambda r, s: LIt(list(D(r).finditer(S(s))))
MODELS["Regex::split"] = lambda r, s: LIt(rsplit_(D(r), S(s)))


def rsplit_(r, s):
    out = []
    lo = 0
    for m in r.finditer(s):
        out.append(s[lo:m.start()])
        lo = m.end()
    return out + [s[lo:]]


def rreplace(r, s, to, limit):
    r, s = D(r), S(s)
    out = ""
    lo = 0
    n = 0
    f = D(to)
    for m in r.finditer(s):
        if limit and n >= limit:
            break
        n += 1
        out = out + s[lo:m.start()]
        if is_strlike(f):
            t = S(f)
            if type(t) is str and "$" in t:
                for part in re.split(r"(\$\$|\$\{\w+\}|\$\w+)", t):
                    if part == "$$":
                        out = out + "$"
                    elif part.startswith("$"):
                        g = part.strip("${}")
                        try:
                            out = out + (m.group(int(g) if g.isdigit() else g) or "")
                        except (IndexError, KeyError):
                            pass
                    else:
                        out = out + part
            else:
                out = out + t
        else:
            out = out + S(call(f, m))
        lo = m.end()
    return out + s[lo:]


MODELS["Regex::replace_all"] = lambda r, s, to: rreplace(r, s, to, 0)
MODELS["Regex::replace"] = lambda r, s, to: rreplace(r, s, to, 1)
MODELS["Regex::replacen"] = lambda r, s, n, to: rreplace(r, s, to, concrete(n))
MODELS["Captures::len"] = lambda m: D(m).re.groups + 1


@model("Captures::get")
def _(m, i):
    m = D(m)
    if i > m.re.groups or m.start(i) < 0:
        return none()
    return some(Sub(m.string, m.start(i), m.end(i)))


@model("Captures::name")
def _(m, n):
    m = D(m)
    n = S(n)
    if n not in m.re.groupindex or m.start(n) < 0:
        return none()
    return some(Sub(m.string, m.start(n), m.end(n)))


@model("Captures::iter")
def _(m):
    m = D(m)
    return LIt([MODELS["Captures::get"](m, i) for i in range(m.re.groups + 1)])


class Sub:
    """regex::Match of a group."""

    def __init__(self, s, a, b):
        self.s, self.a, self.b = s, a, b


MODELS["Match::as_str"] = lambda m: (lambda m: m.s[m.a:m.b] if type(m) is Sub else m.group(0))(D(m))
MODELS["Match::start"] = lambda m: (lambda m: byte_of(m.s, m.a) if type(m) is Sub else byte_of(m.string, m.start()))(D(m))
MODELS["Match::end"] = lambda m: (lambda m: byte_of(m.s, m.b) if type(m) is Sub else byte_of(m.string, m.end()))(D(m))
MODELS["Match::len"] = lambda m: MODELS["Match::end"](m) - MODELS["Match::start"](m)
MODELS["Match::is_empty"] = lambda m: MODELS["Match::len"](m) == 0
MODELS["Match::range"] = lambda m: Rng("Range", [MODELS["Match::start"](m), MODELS["Match::end"](m)])

# intrinsics
MODELS["intrinsics::discriminant_value"] = lambda x: D(x)[0] if isinstance(D(x), list) else D(x)
MODELS["mem::discriminant"] = lambda x: D(x)[0] if isinstance(D(x), list) else D(x)
MODELS["intrinsics::black_box"] = lambda x: x
MODELS["intrinsics::cold_path"] = lambda: UNIT


def names():
    return sorted(MODELS)


def from_py(x):
    return [from_py(y) for y in x] if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------ the outside world

IO = {}         # args, lines, out: pieces of text up to each reading of a line


@model("env::args")
def _():
    return as_it(list(IO["args"]))


@model("io::stdin", "io::stdout", "io::stderr", "Stdout::lock", "Stdin::lock", "StdoutLock::x", "io::stdio::stdin", "io::stdio::stdout")
def _(*_a):
    return ("io",)


@model("Write::flush", "Stdout::flush")
def _(*_a):
    return En((0, UNIT))


@model("Stdin::read_line", "BufRead::read_line", "StdinLock::read_line")
def _(_s, to):
    if not IO["lines"]:
        IO["ends"] += 1
        if IO["ends"] > 3:
            from .rsworld import Ended
            raise Ended("endless")
        line = ""
    else:
        line = IO["lines"].pop(0)
    IO["out"].append([])
    g = to.get()
    while isinstance(g, Ref):
        to, g = g, g.get()
    to.set(cat(g, line))
    return En((0, blen(line)))


@model("io::_print", "stdio::_print")
def _(a):
    IO["out"][-1].append(D(a).text)
    return UNIT


@model("process::exit")
def _(n):
    from .rsworld import Ended
    raise Ended(D(n))
