"""Meaning of JavaScript's operations for code translated by js2py, on concrete and on symbolic values.

undefined is None, null is NULL, arrays are lists, strings are str or SymStr, numbers are int, float or SymInt,
booleans are bool or SymBool; SymChoice stands for a setting (strings or booleans).
"""
import functools
import math
import re

from . import core, rx
from .rewrite import h_meth
from .values import (SDict, SymBool, SymChoice, SymInt, SymStr, concrete, form, is_strlike, is_sym, mk_str, s_eq, s_in,
                     s_join, s_not, wrap)


class _Null:
    def __bool__(self):
        return False

    def __repr__(self):
        return "null"


NULL = _Null()
NAN = float("nan")
WS = "\t\n\x0b\x0c\r \u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff"


def unsupported(what):
    return core.EngineError("JavaScript: " + str(what))


# ------------------------------------------------------------------ objects


class Obj:
    """A plain object."""
    __slots__ = ("p", "methods")

    def __init__(self, p=None):
        self.p = SDict(p) if p else SDict()


class JSObject:
    """Base of classes written in JavaScript."""

    def __init__(self, *_):
        pass


class JSError(Exception, JSObject):
    _js_name = "Error"

    def __init__(self, message=None, *_):
        Exception.__init__(self)
        self.message = "" if message is None else tostr(message)
        self.name = "Error"
        self.stack = ""


def _error(name):
    def __init__(self, message=None, *_):
        JSError.__init__(self, message)
        self.name = name
    return type("JS" + name, (JSError,), {"__init__": __init__, "_js_name": name})


JSTypeError = _error("TypeError")
JSRangeError = _error("RangeError")
JSSyntaxError = _error("SyntaxError")
JSReferenceError = _error("ReferenceError")


class Thrown(Exception):
    """`throw` of something that is no Error."""

    def __init__(self, value):
        super().__init__()
        self.value = value


CAUGHT = (JSError, Thrown)


def thrown(x):
    return x if isinstance(x, JSError) else Thrown(x)


def caught(e):
    return e.value if isinstance(e, Thrown) else e


def error_name(e):
    e = caught(e)
    return concrete(e.name) if isinstance(e, JSError) else str(e)


class JSMap(JSObject):
    def __init__(self, it=None, *_):
        self.d = SDict()
        if it is not None and it is not NULL:
            for kv in it_(it):
                self.d[get(kv, 0)] = get(kv, 1)

    @classmethod
    def over(cls, d):
        m = cls()
        m.d = d
        return m


class JSSet(JSObject):
    def __init__(self, it=None, *_):
        self.d = SDict()
        if it is not None and it is not NULL:
            for x in it_(it):
                self.d[x] = x


class Arr(list):
    """An array with further properties (a regex match)."""


class Gen(JSObject):
    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self.g

    def next(self, *_):
        for v in self.g:
            return Obj({"value": v, "done": False})
        return Obj({"value": None, "done": True})


def generator(f):
    @functools.wraps(f)
    def run(*a):
        return Gen(f(*a))
    return run


# --------------------------------------------------------------- conversions


def truth(x):
    t = type(x)
    if t is bool or t is SymBool:
        return x
    if t is str:
        return x != ""
    if t is SymStr:
        return len(x.chars) > 0
    if t is SymChoice:
        return wrap(x.truth())
    if t is int:
        return x != 0
    if t is SymInt:
        return x != 0
    if t is float:
        return x != 0 and x == x
    return x is not None and x is not NULL


def not_(x):
    return s_not(truth(x))


def nullish(x):
    return x is None or x is NULL


def isnum(x):
    t = type(x)
    return t is int or t is SymInt or t is float


def isbool(x):
    return type(x) is bool or type(x) is SymBool or (type(x) is SymChoice and type(x.outs[0]) is bool)


def isstr(x):
    return type(x) is str or type(x) is SymStr or (type(x) is SymChoice and type(x.outs[0]) is str)


def num(x=0, *_):
    t = type(x)
    if t is int or t is SymInt or t is float:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x + 0
    if x is None:
        return NAN
    if x is NULL:
        return 0
    if t is SymChoice or t is SymStr:
        return num(concrete(x))
    if t is str:
        s = x.strip(WS)
        if not s:
            return 0
        if re.fullmatch(r"[+-]?\d+", s):
            return int(s)
        if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s):
            return norm(float(s))
        if re.fullmatch(r"[+-]?Infinity", s):
            return -math.inf if s[0] == "-" else math.inf
        if re.fullmatch(r"0[xX][0-9a-fA-F]+", s):
            return int(s, 16)
        return NAN
    if isinstance(x, list):
        return num(tostr(x))
    return NAN


def norm(f):
    if type(f) is float and f == f and abs(f) < 2 ** 53 and f == int(f):
        return int(f)
    return f


def integer(x, default=0):
    """ToIntegerOrInfinity, as a Python int."""
    if x is None:
        return default
    x = num(x)
    if type(x) is SymInt:
        x = int(x)
    if type(x) is float:
        if x != x:
            return 0
        if math.isinf(x):
            return 10 ** 9 if x > 0 else -10 ** 9
        return int(x)
    return x


def tostr(x="", *_):
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is bool:
        return "true" if x else "false"
    if x is None:
        return "undefined"
    if x is NULL:
        return "null"
    if t is int:
        return str(x) if abs(x) < 10 ** 21 else repr(float(x)).replace("e+", "e+")
    if t is SymChoice or t is SymBool or t is SymInt:
        return tostr(concrete(x))
    if t is float:
        if x != x:
            return "NaN"
        if math.isinf(x):
            return "Infinity" if x > 0 else "-Infinity"
        return str(int(x)) if x == int(x) and abs(x) < 1e21 else repr(x)
    if isinstance(x, list):
        return l_join(x)
    if isinstance(x, JSError):
        return tpl(x.name, ": ", x.message) if truth(x.message) else x.name
    if isinstance(x, Regex):
        return "/%s/%s" % (x.source, x.flags)
    if callable(x):
        return "function"
    return "[object Object]"


def tpl(*parts):
    return s_join("", [p if type(p) is str or type(p) is SymStr else tostr(p) for p in parts])


def key(k):
    if type(k) is str:
        return k
    if type(k) is SymChoice:
        k = concrete(k)
    if type(k) is SymInt:
        k = int(k)
    return k if isinstance(k, (str, SymStr)) else tostr(k)


def prim(x):
    if isinstance(x, (list, Obj, JSObject)) and not isnum(x):
        return tostr(x)
    return x


# ----------------------------------------------------------------- operators


def add(a, b):
    ta, tb = type(a), type(b)
    if (ta is int or ta is SymInt) and (tb is int or tb is SymInt):
        return a + b
    if (ta is str or ta is SymStr) and (tb is str or tb is SymStr):
        return a + b
    a, b = prim(a), prim(b)
    if isstr(a) or isstr(b):
        return tostr(a) + tostr(b)
    return norm(num(a) + num(b))


def _arith(f):
    def run(a, b):
        a, b = num(a), num(b)
        try:
            return norm(f(a, b))
        except OverflowError:
            return math.inf
    return run


sub = _arith(lambda a, b: a - b)


def _mul(a, b):
    if type(a) is SymInt and type(b) is SymInt:
        a = int(a)
    return a * b


mul = _arith(_mul)


def div(a, b):
    a, b = concrete(num(a)), concrete(num(b))
    if b == 0:
        return NAN if a == 0 or a != a else math.inf if a > 0 else -math.inf
    return norm(a / b)


def mod(a, b):
    a, b = concrete(num(a)), concrete(num(b))
    if b == 0 or a != a or b != b or abs(a) == math.inf:
        return NAN
    if type(a) is int and type(b) is int:
        r = abs(a) % abs(b)
        return -r if a < 0 else r
    return norm(math.fmod(a, b))


def pow(a, b):
    a, b = concrete(num(a)), concrete(num(b))
    if type(b) is int and b < 0:
        a = float(a)
    return norm(a ** b)


def neg(a):
    a = num(a)
    return -a


def bits(op, a, b):
    def i32(x):
        x = integer(x) & 0xffffffff
        return x - (1 << 32) if x >> 31 else x
    a, b = i32(a), i32(b)
    r = {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << (b & 31),
         ">>": lambda: a >> (b & 31), ">>>": lambda: (a & 0xffffffff) >> (b & 31), "~": lambda: ~a}[op]()
    return r if op == ">>>" else i32(r)


def seq(a, b):
    """a === b"""
    ta, tb = type(a), type(b)
    if (ta is str or ta is SymStr) and (tb is str or tb is SymStr):
        return a == b
    if a is None or b is None or a is NULL or b is NULL:
        return a is b
    if isnum(a) and isnum(b):
        return a == b
    if isbool(a) and isbool(b):
        return a == b
    if isstr(a) and isstr(b):
        return a == b
    if isnum(a) or isnum(b) or isbool(a) or isbool(b) or isstr(a) or isstr(b):
        return False
    return a is b


def leq(a, b):
    """a == b"""
    if nullish(a) or nullish(b):
        return nullish(a) and nullish(b)
    if (isstr(a) and isstr(b)) or (isnum(a) and isnum(b)) or (isbool(a) and isbool(b)):
        return seq(a, b)
    pa, pb = isstr(a) or isnum(a) or isbool(a), isstr(b) or isnum(b) or isbool(b)
    if not pa and not pb:
        return a is b
    a, b = prim(a), prim(b)
    if isstr(a) and isstr(b):
        return seq(a, b)
    return num(a) == num(b)


def _rel(f):
    def run(a, b):
        a, b = prim(a), prim(b)
        if isstr(a) and isstr(b):
            if type(a) is SymChoice:
                a = concrete(a)
            if type(b) is SymChoice:
                b = concrete(b)
            return f(a, b)
        return f(num(a), num(b))
    return run


lt = _rel(lambda a, b: a < b)
le = _rel(lambda a, b: a <= b)
gt = _rel(lambda a, b: a > b)
ge = _rel(lambda a, b: a >= b)


def first(a, *_):
    return a


def last(*a):
    return a[-1]


def void(_):
    return None


def typeof(x):
    if x is None:
        return "undefined"
    if isstr(x):
        return "string"
    if isnum(x):
        return "number"
    if isbool(x):
        return "boolean"
    if callable(x):
        return "function"
    return "object"


def typeof_glob(n):
    try:
        return typeof(glob(n))
    except JSReferenceError:
        return "undefined"


def instanceof(o, c):
    if c is list or c is dict or c in (G_Array, G_Object):
        return isinstance(o, list) if c is G_Array else not (nullish(o) or isstr(o) or isnum(o) or isbool(o))
    if c is G_Function:
        return callable(o)
    if isinstance(c, type):
        return isinstance(o, c)
    if isinstance(c, Static):
        return False
    raise JSTypeError("Right-hand side of 'instanceof' is not callable")


def has(k, o):
    if isinstance(o, list):
        k = concrete(k)
        try:
            return 0 <= int(k) < len(o)
        except (TypeError, ValueError):
            return k == "length"
    if isinstance(o, Obj):
        return o.p.has(key(k))
    if isinstance(o, (JSObject, JSError)):
        return hasattr(o, concrete(key(k)))
    raise JSTypeError("Cannot use 'in' operator")


def delete(o, k):
    if isinstance(o, Obj):
        k = key(k)
        if o.p.has(k):
            del o.p[k]
        return True
    raise unsupported("delete")


# ----------------------------------------------------------------- properties


def undef(o, k):
    return JSTypeError(tpl("Cannot read properties of ", tostr(o), " (reading '", tostr(k), "')"))


def get(o, k):
    t = type(o)
    if t is list or t is str or t is SymStr or t is Arr:
        if type(k) is int:
            return o[k] if 0 <= k < len(o) else None
        if k == "length":
            return len(o)
        if type(k) is SymInt:
            k = int(k)
            return o[k] if 0 <= k < len(o) else None
        if type(k) is float:
            return None
        k = concrete(k)
        if isinstance(k, str) and k.isdigit():
            return get(o, int(k))
        if t is Arr and k in o.__dict__:
            return o.__dict__[k]
        return method(o, key(k))
    if t is Obj:
        k = key(k)
        if o.p.has(k):
            return o.p[k]
        return method(o, k, True)
    if o is None or o is NULL:
        raise undef(o, k)
    if t is SymChoice:
        return get(concrete(o), k)
    k = concrete(key(k))
    if t is JSMap or t is JSSet:
        if k == "size":
            return len(o.d)
        return method(o, k)
    if isinstance(o, Regex):
        if k in ("source", "flags", "lastIndex"):
            return getattr(o, k)
        if k == "global":
            return "g" in o.flags
        return method(o, k)
    if isinstance(o, Static):
        return o.get(k)
    if isinstance(o, type):
        if k == "name":
            return getattr(o, "_js_name", "")
        return getattr(o, k, None)
    if isinstance(o, (JSObject, JSError)):
        if k[0] == "#":
            d = o.__dict__
            return d[k] if k in d else getattr(o, "priv_" + k[1:], None)
        if k == "constructor":
            return type(o)
        v = getattr(o, k, None)
        if v is None and (isinstance(o, (JSMap, JSSet))):
            return len(o.d) if k == "size" else method(o, k)
        return v
    if callable(o):
        if k == "call":
            return lambda this=None, *a: o(*a)
        if k == "apply":
            return lambda this=None, a=(), *_: o(*it_(a))
        if k == "bind":
            return lambda this=None, *b: (lambda *a: o(*(b + a)))
        if k == "name":
            return getattr(o, "__name__", "")
        return getattr(o, "_js_" + k, None)
    if isnum(o) or isbool(o):
        return method(o, k)
    raise unsupported("property %r of %s" % (k, t.__name__))


def put(o, k, v):
    if isinstance(o, list):
        if isnum(k):
            k = integer(k)
            if k < 0:
                raise unsupported("negative index")
            while len(o) <= k:
                o.append(None)
            o[k] = v
            return v
        if k == "length":
            v = integer(v)
            del o[v:]
            while len(o) < v:
                o.append(None)
            return v
        if type(o) is Arr:
            setattr(o, k, v)
            return v
        return put(o, num(k), v)
    if isinstance(o, Obj):
        o.p[key(k)] = v
        return v
    if nullish(o):
        raise JSTypeError("Cannot set properties of " + tostr(o))
    if isinstance(o, Regex) and k == "lastIndex":
        o.lastIndex = integer(v)
        return v
    if isinstance(o, (JSObject, JSError)) or isinstance(o, type):
        if type(o) not in (JSMap, JSSet):
            setattr(o, concrete(key(k)), v)
            return v
    if callable(o) and not isinstance(o, Static):
        setattr(o, "_js_" + concrete(key(k)), v)
        return v
    if isstr(o) or isnum(o) or isbool(o):
        return v
    raise unsupported("assignment to a property of %s" % type(o).__name__)


def putl(v, o, k):
    return put(o, k, v)


def props(o):
    """The own properties of a value spread into an object."""
    if nullish(o):
        return {}
    if isinstance(o, Obj):
        d = {}
        for k in o.p.keys():
            d[concrete(k)] = o.p[k]
        return d
    if isinstance(o, list):
        return {str(i): x for i, x in enumerate(o)}
    raise unsupported("spread of %s" % type(o).__name__)


def rest(o, seen):
    d = props(o)
    for k in seen:
        d.pop(concrete(k), None)
    return Obj(d)


def obj(o):
    if nullish(o):
        raise JSTypeError("Cannot destructure '%s'" % tostr(o))
    return o


def method(o, k, soft=False):
    tab = table(o)
    f = tab.get(k) if isinstance(k, str) else None
    if f is None:
        return None
    return lambda *a: f(o, *a)


def table(o):
    if isinstance(o, list):
        return LIST
    if isstr(o):
        return STR
    if isinstance(o, JSMap):
        return MAP
    if isinstance(o, JSSet):
        return SET
    if isinstance(o, Regex):
        return REGEX
    if isnum(o) or isbool(o):
        return NUM
    if isinstance(o, Obj):
        return OBJ
    return {}


def call(o, k, *a):
    t = type(o)
    if t is list or t is Arr:
        f = LIST.get(k) if type(k) is str else None
    elif t is str or t is SymStr:
        f = STR.get(k) if type(k) is str else None
    elif t is JSMap:
        f = MAP.get(k) if type(k) is str else None
    elif t is SymChoice:
        return call(concrete(o), k, *a)
    else:
        f = None
    if f is not None:
        return f(o, *a)
    f = get(o, k)
    if f is None or f is NULL or not callable(f):
        raise JSTypeError(tpl(tostr(k), " is not a function"))
    return f(*a)


def callv(f, *a):
    if f is None or f is NULL or not callable(f):
        raise JSTypeError(tpl(tostr(f), " is not a function"))
    return f(*a)


def new(c, *a):
    if isinstance(c, Static):
        return c.new(*a)
    if isinstance(c, type):
        return c(*a)
    raise JSTypeError("not a constructor")


# ------------------------------------------------------------------ iteration


def it_(x):
    """The values an iteration over x gives."""
    t = type(x)
    if t is list or t is Arr or t is str or t is SymStr:
        return list(x)
    if t is SymChoice:
        return it_(concrete(x))
    if isinstance(x, JSMap):
        return [[k, x.d[k]] for k in list(x.d.keys())]
    if isinstance(x, JSSet):
        return list(x.d.keys())
    if isinstance(x, Gen):
        return list(x)
    if isinstance(x, Obj) and x.p.has("next"):
        out = []
        while True:
            r = x.p["next"]()
            if truth(get(r, "done")):
                return out
            out.append(get(r, "value"))
    raise JSTypeError(tpl(tostr(x), " is not iterable"))


it = it_


def live(x):
    t = type(x)
    if t is list or t is Arr:
        return iter(x)
    if isinstance(x, Gen):
        return x
    return it_(x)


def keys(x):
    if nullish(x):
        return []
    if isinstance(x, Obj):
        return list(x.p.keys())
    if isinstance(x, list) or isstr(x):
        return [str(i) for i in range(len(x))]
    return []


def arr(x):
    return x if type(x) is list else list(it_(x))


# ---------------------------------------------------------------------- lists


def tr(f):
    return bool(truth(f))


def same(a, b):
    """SameValueZero."""
    if type(a) is float and type(b) is float and a != a and b != b:
        return True
    return seq(a, b)


def _idx(i, n, default):
    """A relative index argument."""
    i = integer(i, default)
    return max(0, n + i) if i < 0 else min(i, n)


def l_includes(o, x=None, frm=None, *_):
    xs = o if frm is None else o[_idx(frm, len(o), 0):]
    if type(x) is SymStr or type(x) is str:
        for y in xs:
            if type(y) is not str and type(y) is not SymStr:
                break
        else:
            return s_in(x, xs)
    fs = []
    for y in xs:
        f = form(same(x, y))
        if f is True:
            return True
        if f is not False:
            fs.append(f)
    return wrap(core.mk_or(*fs)) if fs else False


def l_index(o, x=None, frm=None, *_):
    for i in range(_idx(frm, len(o), 0), len(o)):
        if seq(o[i], x):
            return i
    return -1


def l_lastindex(o, x=None, frm=None, *_):
    n = len(o)
    j = n - 1 if frm is None else integer(frm)
    if j < 0 and frm is not None:
        j += n
    for i in range(min(j, n - 1), -1, -1):
        if seq(o[i], x):
            return i
    return -1


def l_join(o, sep=",", *_):
    return s_join(tostr(sep if sep is not None else ","), ["" if nullish(x) else tostr(x) for x in o]) \
        if type(sep) is str or sep is None else s_join(sep, ["" if nullish(x) else tostr(x) for x in o])


def l_slice(o, a=None, b=None, *_):
    n = len(o)
    return list(o[_idx(a, n, 0):max(_idx(a, n, 0), _idx(b, n, n))])


def l_splice(o, a=None, c=None, *xs):
    n = len(o)
    i = _idx(a, n, 0)
    c = n - i if c is None else max(0, min(integer(c), n - i))
    out = o[i:i + c]
    o[i:i + c] = xs
    return out


def l_concat(o, *xs):
    out = list(o)
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        else:
            out.append(x)
    return out


def l_push(o, *xs):
    o.extend(xs)
    return len(o)


def l_unshift(o, *xs):
    o[0:0] = xs
    return len(o)


def l_foreach(o, f, *_):
    n = len(o)
    i = 0
    while i < n and i < len(o):
        callv(f, o[i], i, o)
        i += 1
    return None


def l_map(o, f, *_):
    return [callv(f, x, i, o) for i, x in enumerate(list(o))]


def l_filter(o, f, *_):
    return [x for i, x in enumerate(list(o)) if tr(callv(f, x, i, o))]


def l_some(o, f, *_):
    for i, x in enumerate(list(o)):
        if tr(callv(f, x, i, o)):
            return True
    return False


def l_every(o, f, *_):
    for i, x in enumerate(list(o)):
        if not tr(callv(f, x, i, o)):
            return False
    return True


def _find(o, f, back):
    r = range(len(o) - 1, -1, -1) if back else range(len(o))
    for i in r:
        if tr(callv(f, o[i], i, o)):
            return i
    return -1


def l_reduce(o, f, *a):
    xs = list(o)
    i = 0
    if a:
        acc = a[0]
    else:
        if not xs:
            raise JSTypeError("Reduce of empty array with no initial value")
        acc, i = xs[0], 1
    for j in range(i, len(xs)):
        acc = callv(f, acc, xs[j], j, o)
    return acc


def l_reduceright(o, f, *a):
    n = len(o)
    return l_reduce(list(o)[::-1], lambda acc, x, j, _: callv(f, acc, x, n - 1 - j, o), *a)


def _cmp(f):
    if f is None:
        def less(a, b):
            a, b = tostr(a), tostr(b)
            return -1 if tr(a < b) else 1 if tr(b < a) else 0
        return less

    def run(a, b):
        r = num(callv(f, a, b))
        return -1 if tr(r < 0) else 1 if tr(r > 0) else 0
    return run


def l_sort(o, f=None, *_):
    o[:] = sorted([x for x in o if x is not None], key=functools.cmp_to_key(_cmp(f))) + [x for x in o if x is None]
    return o


def l_flat(o, d=1, *_):
    out = []
    for x in o:
        if isinstance(x, list) and integer(d) > 0:
            out.extend(l_flat(x, integer(d) - 1))
        else:
            out.append(x)
    return out


def l_fill(o, v=None, a=None, b=None, *_):
    n = len(o)
    for i in range(_idx(a, n, 0), _idx(b, n, n)):
        o[i] = v
    return o


def l_reverse(o, *_):
    o.reverse()
    return o


def l_at(o, i=None, *_):
    i = integer(i)
    n = len(o)
    i = i + n if i < 0 else i
    return o[i] if 0 <= i < n else None


def l_with(o, i, v, *_):
    o = list(o)
    o[integer(i)] = v
    return o


def l_copywithin(*_):
    raise unsupported("copyWithin")


LIST = {
    "includes": l_includes, "indexOf": l_index, "lastIndexOf": l_lastindex, "join": l_join, "toString": l_join,
    "slice": l_slice, "splice": l_splice, "concat": l_concat, "push": l_push, "unshift": l_unshift,
    "pop": lambda o, *_: o.pop() if o else None, "shift": lambda o, *_: o.pop(0) if o else None,
    "forEach": l_foreach, "map": l_map, "filter": l_filter, "some": l_some, "every": l_every,
    "find": lambda o, f, *_: get(o, _find(o, f, False)), "findIndex": lambda o, f, *_: _find(o, f, False),
    "findLast": lambda o, f, *_: get(o, _find(o, f, True)), "findLastIndex": lambda o, f, *_: _find(o, f, True),
    "reduce": l_reduce, "reduceRight": l_reduceright, "sort": l_sort, "reverse": l_reverse, "flat": l_flat,
    "flatMap": lambda o, f, *_: l_flat(l_map(o, f)), "fill": l_fill, "at": l_at, "with": l_with,
    "entries": lambda o, *_: [[i, x] for i, x in enumerate(o)], "keys": lambda o, *_: list(range(len(o))),
    "values": lambda o, *_: list(o), "toReversed": lambda o, *_: list(o)[::-1],
    "toSorted": lambda o, f=None, *_: l_sort(list(o), f),
    "toSpliced": lambda o, *a: (lambda c: (l_splice(c, *a), c)[1])(list(o)), "copyWithin": l_copywithin,
}

# -------------------------------------------------------------------- strings


def s_includes(o, x=None, frm=None, *_):
    if isinstance(x, Regex):
        raise JSTypeError("First argument must not be a regular expression")
    x = tostr(x)
    if frm is not None:
        o = o[max(0, min(integer(frm), len(o))):]
    return s_in(x, o)


def s_starts(o, x=None, frm=None, *_):
    i = max(0, min(integer(frm), len(o)))
    return h_meth(o[i:], "startswith", tostr(x))


def s_ends(o, x=None, end=None, *_):
    e = len(o) if end is None else max(0, min(integer(end), len(o)))
    return h_meth(o[:e], "endswith", tostr(x))


def s_slice(o, a=None, b=None, *_):
    n = len(o)
    i, j = _idx(a, n, 0), _idx(b, n, n)
    return o[i:j] if i < j else ""


def s_substring(o, a=None, b=None, *_):
    n = len(o)
    i, j = max(0, min(integer(a), n)), max(0, min(integer(b, n), n))
    return o[min(i, j):max(i, j)]


def s_substr(o, a=None, c=None, *_):
    n = len(o)
    i = _idx(a, n, 0)
    return o[i:i + max(0, integer(c, n))]


def s_charat(o, i=None, *_):
    i = integer(i)
    return o[i] if 0 <= i < len(o) else ""


def s_code(o, i=None, *_):
    i = integer(i)
    if not 0 <= i < len(o):
        return NAN
    return ord(concrete(o[i]))


def s_codepoint(o, i=None, *_):
    c = s_code(o, i)
    return None if c != c else c


def s_index(o, x=None, frm=None, *_):
    return h_meth(o, "find", tostr(x), max(0, min(integer(frm), len(o))))


def s_lastindex(o, x=None, frm=None, *_):
    x = tostr(x)
    if frm is None or num(frm) != num(frm):
        return h_meth(o, "rfind", x)
    return h_meth(o, "rfind", x, 0, max(0, min(integer(frm), len(o))) + len(x))


def s_split(o, sep=None, limit=None, *_):
    if sep is None:
        r = [o]
    elif isinstance(sep, Regex):
        r = sep.split(o)
    else:
        sep = tostr(sep)
        r = list(o) if len(sep) == 0 else h_meth(o, "split", sep)
    return r if limit is None else r[:integer(limit)]


def expand(repl, whole, groups, pos, s):
    """The $ sequences of a replacement string."""
    if type(repl) is SymStr:
        if not tr(s_not(s_in("$", repl))):
            repl = concrete(repl)
        else:
            return repl
    if "$" not in repl:
        return repl
    out = []
    i = 0
    while i < len(repl):
        c = repl[i]
        n = repl[i + 1:i + 2]
        if c == "$" and n == "$":
            out.append("$")
            i += 2
        elif c == "$" and n == "&":
            out.append(whole)
            i += 2
        elif c == "$" and n == "`":
            out.append(s[:pos])
            i += 2
        elif c == "$" and n == "'":
            out.append(s[pos + len(whole):])
            i += 2
        elif c == "$" and n.isdigit():
            d = repl[i + 1:i + 3]
            if d.isdigit() and len(d) == 2 and 1 <= int(d) <= len(groups):
                out.append("" if groups[int(d) - 1] is None else groups[int(d) - 1])
                i += 3
            elif 1 <= int(n) <= len(groups):
                out.append("" if groups[int(n) - 1] is None else groups[int(n) - 1])
                i += 2
            else:
                out.append(c)
                i += 1
        else:
            out.append(c)
            i += 1
    return s_join("", out)


def s_replace(o, pat=None, repl=None, *_, everything=False):
    def text(whole, groups, pos, names=None):
        if callable(repl):
            return tostr(repl(whole, *groups, pos, o))
        return expand(tostr(repl), whole, groups, pos, o)
    if isinstance(pat, Regex):
        if everything and "g" not in pat.flags:
            raise JSTypeError("replaceAll must be called with a global RegExp")
        out, at = [], 0
        for m in pat.all(o) if "g" in pat.flags else pat.first(o):
            a, b = m.span()
            out.append(o[at:a])
            out.append(text(o[a:b], list(m.groups()), a))
            at = b
        out.append(o[at:])
        return s_join("", out)
    pat = tostr(pat)
    out, at = [], 0
    while True:
        i = h_meth(o, "find", pat, at)
        if tr(i < 0):
            break
        i = int(i)
        out.append(o[at:i])
        out.append(text(pat, [], i))
        at = i + len(pat)
        if not everything:
            break
        if len(pat) == 0:
            raise unsupported("replaceAll of an empty string")
    out.append(o[at:])
    return s_join("", out)


def match_obj(m, s):
    r = Arr([m.group(0)] + list(m.groups()))
    r.index = m.start()
    r.input = s
    g = m.groupdict()
    r.groups = Obj(g) if g else None
    return r


def s_match(o, pat=None, *_):
    if not isinstance(pat, Regex):
        pat = Regex("" if pat is None else tostr(pat), "")
    if "g" in pat.flags:
        r = [m.group(0) for m in pat.all(o)]
        return r if r else NULL
    for m in pat.first(o):
        return match_obj(m, o)
    return NULL


def s_matchall(o, pat, *_):
    return [match_obj(m, o) for m in pat.all(o)]


def s_search(o, pat, *_):
    for m in pat.first(o):
        return m.start()
    return -1


def s_pad(left):
    def run(o, n=None, fill=" ", *_):
        k = integer(n) - len(o)
        if k <= 0 or not len(fill):
            return o
        f = (fill * k)[:k]
        return f + o if left else o + f
    return run


def s_concat(o, *xs):
    return tpl(o, *xs)


def s_repeat(o, n=None, *_):
    n = integer(n)
    if n < 0:
        raise JSRangeError("Invalid count value")
    return o * n


def s_locale(o, x=None, *_):
    raise unsupported("localeCompare")


STR = {
    "includes": s_includes, "startsWith": s_starts, "endsWith": s_ends, "slice": s_slice, "substring": s_substring,
    "substr": s_substr, "charAt": s_charat, "at": l_at, "charCodeAt": s_code, "codePointAt": s_codepoint,
    "indexOf": s_index, "lastIndexOf": s_lastindex, "split": s_split, "replace": s_replace,
    "replaceAll": lambda o, p=None, r=None, *_: s_replace(o, p, r, everything=True),
    "match": s_match, "matchAll": s_matchall, "search": s_search,
    "trim": lambda o, *_: h_meth(o, "strip", WS), "trimStart": lambda o, *_: h_meth(o, "lstrip", WS),
    "trimEnd": lambda o, *_: h_meth(o, "rstrip", WS),
    "toLowerCase": lambda o, *_: h_meth(o, "lower"), "toUpperCase": lambda o, *_: h_meth(o, "upper"),
    "concat": s_concat, "repeat": s_repeat, "padStart": s_pad(True), "padEnd": s_pad(False),
    "localeCompare": s_locale, "toString": lambda o, *_: o, "valueOf": lambda o, *_: o,
    "normalize": lambda o, *_: o,
}


def n_tostring(o, base=10, *_):
    if integer(base, 10) != 10:
        raise unsupported("radix")
    return tostr(o)


def n_tofixed(o, d=0, *_):
    return "%.*f" % (integer(d), concrete(o))


NUM = {"toString": n_tostring, "toFixed": n_tofixed, "valueOf": lambda o, *_: o}

OBJ = {"hasOwnProperty": lambda o, k, *_: o.p.has(key(k)), "toString": lambda o, *_: "[object Object]"}

# ----------------------------------------------------------------- Map and Set


def m_get(o, k=None, *_):
    return o.d.get(k)


def m_set(o, k=None, v=None, *_):
    o.d[k] = v
    return o


def m_delete(o, k=None, *_):
    if tr(o.d.has(k)):
        del o.d[k]
        return True
    return False


def m_foreach(o, f, *_):
    for k in list(o.d.keys()):
        callv(f, o.d[k], k, o)


def m_clear(o, *_):
    o.d.clear()


MAP = {"get": m_get, "set": m_set, "has": lambda o, k=None, *_: o.d.has(k), "delete": m_delete, "forEach": m_foreach,
       "entries": lambda o, *_: it_(o), "keys": lambda o, *_: list(o.d.keys()),
       "values": lambda o, *_: [o.d[k] for k in list(o.d.keys())], "clear": m_clear}


def set_add(o, x=None, *_):
    if not tr(o.d.has(x)):
        o.d[x] = x
    return o


SET = {"has": lambda o, k=None, *_: o.d.has(k), "add": set_add, "delete": m_delete, "clear": m_clear,
       "forEach": lambda o, f, *_: [callv(f, x, x, o) for x in it_(o)] and None,
       "values": lambda o, *_: it_(o), "keys": lambda o, *_: it_(o), "entries": lambda o, *_: [[x, x] for x in it_(o)]}

# ----------------------------------------------------------------------- regex

_WSCLASS = r"\t\n\x0b\x0c\r \u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000\ufeff"


@functools.lru_cache(4096)
def py_regex(p, multiline=False, dotall=False):
    """The Python spelling of a JavaScript pattern."""
    out = []
    i = 0
    cls = False
    while i < len(p):
        c = p[i]
        if c == "\\":
            d = p[i + 1]
            i += 2
            if d == "d":
                out.append("0-9" if cls else "[0-9]")
            elif d == "w":
                out.append("A-Za-z0-9_" if cls else "[A-Za-z0-9_]")
            elif d == "s":
                out.append(_WSCLASS if cls else "[" + _WSCLASS + "]")
            elif d in "DWS" and not cls:
                out.append({"D": "[^0-9]", "W": "[^A-Za-z0-9_]", "S": "[^" + _WSCLASS + "]"}[d])
            elif d in "DWS":
                raise unsupported("negated class inside a class")
            elif d == "/":
                out.append("/")
            elif d == "k" and p[i:i + 1] == "<":
                j = p.index(">", i)
                out.append("(?P=" + p[i + 1:j] + ")")
                i = j + 1
            elif d == "u" and p[i:i + 1] == "{":
                j = p.index("}", i)
                out.append("\\U%08x" % int(p[i + 1:j], 16))
                i = j + 1
            elif d.isalnum():
                out.append("\\" + d)
            else:
                out.append(re.escape(d))
            continue
        if cls:
            if c == "]":
                cls = False
            elif c == "[":
                c = "\\["
            elif c in "&|~" and p[i + 1:i + 2] == c:
                c = "\\" + c
            out.append(c)
        elif c == "[":
            cls = True
            if p[i + 1:i + 3] == "^]":
                out.append(r"[\s\S]")
                i += 3
                cls = False
                continue
            if p[i + 1:i + 2] == "]":
                out.append(r"(?!)")
                i += 2
                cls = False
                continue
            out.append(c)
            if p[i + 1:i + 2] == "^":
                out.append("^")
                i += 1
        elif c == "$":
            out.append("$" if multiline else r"\Z")
        elif c == ".":
            out.append(r"[\s\S]" if dotall else r"[^\n\r\u2028\u2029]")
        elif c == "(" and p[i:i + 3] == "(?<" and p[i + 3] not in "=!":
            out.append("(?P<")
            i += 2
        else:
            out.append(c)
        i += 1
    return "".join(out)


def _compiled(source, flags):
    k = source, flags
    r = _patterns.get(k)
    if r is None:
        fl = (re.I if "i" in flags else 0) | (re.M if "m" in flags else 0)
        r = _patterns[k] = rx.shim.compile(py_regex(source, "m" in flags, "s" in flags), fl)
    return r


_patterns = {}


class Regex:
    def __init__(self, source, flags=None, *_):
        if isinstance(source, Regex):
            source, flags = source.source, source.flags if flags is None else flags
        self.source = concrete(tostr(source))
        self.flags = concrete(tostr(flags or ""))
        self.lastIndex = 0
        self.pat = _compiled(self.source, self.flags)

    def all(self, s):
        return list(self.pat.finditer(s))

    def first(self, s):
        m = self.pat.search(s)
        return [m] if m is not None else []

    def split(self, s):
        if len(s) == 0:
            return [] if self.pat.match(s) is not None else [s]
        r = []
        at = 0
        for m in self.pat.finditer(s):
            a, b = m.span()
            if b == a and (a == 0 or a == len(s) or a == at):
                continue
            r.append(s[at:a])
            r.extend(m.groups())
            at = b
        r.append(s[at:])
        return r


def r_exec(o, s=None, *_):
    s = tostr(s)
    if "g" not in o.flags and "y" not in o.flags:
        for m in o.first(s):
            return match_obj(m, s)
        return NULL
    if o.lastIndex > len(s):
        o.lastIndex = 0
        return NULL
    for m in o.all(s):
        a, b = m.span()
        if a >= o.lastIndex:
            if "y" in o.flags and a != o.lastIndex:
                break
            o.lastIndex = b
            return match_obj(m, s)
    o.lastIndex = 0
    return NULL


def r_test(o, s=None, *_):
    return r_exec(o, s) is not NULL


REGEX = {"test": r_test, "exec": r_exec, "toString": lambda o, *_: tostr(o)}

# --------------------------------------------------------------------- globals


class Static:
    """A global object or constructor."""

    def __init__(self, props, make=None, call=None):
        self.props = props
        self.make = make
        self.fn = call

    def get(self, k):
        return self.props.get(k)

    def new(self, *a):
        if self.make is None:
            raise JSTypeError("not a constructor")
        return self.make(*a)

    def __call__(self, *a):
        if self.fn is None:
            raise JSTypeError("not a function")
        return self.fn(*a)


def make_array(*a):
    if len(a) == 1 and isnum(a[0]):
        return [None] * integer(a[0])
    return list(a)


def array_from(x, f=None, *_):
    if isinstance(x, Obj) and not x.p.has("next"):
        xs = [get(x, i) for i in range(integer(get(x, "length")))]
    else:
        xs = list(it_(x))
    return xs if f is None else [callv(f, v, i) for i, v in enumerate(xs)]


def o_entries(o, *_):
    if isinstance(o, Obj):
        return [[k, o.p[k]] for k in o.p.keys()]
    return [[str(i), x] for i, x in enumerate(o)]


def o_assign(t, *srcs):
    for s in srcs:
        for k, v in props(s).items():
            put(t, k, v)
    return t


def o_from(it, *_):
    o = Obj()
    for kv in it_(it):
        o.p[key(get(kv, 0))] = get(kv, 1)
    return o


def minmax(f, empty):
    def run(*a):
        xs = [num(x) for x in a]
        if not xs:
            return empty
        if any(type(x) is float and x != x for x in xs):
            return NAN
        r = xs[0]
        for x in xs[1:]:
            if tr(f(x, r)):
                r = x
        return r
    return run


def m_round(x=None, *_):
    return norm(math.floor(concrete(num(x)) + 0.5))


def _m(f):
    def run(x=None, *_):
        x = concrete(num(x))
        if type(x) is float and (x != x or math.isinf(x)):
            return x
        return norm(f(x))
    return run


def m_abs(x=None, *_):
    x = num(x)
    return x if tr(x >= 0) else -x


def m_sign(x=None, *_):
    x = num(x)
    return 1 if tr(x > 0) else -1 if tr(x < 0) else 0


def parse_int(s=None, radix=None, *_):
    m = re.match(r"\s*([+-]?\d+)", concrete(tostr(s)))
    return int(m.group(1)) if m else NAN


def parse_float(s=None, *_):
    m = re.match(r"\s*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", concrete(tostr(s)))
    return norm(float(m.group(1))) if m else NAN


def is_nan(x=None, *_):
    x = num(x)
    return type(x) is float and x != x


def to_bool(x=None, *_):
    return truth(x)


def is_int(x=None, *_):
    return type(x) in (int, SymInt)


def clone(x, *_):
    if isinstance(x, list):
        return [clone(y) for y in x]
    if isinstance(x, Obj):
        return Obj({k: clone(v) for k, v in props(x).items()})
    return x


G_Array = Static({"isArray": lambda x=None, *_: isinstance(x, list), "from": array_from, "of": lambda *a: list(a)},
                 make_array, make_array)
G_Object = Static({
    "keys": lambda o, *_: keys(o), "values": lambda o, *_: [kv[1] for kv in o_entries(o)], "entries": o_entries,
    "assign": o_assign, "freeze": lambda o, *_: o, "fromEntries": o_from, "seal": lambda o, *_: o,
    "create": lambda *_: Obj(), "is": lambda a=None, b=None, *_: same(a, b), "isFrozen": lambda *_: False,
    "hasOwn": lambda o, k, *_: has(k, o), "setPrototypeOf": lambda o, *_: o,
}, lambda *_: Obj(), lambda x=None, *_: Obj() if nullish(x) else x)
G_Function = Static({})
_nop = Static({k: (lambda *_: None) for k in ("log", "error", "warn", "info", "debug", "assert", "trace")})
GLOBALS = {
    "undefined": None, "NaN": NAN, "Infinity": math.inf, "Array": G_Array, "Object": G_Object, "Function": G_Function,
    "Math": Static({"min": minmax(lambda x, r: x < r, math.inf), "max": minmax(lambda x, r: x > r, -math.inf),
                    "floor": _m(math.floor), "ceil": _m(math.ceil), "trunc": _m(math.trunc), "round": m_round,
                    "abs": m_abs, "sign": m_sign, "pow": pow, "sqrt": _m(math.sqrt), "PI": math.pi}),
    "Number": Static({"isInteger": is_int, "isNaN": lambda x=None, *_: type(x) is float and x != x,
                      "isFinite": lambda x=None, *_: isnum(x) and not (type(x) is float and (x != x or math.isinf(x))),
                      "isSafeInteger": is_int, "parseInt": parse_int, "parseFloat": parse_float,
                      "MAX_SAFE_INTEGER": 2 ** 53 - 1, "MIN_SAFE_INTEGER": -(2 ** 53 - 1), "MAX_VALUE": 1.7976931348623157e308,
                      "POSITIVE_INFINITY": math.inf, "NEGATIVE_INFINITY": -math.inf, "NaN": NAN, "EPSILON": 2.0 ** -52},
                     None, num),
    "String": Static({"fromCharCode": lambda *a: "".join(chr(integer(x)) for x in a),
                      "fromCodePoint": lambda *a: "".join(chr(integer(x)) for x in a)}, None, tostr),
    "Boolean": Static({}, None, to_bool),
    "parseInt": parse_int, "parseFloat": parse_float, "isNaN": is_nan,
    "isFinite": lambda x=None, *_: not is_nan(x) and abs(concrete(num(x))) != math.inf,
    "Error": JSError, "TypeError": JSTypeError, "RangeError": JSRangeError, "SyntaxError": JSSyntaxError,
    "ReferenceError": JSReferenceError, "Map": JSMap, "Set": JSSet, "RegExp": Regex, "console": _nop,
    "structuredClone": clone,
    "Symbol": Static({"iterator": "@@iterator"}),
}


HOST = {}       # what a browser adds


def glob(n):
    if n in HOST:
        return HOST[n]
    if n in GLOBALS:
        return GLOBALS[n]
    if n in ("window", "globalThis", "document", "module", "exports", "require", "process", "Promise", "Date", "JSON",
             "Reflect", "Proxy", "WeakMap", "WeakSet", "BigInt", "Intl", "Uint8Array", "TextEncoder"):
        if n in ("window", "document", "module", "exports", "require", "process"):
            raise JSReferenceError(n + " is not defined")
        raise unsupported("global " + n)
    raise JSReferenceError(n + " is not defined")


# ------------------------------------------------------------- to and from Python


def from_py(x):
    if isinstance(x, (list, tuple)):
        return [from_py(y) for y in x]
    if isinstance(x, dict):
        return Obj({k: from_py(v) for k, v in x.items()})
    return x


def to_py(x):
    """As the concrete side reports it (through JSON)."""
    if x is NULL:
        return None
    if isinstance(x, list):
        return [to_py(y) for y in x]
    if isinstance(x, Obj):
        return {concrete(k): to_py(v) for k, v in props(x).items()}
    return x
