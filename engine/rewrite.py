"""Loads Python source so that it runs on symbolic values.

The source is parsed, a few operators that CPython would force to a concrete
bool/str are redirected to the functions below, annotations are dropped, and
the result is executed natively.  Nothing about the code under test is assumed
beyond it being Python.
"""
import ast
import builtins
import collections
import functools
import operator
import os
import sys
import types

from . import core, rx
from .values import (SDefaultDict, SDict, SFrozen, SSet, SymBool, SymChoice, SymInt, SymStr, chars_of, concrete, form,
                     has_sym, is_strlike, is_sym, mk_str, mk_sym, s_eq, s_in, s_join, s_not, wrap)

_STR_METHODS = {n for n in dir(str) if not n.startswith("_")}

# ------------------------------------------------------------ runtime helpers


def h_in(x, c):
    return s_in(x, c)


def h_notin(x, c):
    return s_not(s_in(x, c))


def h_not(x):
    return s_not(x)


def h_is(a, b):
    ta, tb = type(a), type(b)
    if (ta is SymChoice or ta is SymBool) or (tb is SymChoice or tb is SymBool):
        if a is b:
            return True
        a, b = concrete(a), concrete(b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return a is b
    if ta is SymStr or tb is SymStr:
        return a is b
    return a is b


def h_isnot(a, b):
    return not h_is(a, b)


def h_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return s_eq(a, b)
    return a == b


def h_ne(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return s_not(s_eq(a, b))
    return a != b


def h_meth(obj, name, *args, **kw):
    """obj.name(*args) where name is a str method name."""
    if name == "maketrans":
        return str.maketrans(*[dict(a.items()) if isinstance(a, dict) else concrete(a) for a in args])
    if type(obj) is str:
        for a in args:
            if is_sym(a) or has_sym(a, 1):
                break
        else:
            if name == "join" and args and not isinstance(args[0], (list, tuple)):
                return s_join(obj, args[0])
            return getattr(obj, name)(*args, **kw)
        if name == "join":
            return s_join(obj, args[0])
        if name == "format":
            return h_format(obj, args, kw)
        return getattr(mk_sym(obj), name)(*args, **kw)
    if name == "index" and isinstance(obj, (list, tuple)) and len(args) == 1:
        for i, y in enumerate(obj):
            if s_eq(args[0], y):
                return i
        raise ValueError("not in list")
    if obj is str and args:      # str.lower(x)
        if name == "join":
            return s_join(args[0], args[1])
        if is_sym(args[0]) or any(has_sym(a, 1) for a in args):
            return getattr(mk_sym(args[0]) if is_strlike(args[0]) else args[0], name)(*args[1:], **kw)
    return getattr(obj, name)(*args, **kw)


def h_format(fmt, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field.isidentifier():
            v = kw[field]
        else:
            v = None
            out.append("<fmt>")
            continue
        out.append(fmt_value(v, conv, spec or ""))
    return s_join("", out)


def fmt_value(v, conv, spec):
    if type(v) is SymStr:
        if not conv and not spec:
            return v
        if conv in ("r", 114):
            return s_join("", ["'", v, "'"])
        return format(concrete(v), spec)
    if type(v) is SymInt:
        return "<int>"
    if type(v) is SymChoice:
        return concrete(v) if isinstance(v.outs[0], str) and not spec else "<choice>"
    if isinstance(v, BaseException) and has_sym(v.args, 4):
        return v.args[0] if len(v.args) == 1 and type(v.args[0]) is SymStr and not conv and not spec else "<value>"
    if has_sym(v, 4) or isinstance(v, (SDict, SSet)):
        return "<value>"
    if conv in ("r", 114):
        v = repr(v)
    elif conv in ("s", 115):
        v = str(v)
    elif conv in ("a", 97):
        v = ascii(v)
    return format(v, spec)


def h_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            out.append(fmt_value(*p))
        else:
            out.append(p)
    return s_join("", out)


def h_mod(a, b):
    if type(a) is str:
        args = b if isinstance(b, tuple) else (b,)
        if any(has_sym(x) for x in args):
            out = []
            rest = a
            args = list(args)
            while True:
                i = rest.find("%")
                if i < 0:
                    out.append(rest)
                    break
                out.append(rest[:i])
                c = rest[i + 1:i + 2]
                rest = rest[i + 2:]
                if c == "%":
                    out.append("%")
                elif c in ("s", "d"):
                    out.append(fmt_value(args.pop(0), None, ""))
                elif c == "r":
                    out.append(fmt_value(args.pop(0), "r", ""))
                else:
                    raise core.EngineError("%-format")
            return s_join("", out)
    return a % b


def h_call_str(x="", *a):
    if type(x) is SymStr:
        return x
    if is_sym(x):
        return str(concrete(x))
    if isinstance(x, BaseException) and has_sym(x.args, 4):
        return x.args[0] if len(x.args) == 1 and type(x.args[0]) is SymStr else "<value>"
    if has_sym(x, 4):
        return "<value>"
    return str(x, *a)


def h_call_repr(x):
    if has_sym(x, 4) or isinstance(x, (SDict, SSet)):
        return "<value>"
    return repr(x)


def h_call_int(x=0, *a):
    if type(x) is SymInt:
        return x
    return int(concrete(x), *a) if is_sym(x) else int(x, *a)


def h_call_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymChoice:
        return wrap(x.truth())
    return bool(x)


def h_call_len(x):
    return len(x)


def h_call_isinstance(x, cls):
    t = type(x)
    if t is SymStr:
        return issubclass(str, cls)
    if t is SymBool:
        return issubclass(bool, cls)
    if t is SymInt:
        return issubclass(int, cls)
    if t is SymChoice:
        return isinstance(x.outs[0], cls)
    if t is SSet:
        return issubclass(set, cls)
    if t is SFrozen:
        return issubclass(frozenset, cls)
    return isinstance(x, cls)


def h_call_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t is SymStr:
        return str
    if t is SymBool:
        return bool
    if t is SymInt:
        return int
    if t is SymChoice:
        return type(x.outs[0])
    if t is SDict:
        return dict
    if t is SSet:
        return set
    if t is SFrozen:
        return frozenset
    return t


def h_call_ord(c):
    if type(c) is SymStr:
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        ch = c.chars[0]
        if type(ch) is str:
            return ord(ch)
        from .values import mk_int
        return mk_int(0, {ch.var: tuple(ord(o) for o in ch.outs)})
    return ord(concrete(c))


def h_call_chr(n):
    return chr(int(n))


def h_call_dict(*a, **k):
    return SDict(*a, **k)


def h_call_set(it=()):
    return SSet(it)


def h_call_frozenset(it=()):
    return SFrozen(it)


def h_setdisplay(*items):
    return SSet(items)


def h_dictdisplay(*kv):
    d = SDict()
    for i in range(0, len(kv), 2):
        if kv[i] is _UNPACK:
            d.update(kv[i + 1])
        else:
            d[kv[i]] = kv[i + 1]
    return d


_UNPACK = object()


def h_call_any(it):
    """any() without branching on each element."""
    fs = []
    for x in it:
        f = form(x)
        if f is True:
            return True
        fs.append(f)
    return wrap(core.mk_or(*fs)) if fs else False


def h_call_all(it):
    fs = []
    for x in it:
        f = form(x)
        if f is False:
            return False
        fs.append(f)
    return wrap(core.mk_and(*fs)) if fs else True


def h_call_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def h_call_print(*a, **k):
    return None


def h_call_hash(x):
    return hash(x)


def h_call_max(*a, **k):
    return max(*a, **k)


def h_call_map(f, *its):
    if f in (str, int, bool, len, ord):
        f = {str: h_call_str, int: h_call_int, bool: h_call_bool, len: len, ord: h_call_ord}[f]
    elif isinstance(f, types.MethodDescriptorType) and getattr(str, f.__name__, None) is f:
        name = f.__name__
        return map(lambda x: h_meth(str, name, x), *its)
    return map(f, *its)


_CALLS = {
    "str": h_call_str, "repr": h_call_repr, "int": h_call_int, "bool": h_call_bool,
    "isinstance": h_call_isinstance, "type": h_call_type, "ord": h_call_ord, "chr": h_call_chr,
    "dict": h_call_dict, "set": h_call_set, "frozenset": h_call_frozenset,
    "any": h_call_any, "all": h_call_all, "print": h_call_print, "map": h_call_map,
}

class _Meta(type):
    def __instancecheck__(cls, x):
        return cls.test(x)


def _is_singleton(v):
    return _Meta("Is%s" % v, (), {"test": staticmethod(lambda x: h_is(x, v))})


def _builtin_class(t):
    return _Meta(t.__name__, (), {"test": staticmethod(lambda x: h_call_isinstance(x, t))})


def h_clsmeth(cls, name, *args, **kw):
    """set.union(a, b), dict.fromkeys(x)"""
    if cls is dict:
        if name == "fromkeys":
            return SDict([(k, args[1] if len(args) > 1 else None) for k in args[0]])
        return getattr(args[0] if isinstance(args[0], SDict) else SDict(args[0]), name)(*args[1:], **kw)
    mk = SSet if cls is set else SFrozen
    x = args[0] if isinstance(args[0], SSet) else mk(args[0])
    return getattr(x, name)(*args[1:], **kw)


def h_strmeth(name):
    """str.lower as a value."""
    return lambda *a, **k: h_meth(str, name, *a, **k)


class _OperatorShim:
    def __getattr__(self, name):
        return getattr(operator, name)

    eq, ne, contains, not_, is_, is_not, mod = map(staticmethod, (
        h_eq, h_ne, lambda c, x: h_in(x, c), h_not, h_is, h_isnot, h_mod))

    @staticmethod
    def methodcaller(name, *a, **k):
        return lambda x: h_meth(x, name, *a, **k) if name in _STR_METHODS else getattr(x, name)(*a, **k)


_CLS = {t.__name__: t for t in (str, int, bool, float, list, tuple, dict, set, frozenset)}
_HELPERS = {
    "_sv__isTrue": _is_singleton(True), "_sv__isFalse": _is_singleton(False), "_sv__strmeth": h_strmeth,
    "_sv__clsmeth": h_clsmeth,
    "_sv__in": h_in, "_sv__notin": h_notin, "_sv__not": h_not, "_sv__is": h_is, "_sv__isnot": h_isnot,
    "_sv__eq": h_eq, "_sv__ne": h_ne, "_sv__meth": h_meth, "_sv__fstr": h_fstr, "_sv__mod": h_mod,
    "_sv__set": h_setdisplay, "_sv__dict": h_dictdisplay, "_sv__unpack": _UNPACK, "_sv__SDict": SDict,
    "_sv__mkset": h_call_set,
}
for _n, _f in _CLS.items():
    _HELPERS["_sv__cls_" + _n] = _builtin_class(_f)
for _n, _f in _CALLS.items():
    _HELPERS["_sv__call_" + _n] = _f


# ---------------------------------------------------------------- AST rewrite


class _Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.tmp = 0
        self.shadowed = set()

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _call(self, fn, *args):
        return ast.Call(func=self._name(fn), args=list(args), keywords=[])

    # annotations away
    def _args(self, a):
        return a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]

    def _strip_args(self, a):
        for x in self._args(a):
            x.annotation = None

    def visit_FunctionDef(self, node):
        if node.decorator_list:         # singledispatch reads them
            notes = [(x, x.annotation) for x in self._args(node.args)]
            returns = node.returns
        self._strip_args(node.args)
        node.returns = None
        self.generic_visit(node)
        if node.decorator_list:
            node.returns = returns
            for x, a in notes:
                x.annotation = a
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            # `x: T` alone makes x local; keep dataclass-like class bodies working
            return ast.copy_location(ast.Pass(), node) if self._in_function else node
        return ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)

    _in_function = True

    def visit_ClassDef(self, node):
        # annotations inside class bodies may be meaningful (dataclasses, NamedTuple)
        old = self._in_function
        new = []
        for st in node.body:
            if isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    st.value = self.visit(st.value)
                new.append(st)
            else:
                r = self.visit(st)
                if isinstance(r, list):
                    new.extend(r)
                elif r is not None:
                    new.append(r)
        node.body = new
        self._in_function = old
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = node.ops
        special = (ast.In, ast.NotIn, ast.Is, ast.IsNot, ast.Eq, ast.NotEq)
        if not any(isinstance(o, special) for o in ops):
            return node

        def one(left, op, right):
            fn = {ast.In: "_sv__in", ast.NotIn: "_sv__notin", ast.Is: "_sv__is", ast.IsNot: "_sv__isnot",
                  ast.Eq: "_sv__eq", ast.NotEq: "_sv__ne"}.get(type(op))
            if fn is None:
                return ast.Compare(left=left, ops=[op], comparators=[right])
            return self._call(fn, left, right)
        if len(ops) == 1:
            return ast.copy_location(one(node.left, ops[0], node.comparators[0]), node)
        # a op b op c  ->  (a op (t := b)) and (t op c)
        vals = []
        left = node.left
        for i, (op, right) in enumerate(zip(ops, node.comparators)):
            if i < len(ops) - 1:
                self.tmp += 1
                name = "_sv_t%d" % self.tmp
                r = ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=right)
                vals.append(one(left, op, r))
                left = self._name(name)
            else:
                vals.append(one(left, op, right))
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(self._call("_sv__not", node.operand), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call("_sv__mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant(value="")
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                conv = ast.Constant(value=None if v.conversion == -1 else chr(v.conversion))
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return ast.copy_location(self._call("_sv__fstr", *parts), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "_sv__strmeth":
            node.args = [self._name("str"), f.args[0]] + node.args
            node.func = self._name("_sv__meth")
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("set", "frozenset", "dict") \
                and f.value.id not in self.shadowed:
            node.args = [f.value, ast.Constant(value=f.attr)] + node.args
            node.func = self._name("_sv__clsmeth")
        elif isinstance(f, ast.Attribute) and f.attr in _STR_METHODS:
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                return node
            node.args = [f.value, ast.Constant(value=f.attr)] + node.args
            node.func = self._name("_sv__meth")
        elif isinstance(f, ast.Name) and f.id in _CALLS and f.id not in self.shadowed:
            node.func = self._name("_sv__call_" + f.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == "str" \
                and node.attr in _STR_METHODS and "str" not in self.shadowed:
            return ast.copy_location(self._call("_sv__strmeth", ast.Constant(value=node.attr)), node)
        return node

    def visit_MatchSingleton(self, node):
        if node.value is None:
            return node
        return ast.copy_location(ast.MatchClass(cls=self._name("_sv__is%s" % node.value), patterns=[], kwd_attrs=[],
                                                kwd_patterns=[]), node)

    def visit_MatchClass(self, node):
        self.generic_visit(node)
        c = node.cls
        if isinstance(c, ast.Name) and c.id in _CLS and c.id not in self.shadowed and not node.kwd_attrs:
            c.id = "_sv__cls_" + c.id
            if len(node.patterns) == 1:
                inner = node.patterns[0]
                node.patterns = []
                if isinstance(inner, ast.MatchAs) and inner.pattern is None:
                    if inner.name is None:
                        return node
                    return ast.copy_location(ast.MatchAs(pattern=node, name=inner.name), node)
                node.patterns = [inner]
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        args = []
        for k, v in zip(node.keys, node.values):
            args.append(self._name("_sv__unpack") if k is None else k)
            args.append(v)
        return ast.copy_location(self._call("_sv__dict", *args), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(self._call("_sv__SDict", gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("_sv__set", *node.elts), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(self._call("_sv__mkset", gen), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            node.type = self._name("Exception")
        return node


def _big_const_dict(node):
    return isinstance(node, ast.Dict) and len(node.keys) > 200


def transform(source, filename):
    tree = ast.parse(source, filename)
    rw = _Rewriter()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in _CALLS:
            rw.shadowed.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in _CALLS:
            rw.shadowed.add(n.id)
        elif isinstance(n, ast.arg) and n.arg in _CALLS:
            rw.shadowed.add(n.arg)
    # huge literal tables: keep them native, convert once
    for st in tree.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and _big_const_dict(st.value):
            src = ast.Constant(value=0)
            st._native = st.value
            st.value = src
    natives = [(st, st._native) for st in tree.body if hasattr(st, "_native")]
    tree = rw.visit(tree)
    for st in tree.body:
        pass
    ast.fix_missing_locations(tree)
    for st, native in natives:
        # the transformed statement may be a new node with the same targets
        for t in tree.body:
            if isinstance(t, ast.Assign) and isinstance(t.value, ast.Constant) and t.value.value == 0 \
                    and ast.dump(t.targets[0]) == ast.dump(st.target if isinstance(st, ast.AnnAssign) else st.targets[0]):
                t.value = ast.Call(func=ast.Name(id="_sv__SDict", ctx=ast.Load()), args=[native], keywords=[])
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# --------------------------------------------------------------------- loader


class _FunctoolsShim:
    """lru_cache and cache as an ordinary memo table over symbolic arguments."""

    def __getattr__(self, name):
        return getattr(functools, name)

    def lru_cache(self, maxsize=128, typed=False):
        if callable(maxsize):
            return self._memo(maxsize)
        return self._memo

    def cache(self, fn):
        return self._memo(fn)

    @staticmethod
    def singledispatch(fn):
        real = functools.singledispatch(fn)

        def wrapper(*a, **k):
            return real.dispatch(h_call_type(a[0]))(*a, **k)
        wrapper.register, wrapper.dispatch, wrapper.registry = real.register, real.dispatch, real.registry
        return wrapper

    @staticmethod
    def _memo(fn):
        table = SDict()

        def wrapper(*a, **k):
            key = (a, tuple(sorted(k.items())))
            _hashable(key)
            if key in table:
                return table[key]
            r = fn(*a, **k)
            table[key] = r
            return r
        wrapper.cache_clear = table.clear
        wrapper.__wrapped__ = fn
        wrapper.__name__ = getattr(fn, "__name__", "memo")
        return wrapper


def _hashable(x):
    if isinstance(x, (list, dict, set, SSet)):
        raise TypeError("unhashable type")
    if isinstance(x, tuple):
        for y in x:
            _hashable(y)


class _CollectionsShim:
    defaultdict = SDefaultDict
    OrderedDict = SDict

    def __getattr__(self, name):
        return getattr(collections, name)


_SHIMS = {"re": rx.shim, "functools": _FunctoolsShim(), "collections": _CollectionsShim(), "operator": _OperatorShim()}


class Source:
    """Compiled source of a package directory, read once per process."""

    def __init__(self, package, path, native=False):
        self.package = package
        self.path = path
        self.native = native
        self.code = {}
        self.data = {}

    def get(self, mod):
        c = self.code.get(mod)
        if c is None:
            fn = os.path.join(self.path, (mod or "__init__").replace(".", "/") + ".py")
            if not os.path.exists(fn):
                fn2 = os.path.join(self.path, mod.replace(".", "/"), "__init__.py")
                if not os.path.exists(fn2):
                    raise ModuleNotFoundError("No module named '%s.%s'" % (self.package, mod))
                fn = fn2
            with open(fn, encoding="utf-8") as f:
                src = f.read()
            c = compile(src, fn, "exec", dont_inherit=True) if self.native else transform(src, fn)
            self.code[mod] = c
        return c


class World:
    """One fresh load of the package: module objects, created on first import."""

    def __init__(self, source, overrides=None, share=None):
        self.source = source
        self.package = source.package
        self.modules = {}
        self.overrides = overrides or {}     # module name -> function(module) run right after it loads
        self.share = share or {}             # module name -> module object reused between worlds
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self._import
        self.native = source.native
        if not self.native:
            self.builtins.update(_HELPERS)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.share:
            m = self.modules[name] = self.share[name]
            return m
        full = self.package + ("." + name if name else "")
        m = types.ModuleType(full)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = full
        m.__package__ = self.package
        self.modules[name] = m
        sys.modules[full] = m           # dataclasses look their module up here
        data = self.source.data.get(name) if name in self.overrides else None
        if data is None:
            exec(self.source.get(name), m.__dict__)
            if name in self.overrides:
                self._note(name, m)
        else:
            m.__dict__.update(data)         # nothing to run: the override replaces all of it
        if name in self.overrides:
            self.overrides[name](m)
        parent = self.modules.get("")
        if parent is not None and name:
            setattr(parent, name, m)
        return m

    def run(self, name, **hooks):
        """Runs module name as the main program; hooks (input, print) stand in for the builtins of the same name."""
        b = dict(self.builtins)
        b.update(hooks)
        if not self.native and "print" in hooks:
            b["_sv__call_print"] = hooks["print"]
        m = types.ModuleType("__main__")
        m.__dict__["__builtins__"] = b
        m.__package__ = self.package
        exec(self.source.get(name), m.__dict__)
        return m

    def _note(self, name, m):
        """Remembers a module that holds nothing but the dictionary."""
        rest = {k: v for k, v in m.__dict__.items() if not k.startswith("__") and k != "RAFSI_LIST"}
        if "RAFSI_LIST" in m.__dict__ and not rest:
            self.source.data[name] = {}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = self.package
            full = base + ("." + name if name else "")
        else:
            full = name
        if full == self.package or full.startswith(self.package + "."):
            sub = full[len(self.package) + 1:]
            if sub:
                m = self.load(sub)
                if fromlist:
                    return m
                return self._pkg()
            if fromlist:
                pkg = self._pkg()
                for f in fromlist:
                    if f != "*" and not hasattr(pkg, f):
                        setattr(pkg, f, self.load(f))
                return pkg
            return self._pkg()
        if not self.native and full in _SHIMS:
            return _SHIMS[full]
        return __import__(full, globals, locals, fromlist, 0)

    def _pkg(self):
        m = self.modules.get("")
        if m is None:
            m = self.load("")
        return m
