"""`re` over symbolic strings: a backtracking matcher that branches on characters."""
import re as _re
import re._constants as K
import re._parser as _parser

from . import core
from .values import SymStr, char_eq, char_pred, chars_of, concrete, is_strlike, mk_str

_CATS = {
    K.CATEGORY_DIGIT: str.isdigit,
    K.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
    K.CATEGORY_SPACE: str.isspace,
    K.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    K.CATEGORY_WORD: lambda c: c.isalnum() or c == "_",
    K.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_"),
}


class Unsupported(Exception):
    pass


def _in_pred(items):
    neg = False
    tests = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            tests.append(lambda c, a=chr(av): c == a)
        elif op is K.RANGE:
            tests.append(lambda c, lo=av[0], hi=av[1]: lo <= ord(c) <= hi)
        elif op is K.CATEGORY:
            tests.append(_CATS[av])
        else:
            raise Unsupported(op)
    if neg:
        return lambda c: not any(t(c) for t in tests)
    return lambda c: any(t(c) for t in tests)


def _pair(pos, groups):
    return pos, groups


def _accept(chars, pos, groups, k):
    return k(pos, groups)


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.real = _re.compile(pattern, flags)
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self.prog = None
        self.memo = {}
        self.node = None
        try:
            if self.flags & ~int(_re.UNICODE | _re.DOTALL | _re.MULTILINE | _re.IGNORECASE | _re.VERBOSE):
                raise Unsupported("flags")
            self.prog = _parser.parse(pattern, flags)
            self._check(self.prog)
        except Unsupported:
            self.prog = None

    def _check(self, seq):
        for op, av in seq:
            if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.CATEGORY):
                pass
            elif op is K.IN:
                _in_pred(av)
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                self._check(av[2])
            elif op is K.SUBPATTERN:
                if av[1] or av[2]:
                    raise Unsupported("inline flags")
                self._check(av[3])
            elif op is K.ATOMIC_GROUP:
                self._check(av)
            elif op is K.POSSESSIVE_REPEAT:
                self._check(av[2])
            elif op is K.GROUPREF_EXISTS:
                self._check(av[1])
                self._check(av[2] or [])
            elif op is K.BRANCH:
                for b in av[1]:
                    self._check(b)
            elif op is K.AT:
                if av not in (K.AT_BEGINNING, K.AT_BEGINNING_STRING, K.AT_END, K.AT_END_STRING, K.AT_BOUNDARY,
                              K.AT_NON_BOUNDARY):
                    raise Unsupported("at")
            elif op in (K.ASSERT, K.ASSERT_NOT):
                if av[0] < 0 and av[1].getwidth()[0] != av[1].getwidth()[1]:
                    raise Unsupported("lookbehind")
                self._check(av[1])
            elif op is K.GROUPREF:
                pass
            else:
                raise Unsupported(op)

    # --- matching: node(chars, pos, groups, k) -> k(pos, groups) of the first way that k accepts, or None
    def _build(self, seq, nxt):
        """The matcher of a sequence followed by nxt(chars, pos, groups, k)."""
        for op, av in reversed(list(seq)):
            nxt = self._node(op, av, nxt)
        return nxt

    def _node(self, op, av, nxt):
        multi = bool(self.flags & _re.MULTILINE)
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY, K.CATEGORY):
            one = self._one
            ident = (op, id(av) if op is K.IN else av)
            memo = self.memo

            def char(chars, pos, groups, k):
                if pos >= len(chars):
                    return None
                c = chars[pos]
                r = memo.get((ident, id(c) if type(c) is not str else c))
                if r is None or r[0] is not c:
                    f = one(ident, op, av, c)
                else:
                    f = r[1]
                if f is True or (f is not False and core.CUR.decide(f)):
                    return nxt(chars, pos + 1, groups, k)
                return None
            return char
        if op is K.AT:
            def at(chars, pos, groups, k):
                n = len(chars)
                p = core.CUR
                if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                    ok = pos == 0
                    if not ok and multi and av is K.AT_BEGINNING:
                        ok = p.decide(char_eq(chars[pos - 1], "\n"))
                elif av is K.AT_END_STRING:
                    ok = pos == n
                elif av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                    word = [p.decide(char_pred(c, _CATS[K.CATEGORY_WORD]))
                            for c in (chars[pos - 1:pos] if pos else ()) + chars[pos:pos + 1]]
                    at = sum(word) == 1 if len(word) == 2 else any(word)
                    ok = at == (av is K.AT_BOUNDARY) and not (n == 0 and av is K.AT_NON_BOUNDARY)
                elif multi:
                    ok = pos == n or p.decide(char_eq(chars[pos], "\n"))
                else:
                    ok = pos == n or (pos == n - 1 and p.decide(char_eq(chars[pos], "\n")))
                return nxt(chars, pos, groups, k) if ok else None
            return at
        if op is K.SUBPATTERN:
            g, _, _, sub = av
            if g is None:
                return self._build(sub, nxt)
            body = self._build(sub, _accept)

            def group(chars, pos, groups, k):
                def after(e, gs):
                    gs = dict(gs)
                    gs[g] = (pos, e)
                    return nxt(chars, e, gs, k)
                return body(chars, pos, groups, after)
            return group
        if op is K.BRANCH:
            ways = [self._build(b, nxt) for b in av[1]]

            def branch(chars, pos, groups, k):
                for w in ways:
                    r = w(chars, pos, groups, k)
                    if r is not None:
                        return r
                return None
            return branch
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            return self._rep(av, op is K.MAX_REPEAT, nxt)
        if op is K.GROUPREF:
            nocase = bool(self.flags & _re.IGNORECASE)

            def ref(chars, pos, groups, k):
                if av not in groups:
                    return None
                s, e = groups[av]
                w = e - s
                if pos + w > len(chars):
                    return None
                x, y = chars[s:e], chars[pos:pos + w]
                if nocase:
                    ok = bool(mk_str(x).lower() == mk_str(y).lower())
                else:
                    ok = all(core.CUR.decide(char_eq(u, v)) for u, v in zip(x, y))
                return nxt(chars, pos + w, groups, k) if ok else None
            return ref
        if op in (K.ASSERT, K.ASSERT_NOT):
            body = self._build(av[1], _accept)
            back = av[1].getwidth()[0] if av[0] < 0 else 0

            def look(chars, pos, groups, k):
                hit = body(chars, pos - back, groups, _pair) if pos >= back else None
                if op is K.ASSERT:
                    return None if hit is None else nxt(chars, pos, hit[1], k)
                return nxt(chars, pos, groups, k) if hit is None else None
            return look
        if op in (K.ATOMIC_GROUP, K.POSSESSIVE_REPEAT):
            body = self._build(av, _accept) if op is K.ATOMIC_GROUP else self._rep(av, True, _accept)

            def atomic(chars, pos, groups, k):
                hit = body(chars, pos, groups, _pair)
                return None if hit is None else nxt(chars, hit[0], hit[1], k)
            return atomic
        if op is K.GROUPREF_EXISTS:
            yes, no = self._build(av[1], nxt), self._build(av[2] or [], nxt)
            return lambda chars, pos, groups, k: (yes if av[0] in groups else no)(chars, pos, groups, k)
        raise core.EngineError("regex op %s" % op)

    def _rep(self, av, greedy, nxt):
        lo, hi, sub = av
        body = self._build(sub, _accept)
        most = None if hi is K.MAXREPEAT else int(hi)

        def step(chars, pos, groups, k, count):
            if not greedy and count >= lo:
                r = nxt(chars, pos, groups, k)
                if r is not None:
                    return r
            if most is None or count < most:
                def again(e, gs):
                    if e == pos and count >= lo:
                        return None
                    return step(chars, e, gs, k, count + 1)
                r = body(chars, pos, groups, again)
                if r is not None:
                    return r
            if greedy and count >= lo:
                return nxt(chars, pos, groups, k)
            return None
        return lambda chars, pos, groups, k: step(chars, pos, groups, k, 0)

    def _run(self, chars, pos, k):
        if self.node is None:
            self.node = self._build(self.prog, _accept)
        return self.node(chars, pos, {}, k)

    def _one(self, ident, op, av, c):
        f = self._one_(op, av, c)
        self.memo[ident, id(c) if type(c) is not str else c] = (c, f)
        return f

    def _one_(self, op, av, c):
        if self.flags & _re.IGNORECASE and op is not K.ANY:
            if op is K.IN:
                pred = _in_pred(av)
            elif op is K.CATEGORY:
                pred = _CATS[av]
            else:
                pred = lambda x: x == chr(av)                         # noqa: E731
            neg = op is K.NOT_LITERAL
            if op is K.IN and av[0][0] is K.NEGATE:
                neg, pred = True, _in_pred(av[1:])
            both = lambda x: pred(x) or pred(x.lower()) or pred(x.upper())   # noqa: E731
            return char_pred(c, (lambda x: not both(x)) if neg else both)
        if op is K.LITERAL:
            return char_eq(c, chr(av))
        if op is K.NOT_LITERAL:
            ch = chr(av)
            return char_pred(c, lambda x: x != ch)
        if op is K.ANY:
            if self.flags & _re.DOTALL:
                return True
            return char_pred(c, lambda x: x != "\n")
        if op is K.CATEGORY:
            return char_pred(c, _CATS[av])
        return char_pred(c, _in_pred(av))

    # --- API
    def _real(self, s):
        return type(s) is str or self.prog is None

    def _match_at(self, chars, pos, full=False):
        if full:
            n = len(chars)
            return self._run(chars, pos, lambda e, gs: (e, gs) if e == n else None)
        return self._run(chars, pos, _pair)

    def match(self, s, pos=0):
        if self._real(s):
            return self.real.match(concrete(s), pos)
        r = self._match_at(chars_of(s), pos)
        return None if r is None else Match(self, s, pos, *r)

    def fullmatch(self, s, pos=0):
        if self._real(s):
            return self.real.fullmatch(concrete(s), pos)
        r = self._match_at(chars_of(s), pos, True)
        return None if r is None else Match(self, s, pos, *r)

    def search(self, s, pos=0):
        if self._real(s):
            return self.real.search(concrete(s), pos)
        chars = chars_of(s)
        for i in range(pos, len(chars) + 1):
            r = self._match_at(chars, i)
            if r is not None:
                return Match(self, s, i, *r)
        return None

    def finditer(self, s):
        if self._real(s):
            yield from self.real.finditer(concrete(s))
            return
        chars = chars_of(s)
        i = 0
        last = -1
        while i <= len(chars):
            hit = None
            for j in range(i, len(chars) + 1):
                # not the same empty match again
                hit = self._run(chars, j, _pair if j != last else lambda e, gs: (e, gs) if e != last else None)
                if hit:
                    hit = (j,) + hit
                    break
            if not hit:
                return
            j, e, gs = hit
            yield Match(self, s, j, e, gs)
            last = e if e == j else -1
            i = e

    def findall(self, s):
        if self._real(s):
            return self.real.findall(concrete(s))
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or "")
            else:
                out.append(tuple(x or "" for x in m.groups()))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        if self._real(s) and type(repl) is str:
            return self.real.subn(repl, concrete(s), count)
        out = ()
        pos = 0
        n = 0
        chars = chars_of(s)
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += chars[pos:m.start()]
            if callable(repl):
                r = repl(m)
            elif type(repl) is str and "\\" in repl:
                r = m.expand(repl)
            else:
                r = repl
            out += chars_of(r)
            pos = m.end()
            n += 1
        return mk_str(out + chars[pos:]), n

    def split(self, s, maxsplit=0):
        if self._real(s):
            return self.real.split(concrete(s), maxsplit)
        out = []
        pos = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[pos:m.start()])
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return out


class Match:
    def __init__(self, pat, s, start, end, groups):
        self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups

    def _span(self, g):
        if g == 0:
            return (self._s, self._e)
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g, (-1, -1))

    def span(self, g=0):
        return self._span(g)

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def _one(self, g):
        a, b = self._span(g)
        return None if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(default if self._span(i)[0] < 0 else self._one(i) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: (self._one(i) if self._span(i)[0] >= 0 else default) for k, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        ks = [i for i in self._g]
        return max(ks) if ks else None

    def expand(self, t):
        out = ""
        for part in _re.split(r"(\\\d|\\g<\w+>)", t):
            m = _re.fullmatch(r"\\(\d)|\\g<(\w+)>", part)
            if m:
                k = m.group(1) or m.group(2)
                out = out + (self._one(int(k) if k.isdigit() else k) or "")
            else:
                out = out + part.replace("\\\\", "\\")
        return out


_cache = {}


def reset():
    for p in _cache.values():
        p.memo.clear()


class Shim:
    """Stands in for the module `re`."""
    error = _re.error
    Pattern = Pattern
    Match = Match

    def __getattr__(self, name):
        return getattr(_re, name)

    def compile(self, pattern, flags=0):
        if isinstance(pattern, Pattern):
            return pattern
        if type(pattern) is SymStr:
            pattern = concrete(pattern)
        if isinstance(pattern, _re.Pattern):
            pattern, flags = pattern.pattern, flags or (pattern.flags & ~int(_re.UNICODE))
        k = (pattern, int(flags))
        if k not in _cache:
            _cache[k] = Pattern(pattern, int(flags))
        return _cache[k]

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).subn(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def escape(self, s):
        return _re.escape(concrete(s))

    def purge(self):
        pass


shim = Shim()
