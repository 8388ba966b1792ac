"""Python constructs a refactoring might use; each function is run symbolically and natively and must agree."""
from __future__ import annotations

import collections
import dataclasses
import enum
import functools
import itertools
import operator
import re
import string
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple
from dataclasses import dataclass, field
from functools import cache, lru_cache, partial, reduce
from itertools import accumulate, chain, groupby, islice, product, takewhile, dropwhile, pairwise, zip_longest
from typing import Iterable, NamedTuple, Optional, TypedDict, Final, Literal

from latkerlo_jvotci import helpers
from latkerlo_jvotci.helpers import vowel, Kind
from .helpers import Scanner

VOWELS: Final = frozenset("aeiou")
CONS = set("bcdfgjklmnprstvxz")
PAIRS = {"bl", "br", "cf", "mz", "st", "tr"}
PAIRT = ("bl", "br", "cf", "mz", "st", "tr")
TABLE = {"a": 1, "e": 2, "b": 3}
VRE = re.compile(r"[aeiou]+")
FULL = re.compile(r"(?P<head>[bcdfgjklmnprstvxz])(?P<mid>[aeiou]'?[aeiou]?)(?P<rest>.*)")
MASK = sum(1 << (ord(c) - 97) for c in "aeiou")
TR = str.maketrans({"h": "'", ",": None})
TR2 = str.maketrans("AEIOU", "aeiou")

T = []


def t(f):
    T.append(f)
    return f


@t
def f_len_set(w): return len(set(w))
@t
def f_subset(w): return set(w) <= VOWELS
@t
def f_issubset(w): return set(w).issubset("aeiou")
@t
def f_superset(w): return VOWELS.issuperset(w)
@t
def f_superset2(w): return VOWELS >= set(w)
@t
def f_isdisjoint(w): return VOWELS.isdisjoint(w)
@t
def f_setand(w): return sorted(set(w) & VOWELS)
@t
def f_setdiff(w): return sorted(set(w) - VOWELS)
@t
def f_setdiff2(w): return sorted(VOWELS - set(w))
@t
def f_setxor(w): return len(VOWELS ^ set(w))
@t
def f_setor(w): return len(VOWELS | set(w))
@t
def f_intersection(w): return bool(VOWELS.intersection(w))
@t
def f_in_set(w): return w[:2] in PAIRS
@t
def f_in_tuple(w): return w[:2] in PAIRT
@t
def f_in_dict(w): return w[:1] in TABLE
@t
def f_get(w): return TABLE.get(w[:1], 0)
@t
def f_getitem(w):
    try:
        return TABLE[w[:1]]
    except KeyError:
        return None
    finally:
        pass
@t
def f_counter(w): return sorted(Counter(w).items())
@t
def f_counter2(w):
    c = Counter(w)
    return c["a"] + c["b"]
@t
def f_defaultdict(w):
    d = defaultdict(list)
    for c in w:
        d[c in "aeiou"].append(c)
    return d[True], d[False]
@t
def f_fromkeys(w): return "".join(dict.fromkeys(w))
@t
def f_mask(w): return [bool(MASK >> (ord(c) - 97) & 1) for c in w if c.isalpha() and c.islower()]
@t
def f_ordtable(w):
    tab = [chr(97 + i) in "aeiou" for i in range(26)]
    return [tab[ord(c) - ord("a")] for c in w if "a" <= c <= "z"]
@t
def f_translate(w): return w.translate(TR)
@t
def f_translate2(w): return w.translate(TR2)
@t
def f_translate3(w): return w.translate({ord("h"): "'", ord(","): None, 46: ""})
@t
def f_strjoin(w): return str.join("-", [w, w[:1]])
@t
def f_join_gen(w): return "".join(c for c in w if c != ",")
@t
def f_join_map(w): return "".join(map(str.upper, w))
@t
def f_join_filter(w): return "".join(filter(vowel, w))
@t
def f_join_rev(w): return "".join(reversed(w))
@t
def f_filter_none(w): return list(filter(None, w.split("a")))
@t
def f_groupby(w): return ["".join(g) for _, g in groupby(w, vowel)]
@t
def f_groupby2(w): return [(k, len(list(g))) for k, g in groupby(w)]
@t
def f_takewhile(w): return "".join(takewhile(lambda c: c in "aeiou", w))
@t
def f_dropwhile(w): return "".join(dropwhile(vowel, w))
@t
def f_pairwise(w): return [a + b in PAIRS for a, b in pairwise(w)]
@t
def f_zip(w): return any(a == b for a, b in zip(w, w[1:]))
@t
def f_ziplongest(w): return [a == b for a, b in zip_longest(w, w[1:], fillvalue="")]
@t
def f_enumerate(w): return next((i for i, c in enumerate(w) if not vowel(c)), -1)
@t
def f_next_default(w): return next(filter(vowel, w), None)
@t
def f_sum(w): return sum(c in VOWELS for c in w)
@t
def f_sum2(w): return sum(1 for c in w if c in VOWELS)
@t
def f_sum3(w): return sum(map(w.count, "aeiou"))
@t
def f_sum4(w): return len([c for c in w if c in CONS]) * 10 - sum(len(x) for x in w.split("'"))
@t
def f_all(w): return all(c in CONS for c in w)
@t
def f_anyeq(w): return any(w.startswith(p) for p in PAIRT)
@t
def f_startswith_tuple(w): return w.startswith(PAIRT)
@t
def f_endswith_tuple(w): return w.endswith(("a", "e", "i"))
@t
def f_removeprefix(w): return w.removeprefix("'").removesuffix("y")
@t
def f_strip(w): return w.strip("'y"), w.lstrip("'"), w.rstrip("y")
@t
def f_partition(w): return w.partition("y"), w.rpartition("'")
@t
def f_split(w): return w.split("y"), w.split("y", 1), w.rsplit("y", 1)
@t
def f_find(w): return w.find("y"), w.rfind("a"), w.find("a", 1)
@t
def f_index(w):
    try:
        return w.index("y")
    except ValueError:
        return -1
@t
def f_count(w): return w.count("a"), w.count("a", 1), w.count("br")
@t
def f_replace(w): return w.replace("h", "'").replace(",", ""), w.replace("a", "bb", 1)
@t
def f_case(w): return w.lower(), w.upper(), w.casefold(), w.title() if len(w) < 2 else "", w.swapcase()
@t
def f_isx(w): return w.isalpha(), w.islower(), w.isdigit(), w.isspace(), w.isupper(), w.isascii()
@t
def f_cmp(w): return w < "c", w >= "b", "a" <= w[:1] <= "e"
@t
def f_minmax(w): return (min(w), max(w)) if w else None
@t
def f_sorted(w): return sorted(w)
@t
def f_sortedkey(w): return sorted(w, key=lambda c: (c not in "aeiou", c))
@t
def f_sortrev(w): return sorted(set(w), reverse=True)
@t
def f_listops(w):
    x = list(w)
    x.append("z")
    x.insert(0, "q")
    x.extend(w)
    x.reverse()
    y = x.pop()
    x.remove("z")
    return x, y, x.count("a"), x.index("z") if "z" in x else None
@t
def f_unpack(w):
    if len(w) < 3:
        return None
    a, b, *rest = w
    return a == b, rest
@t
def f_unpack2(w):
    *init, last = w or "x"
    return "".join(init), last
@t
def f_swap(w):
    a, b = w[:1], w[1:]
    a, b = b, a
    return a + b
@t
def f_aug(w):
    out = ""
    for c in w:
        out += c if c != "h" else "'"
    return out
@t
def f_whileelse(w):
    i = 0
    while i < len(w):
        if w[i] == "y":
            break
        i += 1
    else:
        return "none"
    return i
@t
def f_forelse(w):
    for i, c in enumerate(w):
        if c == "y":
            break
    else:
        return -1
    return i
@t
def f_while_pos(w):
    pos = 0
    out = []
    while pos < len(w):
        end = pos
        while end < len(w) and vowel(w[end]) == vowel(w[pos]):
            end += 1
        out.append(w[pos:end])
        pos = end
    return out
@t
def f_negidx(w):
    i = -1
    while -i <= len(w) and w[i] in "'y":
        i -= 1
    return i
@t
def f_symslice(w):
    n = len(w) - len(w.lstrip("aeiou"))
    return w[n:], w[:n], w[-n:], w[n:n + 1]
@t
def f_symidx(w):
    n = w.count("a")
    return w[n] if n < len(w) else None
@t
def f_symrange(w): return [i for i in range(w.count("a"))], "x" * w.count("a"), w.count("a") * "y"
@t
def f_symarith(w):
    n = w.count("a")
    return n * n, n // 2, n % 2, -n, abs(n - 2), n ** 2, n & 1, n | 4, n << 1, divmod(n, 2), n / 2, 7 - n, 7 // (n + 1), 2 ** n, not n, n == 1, n != 1, round(n), float(n), ~n
@t
def f_boolarith(w): return (w[:1] == "a") + 1, 3 * (w[1:2] == "b"), (w[:1] == "a") and 5 or 6, (w == "") ^ True, (w[:1] == "a") & (w[1:2] == "b"), (w[:1] == "a") | False, int(w[:1] == "a"), -(w[:1] == "a"), ("x", "y")[w[:1] == "a"], ["p", "q"][w[:1] in "ae"]
@t
def f_tern(w): return 1 if w[:1] in VOWELS else 2 if w[1:2] in VOWELS else 3
@t
def f_walrus(w):
    if (n := w.find("y")) >= 0:
        return n
    if (m := VRE.search(w)) is not None:
        return m.group(), m.span()
    return None
@t
def f_chain(w): return "a" == w[:1] == w[1:2], w[:1] == w[1:2] != w[2:3]
@t
def f_match_val(w):
    match w[:1]:
        case "a" | "e":
            return 1
        case "b":
            return 2
        case x if x in CONS:
            return 3
        case _:
            return 4
@t
def f_match_seq(w):
    match list(w):
        case []:
            return 0
        case ["a", *rest]:
            return len(rest)
        case [x, "a"]:
            return x
        case [x, y, z]:
            return x == z
        case _:
            return None
@t
def f_match_cls(w):
    match w:
        case str():
            return "s"
        case list():
            return "l"
@t
def f_match_cls2(w):
    match w[:1]:
        case str(x) if x:
            return x
        case _:
            return None
@t
def f_match_tuple(w):
    match (vowel(w[:1]) and w != "", len(w)):
        case (True, 1):
            return 1
        case (False, n):
            return n
        case (True, n) if n > 2:
            return -n
        case _:
            return 0
@t
def f_match_dict(w):
    match {"k": w[:1], "n": len(w)}:
        case {"k": "a", "n": n}:
            return n
        case {"k": k}:
            return k
@t
def f_match_named(w):
    match Kind.of(w):
        case Kind.VOWEL:
            return "v"
        case Kind.CONS:
            return "c"
        case Kind.OTHER:
            return "o"
@t
def f_enum(w): return Kind.of(w).value, Kind.of(w).name, int(Kind.of(w)) if isinstance(Kind.of(w), int) else None
@t
def f_enumcmp(w): return Kind.of(w) in (Kind.VOWEL, Kind.CONS), Kind.of(w) == Kind.OTHER, Kind.of(w) is Kind.OTHER
@t
def f_scanner(w):
    s = Scanner(w)
    out = []
    while s:
        out.append(s.take())
    return out
@t
def f_dataclass(w):
    @dataclass
    class P:
        word: str
        n: int = 0
        parts: list = field(default_factory=list)

        def __post_init__(self):
            self.n = len(self.word)
    p = P(w)
    q = P(w[:1])
    p.parts.append(w)
    return p == q, p.n, p.parts, dataclasses.replace(q, n=7).n
@t
def f_namedtuple(w):
    C = namedtuple("C", "score word")
    a = C(w.count("a"), w)
    b = a._replace(score=1)
    return a.score, b.word, a == b, min(a, b), tuple(b)
@t
def f_nt_class(w):
    r = helpers.Cand(score=w.count("a"), word=w)
    return r.score, r.word, r < helpers.Cand(1, "z")
@t
def f_minkey(w): return min(w.split("a"), key=len), max([w, w[::-1]], key=lambda x: x.count("a")), min([(w.count("a"), 1), (w.count("b"), 0)])
@t
def f_min_default(w): return min((c for c in w if c in VOWELS), default=None)
@t
def f_reduce(w): return reduce(lambda a, c: a * 2 + (c in "aeiou"), w, 0)
@t
def f_accumulate(w): return list(accumulate(w))
@t
def f_partial(w): return partial(helpers.starts, "a")(w)
@t
def f_chainit(w): return list(chain(w, [w])), list(chain.from_iterable([w, w]))
@t
def f_islice(w): return "".join(islice(w, 1, None))
@t
def f_product(w): return len([1 for a, b in product(w, w) if a == b])
@t
def f_deque(w):
    d = deque(w)
    out = []
    while d:
        c = d.popleft()
        if c == "y" and d:
            d.pop()
        out.append(c)
    return out
@t
def f_iter(w):
    it = iter(w)
    return [c + next(it, "-") for c in it]
@t
def f_gen(w):
    def runs():
        cur = ""
        for c in w:
            if cur and vowel(cur[-1]) != vowel(c):
                yield cur
                cur = ""
            cur += c
        if cur:
            yield cur
    return list(runs())
@t
def f_yieldfrom(w):
    def g(x):
        if len(x) > 1:
            yield from g(x[1:])
        yield x
    return list(g(w))
@t
def f_nonlocal(w):
    n = 0
    def bump(c):
        nonlocal n
        if c == "a":
            n += 1
        return n
    return [bump(c) for c in w]
@t
def f_rec(w):
    def go(x):
        if not x:
            return []
        if x[0] in VOWELS:
            return [x[0]] + go(x[1:])
        return go(x[1:])
    return go(w)
@lru_cache(maxsize=None)
def memo(w): return w.count("a")
@t
def f_lru(w): return memo(w), memo(w[1:]), memo(w)
@cache
def memo2(w, *, k=1): return w[k:]
@t
def f_cache(w): return memo2(w), memo2(w, k=2)
@t
def f_re1(w): return bool(re.match(r"^[aeiou']+$", w)), bool(re.fullmatch("[a-z]+", w)), re.search("[aeiou]y", w) is not None
@t
def f_re2(w): return re.sub("^['y]+|['y]+$", "", w), re.sub("a", lambda m: m.group().upper(), w), re.split("y", w), re.findall("[aeiou]+", w)
@t
def f_re3(w):
    m = FULL.fullmatch(w)
    return m and (m["head"], m.group("mid"), m.group(3), m.groupdict()["rest"], m.groups(), m.start(2), m.end())
@t
def f_re4(w): return [m.group(0) for m in VRE.finditer(w)], bool(re.match("(.)\\1", w)), bool(re.search("(?<![aeiou])y(?!a)", w)), re.match("(?:b|br)(a|e)?", w) is None
@t
def f_re5(w): return bool(re.fullmatch("(?i)A.*", w)), bool(re.compile("""
    [aeiou]   # vowel
    '?
    """, re.X).match(w)), re.escape("a.b"), bool(re.match(rf"{'|'.join(PAIRT)}", w))
@t
def f_re6(w): return bool(re.match("a{2,3}b?", w)), bool(re.match("[^aeiou]{1,2}[aeiou]*?y$", w)), re.match(r"\w*", w).end()
@t
def f_fstr(w): return f"{w}a", f"{{{w}}}", f"-{w[:1]!s}-", f"{len(w)}", f"{w:>5}" if len(w) < 2 else ""
@t
def f_fmt(w): return "%s-%s" % (w, w[:1]), "{}{}".format(w, 1), "{0}{0}".format(w[:1]), "{x}".format(x=w)
@t
def f_exc(w):
    try:
        if w[:1] == "a":
            raise ValueError(w)
        if w[:1] == "b":
            raise helpers.MyError(f"bad {w}")
        return w[5]
    except ValueError as e:
        return "v" + str(e)
    except helpers.MyError as e:
        return e.args[0]
    except (IndexError, KeyError):
        return "i"
    else:
        return "else"
@t
def f_finally(w):
    out = []
    try:
        out.append(w[0])
    except IndexError:
        return "short"
    finally:
        out.append("f")
    return out
@t
def f_with(w):
    import contextlib
    with contextlib.suppress(IndexError):
        return w[3]
    return None
@t
def f_star(w):
    def g(*a, k="z", **kw): return a, k, sorted(kw)
    return g(*w, k=w), g(w, **{"q": 1}), [*w, *w], {**{"a": w}, "b": 1}["a"], (*w,)
@t
def f_dictcomp(w): return {c: i for i, c in enumerate(w)}.get("a"), {i: c for i, c in enumerate(w)}
@t
def f_dictops(w):
    d = {}
    for c in w:
        d.setdefault(c, 0)
        d[c] += 1
    if "y" in d:
        del d["y"]
    return d.pop("a", None), len(d), list(d), list(d.values()), list(d.items())
@t
def f_setcomp(w): return len({c for c in w if c in CONS})
@t
def f_setmut(w):
    s = set()
    out = []
    for c in w:
        if c in s:
            out.append(c)
        s.add(c)
    return out
@t
def f_isinst(w): return isinstance(w, str), isinstance(w, (list, tuple)), type(w) is str, type(w) == str, type(w).__name__, isinstance(w, collections.abc.Sequence), issubclass(type(w), str), hasattr(w, "lower"), callable(w)
@t
def f_none(w):
    x = w[:1] or None
    return x is None, x is not None, (x or "q")
@t
def f_bool(w): return bool(w), not w, bool(w[:1] == "a"), bool(w and w[0] == "a")
@t
def f_tuplecmp(w): return (w.count("a"), w) < (1, "b"), [w] == [w[:]], (w[:1], 1) == ("a", 1), (w[:1], w[1:2]) in [("a", "b"), ("b", "a")]
@t
def f_op(w): return operator.itemgetter(0)([w]), operator.eq(w[:1], "a"), operator.contains("aeiou", w[:1]), list(map(operator.add, w, w)), operator.methodcaller("upper")(w)
@t
def f_strconst(w): return w[:1] in string.ascii_lowercase, w[:1] in string.whitespace
@t
def f_global(w):
    global STATE
    STATE = w
    return STATE
@t
def f_table(w): return [(x, y) for x, y in (("a", 1), ("b", 2)) if x in w]
@t
def f_listin(w): return w in ["a", "ab"], [w[:1]] in [["a"], ["b"]], w[:1] not in ("a", "b")
@t
def f_typed(w):
    x: Optional[int] = None
    y: list[str] = []
    for c in w:
        y.append(c)
        x = len(y)
    return x
@t
def f_assert(w):
    try:
        assert w[:1] != "a", "no"
    except AssertionError:
        return "assert"
    return "ok"
@t
def f_lambda(w): return (lambda s, n=1: s[n:])(w), [f(w) for f in (str.lower, len, lambda x: x[::-1])]
@t
def f_dispatch(w):
    h = {"a": lambda s: s[1:], "b": lambda s: s}
    return h.get(w[:1], lambda s: None)(w)
@t
def f_dispatch2(w):
    tab = {("C", "V"): 1, ("V", "C"): 2}
    cl = tuple("V" if vowel(c) else "C" for c in w[:2])
    return tab.get(cl, 0)
@t
def f_shape(w):
    sh = "".join("V" if c in "aeiou" else "'" if c == "'" else "C" for c in w)
    return {"CVC": 1, "CCV": 2, "CVV": 3}.get(sh, 9), sh
@t
def f_matchshape(w):
    match "".join("V" if c in "aeiou" else "C" for c in w):
        case "CVC" | "CCV": return 1
        case "CV": return 2
        case _: return 3
@t
def f_eqlist(w): return list(w) == ["a", "b"], tuple(w) == ("a",), set(w) == {"a", "b"}, list(w) != list(w[::-1])
@t
def f_print(w):
    return None
@t
def f_prop(w):
    s = Scanner(w)
    return s.rest, s.size, Scanner.make(w).rest, s.kind("a"), Scanner.LIMIT
@t
def f_abstr(w): return w.center(5) if len(w) < 2 else 0, w.zfill(2) if len(w) < 2 else 0, w.isidentifier() if len(w) < 2 else 0, w.ljust(4, "-")
@t
def f_bytes(w): return len(w.encode()) if w.isascii() else None
@t
def f_slots(w): return helpers.Slot(w).get()
@t
def f_typeddict(w):
    d: dict[str, str] = dict(word=w, first=w[:1])
    return d["word"], d["first"], "word" in d, dict([("a", w)])["a"], dict({"b": w})["b"]
@t
def f_ordered(w):
    d = OrderedDict()
    for c in w:
        d[c] = 1
    return list(d.keys())
@t
def f_bisect(w):
    import bisect
    return bisect.bisect("abc", w[:1]) if w else None
@t
def f_del(w):
    x = list(w)
    del x[:1]
    x[1:2] = ["q", "r"]
    return x
@t
def f_listmul(w): return [w] * 2, [0] * w.count("a"), (w,) + (w,)
@t
def f_reversed_enum(w): return [(i, c) for i, c in reversed(list(enumerate(w))) if c == "a"]
@t
def f_strcmp3(w): return w == w.lower(), w.lower() != w, w[:1] == w[:1].lower() == "a"
@t
def f_heapq(w):
    import heapq
    h = [(w.count("a"), 0), (w.count("b"), 1)]
    heapq.heapify(h)
    return heapq.heappop(h)
@t
def f_copy(w):
    import copy
    x = [w, [w]]
    y = copy.deepcopy(x)
    z = copy.copy(x)
    y[1].append("k")
    return x, y, z == x
@t
def f_inf(w):
    best = float("inf")
    for i, c in enumerate(w):
        s = w.count(c)
        if s < best:
            best = s
    return best if w else None
@t
def f_big(w): return 10 ** 100 > w.count("a"), w.count("a") < float("inf"), min(10 ** 100, w.count("a"))
@t
def f_sentinel(w):
    miss = object()
    r = TABLE.get(w[:1], miss)
    return r is miss
@t
def f_tryelse(w):
    try:
        n = int(w[:1]) if w[:1].isdigit() else len(w)
    except ValueError:
        return None
    else:
        return n
@t
def f_exc_from(w):
    try:
        try:
            TABLE[w]
        except KeyError as e:
            raise helpers.MyError(f"x {w}") from e
    except helpers.MyError as e:
        return e.__cause__ is not None, str(e)
    return None
@t
def f_lstr(w): return str(w), repr(len(w)), str(len(w)), [str(x) for x in w]
@t
def f_nested(w): return [[c for c in p if c != "'"] for p in w.split("y")]
@t
def f_cond_list(w): return [x for x in (w[:1], w[1:]) if len(x) > 0 and x[0] not in "'y"]
@t
def f_index_dict(w): return {c: n for n, c in enumerate("aeiou")}.get(w[:1]), "aeiou".find(w[:1]), "aeiou".index(w[0]) if w[:1] and w[0] in "aeiou" else None
@t
def f_strin(w): return w in "brabe", w[:2] in "abab", "" in w
@t
def f_unicode(w): return w.lower() == w.casefold(), len(w.lower())
@t
def f_abc(w):
    return helpers.Concrete(w).run()
@t
def f_any_list(w): return any([w[:1] == "a", w[1:2] == "b"]), all([vowel(c) for c in w]), any(())
@t
def f_xor(w): return (w[:1] in "ae") != (w[1:2] in "ae"), (w[:1] == "a") == (w[1:2] == "a"), (w[:1] == "a") is True
@t
def f_rangeidx(w): return any(w[i:i + 2] in PAIRS for i in range(len(w) - 1)), [w[i:i + 3] for i in range(0, len(w), 3)]
@t
def f_kwonly(w, *, flag=False): return f_kw2(w, flag=not flag)
def f_kw2(w, /, flag): return w if flag else None
@t
def f_settings(w): return helpers.Settings(word=w, mz=w[:1] == "a").key()
@t
def f_stritems(w): return list(zip(*[(c, c in "aeiou") for c in w]))
@t
def f_count_if(w): return len(list(filter(lambda c: c in VOWELS, w))), [*map(len, w.split("a"))]
@t
def f_not_in_chain(w): return not (w[:1] in "ab" and w[1:2] not in "ab"), not w[:1] == "a"
@t
def f_getattr(w): return getattr(w, "upper")(), getattr(helpers, "vowel")(w[:1])
@t
def f_singledispatch(w): return helpers.describe(w)
@t
def f_strmethods_ref(w):
    up = w.upper
    st = w.startswith
    return up(), st("a"), list(map(w.find, "ab")), list(map(str.isalpha, w))
@t
def f_mapping(w):
    import types
    m = types.MappingProxyType({"a": 1, "b": 2})
    return m.get(w[:1]), w[:1] in m, m["a"]
@t
def f_chainmap(w):
    from collections import ChainMap
    m = ChainMap({"a": 1}, {"b": 2})
    return m.get(w[:1], 0)
@t
def f_frozenset_sets(w): return frozenset(w[:2]) in {frozenset("ab"), frozenset("cd")}
@t
def f_tuple_key(w): return {("a", "b"): 1}.get((w[:1], w[1:2]), 0), (w[:1], w[1:2]) in {("a", "b"), ("b", "b")}
@t
def f_textwrap(w): return "".join([w[i] for i in range(len(w) - 1, -1, -1)])
@t
def f_itertools_count(w):
    for i in itertools.count():
        if i >= len(w) or w[i] not in "aeiou":
            return i
@t
def f_compress(w): return list(itertools.compress(w, [c in "aeiou" for c in w])), list(itertools.starmap(operator.eq, zip(w, w[1:]))), list(itertools.filterfalse(vowel, w)), [a == b for a, b in itertools.combinations(w, 2)]

@t
def f_re7(w): return bool(re.search(r"\bb", w)), bool(re.search(r"a\B", w)), bool(re.search("^b$", w, re.M)), re.sub("(?i)A", "x", w), bool(re.match("(a)?(?(1)b|y)", w)), bool(re.match("a*+a", w)), bool(re.match("(?>a|ab)y", w)), bool(re.search("(?<=a)b|(?<!a)y", w)), bool(re.match(r"(?i)(.)\1", w))
@t
def f_re8(w): return bool(re.match("[A-E]", w, flags=re.I)), bool(re.match("[^a]", w, re.IGNORECASE)), re.split("([y'])", w), re.findall("(b)(r)?", w), re.sub(r"(.)(.)", r"\2\1", w), re.sub("y", "", w, count=1), [m.span() for m in re.finditer("", w)], re.subn("a*", "-", w)
@t
def f_setops2(w):
    s = set(w)
    s |= {"z"}
    s.discard("a")
    s -= {"b"}
    s.update("q", "r")
    t2 = s.copy()
    t2.clear()
    return sorted(s), len(t2), s > {"z"}, s.isdisjoint("ab"), s.issuperset("zq"), sorted(s.symmetric_difference("zx")), {"z"} <= s, sorted({"z", "a"} | s), sorted(s.union("m", w)), sorted({"a", "b"}.difference(w)), frozenset(w) == frozenset("ab"), sorted(set.union(set("a"), w))
@t
def f_match_more(w):
    match w[:1] == "a", w[1:2]:
        case True, "b":
            return 1
        case False, ("a" | "e") as v:
            return v
        case bool(), str(z) if z:
            return z
    return None
@t
def f_groupdict(w): return {k: "".join(v) for k, v in groupby(w, lambda c: "V" if c in "aeiou" else "C")}.get("V")
@t
def f_zipdict(w): return dict(zip("abc", w)).get("a"), dict(zip(w, "123")).get("a"), max(zip(w, range(3)), default=None)
@t
def f_namedexc(w):
    try:
        raise helpers.MyError(w, 1)
    except helpers.MyError as e:
        return e.args
@t
def f_class_in(w):
    class K:
        __match_args__ = ("x", "y")
        def __init__(self, x, y): self.x, self.y = x, y
        def __eq__(self, o): return self.x == o.x
        def __lt__(self, o): return self.x < o.x
        def __hash__(self): return hash(self.x)
        def __len__(self): return len(self.x)
        def __getitem__(self, i): return self.x[i]
        def __iter__(self): return iter(self.x)
        def __contains__(self, c): return c in self.x
        def __call__(self, c): return self.x + c
        def __repr__(self): return "K"
    k = K(w, 1)
    match k:
        case K("a", y):
            r = y
        case K(x, 1):
            r = x
    return r, k == K(w, 2), len(k), "a" in k, k("b"), list(k), sorted([K(w, 1), K("b", 1)])[0].x, str(k), k[:1] if True else 0
@t
def f_cached_prop(w):
    class K:
        def __init__(self, w): self.w = w
        @functools.cached_property
        def n(self): return self.w.count("a")
        @lru_cache
        def m(self, c): return c in self.w
        @functools.wraps(len)
        def z(self): return 1
    k = K(w)
    return k.n, k.n, k.m("a"), k.z()
@t
def f_cmpkey(w): return sorted(w, key=functools.cmp_to_key(lambda a, b: (a > b) - (a < b)))
@t
def f_intops(w):
    n = 0
    for i, c in enumerate(w):
        n = n * 3 + "aby".find(c) + 1
    n |= 1
    n <<= 1
    n ^= 2
    n //= 3
    n %= 7
    return n, bin(n), hex(n), str(n), f"{n:02d}", "%d" % n, max(n, 2), min(n, 2), sum([n, True])
@t
def f_slicing(w): return w[::2], w[::-1], w[-2:], w[:-1], w[1:-1], w[slice(0, 1)], w[5:], w[-1:] == "a"
@t
def f_try_index(w):
    out = []
    for i in (0, 1, 2):
        try:
            out.append(w[i])
        except IndexError:
            out.append(None)
            continue
        finally:
            out.append(i)
    return out
@t
def f_lists2(w):
    a = [c for c in w]
    a.sort()
    b = a[:]
    b.sort(key=lambda c: c == "a", reverse=True)
    return a, b, a == b, a < b, a + b, a.copy(), [x for x in a if x not in b[1:]], any(x in "ab" for x in a)
@t
def f_comp_walrus(w): return [y for c in w if (y := c.upper()) != "A"]
@t
def f_genexpr_sum(w): return sum(len(x) if x else 10 for x in w.split("y")), sum((1 if c in "aeiou" else 2) for c in w)
@t
def f_nested_fn_default(w):
    def f(x, acc=()):
        return acc if not x else f(x[1:], acc + (x[0],))
    return f(w)
@t
def f_multi_assign(w):
    a = b = w[:1]
    (c, d), e = (a, b), w
    x = y = 0
    for i, (p, q) in enumerate(zip(w, w)):
        x += i
        y = p == q
    return a, b, c, d, e, x, y
@t
def f_islower_map(w): return list(map(lambda a, b: a == b, w, w[1:])), list(map(None.__class__, [])), [*filter(str.isalpha, w)]
@t
def f_str_iter_index(w): return [w.index(c) for c in w], [w.rindex(c) for c in w], [w.rfind(c, 0, 2) for c in w]
@t
def f_casecmp(w): return w.lower() in ("ab", "ae"), w.casefold().startswith("a"), w.upper() == w, w.istitle() if len(w) == 1 else 0
