"""Translates the MIR of the Rust crate (written by rs/mirdump.rs) to Python, function by function, when first called.

A shared reference is its referent; a mutable one, a raw pointer and a Box are rsrt.Ref.  Structs, tuples, arrays and
Vec are lists, enums whose variants have fields rsrt.En (variant, fields), other enums the variant's number, strings
and characters str or SymStr.
"""
from . import core, rsrt

TRANSPARENT = ("Box", "Unique", "NonNull", "MaybeUninit", "ManuallyDrop", "MaybeDangling")
MAXDEPTH = 30


def short_ty(name):
    return name.split("<")[0].split("::")[-1]


class World:
    """One loaded crate."""

    def __init__(self, dump, filename="/repo/rs/"):
        self.d = dump
        self.filename = filename
        self.types = {int(k): v for k, v in dump["types"].items()}
        self.consts = dump["consts"]
        self.ns = {"R": rsrt, "W": self}
        self.statics = {}                       # values by name
        self.uses = {}
        self.forcing = []
        self.count = 0
        self.names = {}
        self.by_name = {}
        self.impls = {}
        for k, f in dump["fns"].items():
            self.by_name.setdefault(f["name"].split("::", 1)[-1] if not f["name"].startswith("<") else f["name"], k)
        for k, f in dump["fns"].items():
            n = f["name"]
            if n.startswith("<") and " as " in n and ">::" in n:
                a, b = n[1:].split(" as ", 1)
                trait, fn = b.split(">::", 1)
                a = a.split("::", 1)[-1] if a.startswith("latkerlo") else a
                self.impls.setdefault((a, trait.split("<")[0].split("::")[-1] + "::" + fn), k)
        self.adts = {}
        for i, t in self.types.items():
            if t and t["k"][0] == "adt":
                self.adts.setdefault(short_ty(t["k"][1]), t)

    # ---------------------------------------------------------------- names

    def fn(self, key):
        """Name in the namespace of a function that translates itself when called."""
        n = self.names.get(key)
        if n is None:
            n = self.names[key] = "f%d" % len(self.names)
            ns = self.ns

            def stub(*a):
                f = ns[n]
                if f is stub:
                    f = ns[n] = Fn(self, key).compile()
                return f(*a)
            ns[n] = stub
        return n

    def call(self, name, *args):
        return self.ns[self.fn(self.by_name[name])](*args)

    def get(self, name):
        """The function of that path in the crate."""
        return self.ns[self.fn(self.by_name[name])]

    def impl(self, ty, what):
        """Function implementing e.g. Display::fmt for a type of the crate."""
        k = self.impls.get((ty, what))
        return None if k is None else self.ns[self.fn(k)]

    def static(self, name):
        """The static's value; remembers which statics were computed from the dictionary."""
        short = name.rsplit("::", 1)[-1]
        for s in self.forcing:
            self.uses.setdefault(s, set()).add(short)
            for x in self.uses.get(short, ()):
                self.uses[s].add(x)
        if short not in self.statics:
            f = Fn(self, None, self.d["statics"][name]["body"], name).compile()
            self.forcing.append(short)
            try:
                v = f()
            finally:
                self.forcing.pop()
            if type(v) is rsrt.Lazy:
                v.world, v.name = self, short
            self.statics[short] = v
        return self.statics[short]

    def set_static(self, name, value):
        """Replaces a static and forgets what was computed from it."""
        for s in [s for s, u in self.uses.items() if name in u]:
            self.statics.pop(s, None)
        self.statics[name] = value

    def renew(self):
        """Forgets what calls may have stored in statics."""
        for s in [s for s, v in self.statics.items() if type(v) is rsrt.CellV or type(v) is rsrt.Lazy and v.done and type(v.v) is rsrt.CellV]:
            del self.statics[s]

    # ---------------------------------------------------------------- types

    def kind(self, t):
        return self.types[t]["k"]

    def fieldless(self, t):
        k = self.kind(t)
        return k[0] == "adt" and k[2] == "Enum" and all(not v[1] for v in k[4])

    def is_enum(self, t):
        k = self.kind(t)
        return k[0] == "adt" and k[2] == "Enum"

    def transparent(self, t):
        k = self.kind(t)
        return k[0] == "adt" and short_ty(k[1]) in TRANSPARENT

    def copied(self, t):
        """Whether copying needs a new list."""
        k = self.kind(t)
        if k[0] in ("tuple", "array"):
            return True
        return k[0] == "adt" and not self.fieldless(t) and not self.transparent(t)

    def fnval(self, t):
        """Callable of a function item's type."""
        k = self.kind(t)
        if k[0] == "closure":
            return ("clo", k[2])
        if k[0] == "fndef":
            return ("fn", k)
        return None

    def value(self, v, t):
        """Python value of a decoded constant."""
        tag = v[0]
        if tag == "int":
            n = int(v[1])
            k = self.kind(t)[0]
            return n != 0 if k == "bool" else chr(n) if k == "char" else n
        if tag == "str":
            return bytes(v[1]).decode("utf-8")
        if tag == "tuple":
            return [self.value(x, y) for x, y in zip(v[1], self.kind(t)[1])]
        if tag == "array":
            e = self.kind(t)[1]
            return [self.value(x, e) for x in v[1]]
        if tag == "slice":
            e = self.kind(self.kind(t)[1])[1]
            return [self.value(x, e) for x in v[1]]
        if tag == "ref":
            return self.value(v[1], self.kind(t)[1])
        if tag == "zst":
            f = self.fnval(t)
            if f:
                if f[0] == "clo":
                    return rsrt.Clo(self.ns[self.fn(f[1]["key"])], [])
                return self.fnitem(f[1])
            k = self.kind(t)
            if k[0] == "adt" and k[2] == "Struct":
                return []
            return []
        if tag == "static":
            return self.static(v[1])
        if tag == "fnptr":
            return self.ns[self.fn(v[1]["key"])]
        if tag == "adt":
            k = self.kind(t)
            if k[2] == "Enum":
                if self.fieldless(t):
                    return v[1]
                fs = k[4][v[1]][1]
                return rsrt.En([v[1]] + [self.value(x, f[1]) for x, f in zip(v[2], fs)])
            name = short_ty(k[1])
            if name == "Vec":
                return []
            if name == "String":
                return ""
            if not k[4]:
                raise core.EngineError("Rust constant of type " + k[1])
            return [self.value(x, f[1]) for x, f in zip(v[2], k[4][0][1])]
        raise core.EngineError("Rust constant " + tag)

    def fnitem(self, k):
        """Value of a function item."""
        inst = k[3]
        if inst is None:
            raise core.EngineError("Rust function " + k[1])
        if inst["key"] in self.d["fns"] and not self.modelled(inst):
            return self.ns[self.fn(inst["key"])]
        m = rsrt.MODELS.get(inst["short"])
        if m is None and inst["kind"] == "shim" or m is None:
            # constructors of tuple structs and variants
            c = self.ctor(k)
            if c:
                return c
            raise core.EngineError("Rust function " + k[1])
        if m in rsrt.TYPED:
            # the result type is not known here; the arguments of the item are
            return lambda *a: m(self, (None, [x for x in k[2]]), *a)
        return m

    def modelled(self, inst):
        return not inst["local"] and inst["short"] in rsrt.MODELS

    def ctor(self, k):
        """Constructor function such as Some or a tuple struct."""
        path = k[1].split("::")
        for t in self.types.values():
            if t and t["k"][0] == "adt":
                for i, v in enumerate(t["k"][4]):
                    if v[0].split("::")[-1] == path[-1] and short_ty(t["k"][1]) in (path[-2:-1] + path[-1:])[0:2]:
                        if t["k"][2] == "Enum":
                            return lambda *a, _i=i: rsrt.En((_i,) + a)
                        return lambda *a: list(a)
        return None

    def closure_ty(self, t):
        return self.kind(t)[2]


BIN = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}


class Fn:
    def __init__(self, w, key, body=None, name=None):
        self.w = w
        if body is None:
            f = w.d["fns"][key]
            body = f["body"]
            name = f["name"]
            self.file = f["file"]
        else:
            self.file = "static"
        self.b = body
        self.name = name

    def ty(self, local):
        return self.b["locals"][local]["ty"]

    # ---------------------------------------------------------------- places

    def local(self, n):
        return "_%d[0]" % n if n in self.cells else "_%d" % n

    def walk(self, place):
        """[(kind, index, type before)], type of the place; transparent fields left out."""
        t = self.ty(place["local"])
        steps = []
        down = None
        for p in place["projection"]:
            if p == "Deref":
                k = self.w.kind(t)
                if k[0] == "ref":
                    steps.append(("set" if k[2] else "same", None))
                    t = k[1]
                elif k[0] == "ptr":
                    steps.append(("set", None))
                    t = k[1]
                elif k[0] == "adt" and short_ty(k[1]) == "Box":
                    steps.append(("set", None))
                    t = k[3][0]
                else:
                    raise core.EngineError("Rust deref of " + str(k))
                down = None
                continue
            (k, v), = p.items()
            if k == "Field":
                if not self.w.transparent(t):
                    steps.append(("f", str(v[0] + (1 if down is not None else 0))))
                t = v[1]
                down = None
            elif k == "Downcast":
                down = v
            elif k == "Index":
                steps.append(("i", self.local(v)))
                t = self.w.kind(t)[1]
            elif k == "ConstantIndex":
                steps.append(("f", str(-v["offset"] if v["from_end"] else v["offset"])))
                t = self.w.kind(t)[1]
            elif k == "Subslice":
                steps.append(("s", "%d:%s" % (v["from"], ("-%d" % v["to"] if v["to"] else "") if v["from_end"] else v["to"])))
            else:
                raise core.EngineError("Rust projection " + k)
        return steps, t

    @staticmethod
    def apply(base, steps):
        e = base
        for k, v in steps:
            if k == "same":
                continue
            e = e + ".get()" if k == "set" else "%s[%s]" % (e, v)
        return e

    def read(self, place):
        steps, t = self.walk(place)
        return self.apply(self.local(place["local"]), steps), t

    def assign(self, place, value):
        steps, _ = self.walk(place)
        while steps and steps[-1][0] == "same":
            steps.pop()
        base = self.local(place["local"])
        if not steps:
            return "%s = %s" % (base, value)
        rest = self.apply(base, steps[:-1])
        k, v = steps[-1]
        if k == "set":
            return "%s.set(%s)" % (rest, value)
        return "%s[%s] = %s" % (rest, v, value)

    def mutref(self, place):
        steps, _ = self.walk(place)
        while steps and steps[-1][0] == "same":
            steps.pop()
        n = place["local"]
        if not steps:
            if n not in self.cells:     # a shared reference's referent
                return self.local(n)
            return "R.Ref(_%d, 0)" % n
        rest = self.apply(self.local(n), steps[:-1])
        k, v = steps[-1]
        if k == "set":
            return rest
        if k == "s":
            return "R.SliceRef(%s, slice(%s))" % (rest, v.replace(":", ", ") if not v.endswith(":") else v[:-1] + ", None")
        return "R.Ref(%s, %s)" % (rest, v)

    # ---------------------------------------------------------------- operands

    def const(self, c):
        v = self.w.consts[str(c["id"])]["v"]
        t = c["ty"]
        if v[0] == "int":
            return repr(self.w.value(v, t))
        if v[0] == "str":
            return repr(self.w.value(v, t))
        if v[0] == "static":
            return "W.static(%r)" % v[1]
        if v[0] in ("zst", "fnptr") or self.w.kind(t)[0] == "ref":      # promoted, never written to
            return self.shared(self.w.value(v, t))
        if v[0] == "adt" and self.w.fieldless(t):
            return repr(v[1])
        return "R.copy(%s)" % self.shared(self.w.value(v, t))

    def shared(self, value):
        """Name of a global holding it."""
        self.w.count += 1
        n = "k%d" % self.w.count
        self.w.ns[n] = value
        return n

    def operand(self, o):
        (k, v), = o.items()
        if k == "Constant":
            return self.const(v["const_"])
        if k in ("RuntimeChecks",):
            return "False"
        e, t = self.read(v)
        if k == "Copy" and self.w.copied(t):
            return "R.copy(%s)" % e
        return e

    def otype(self, o):
        (k, v), = o.items()
        if k == "Constant":
            return v["const_"]["ty"]
        return self.walk(v)[1]

    # ---------------------------------------------------------------- rvalues

    def rvalue(self, r, dest):
        if isinstance(r, str):
            raise core.EngineError("Rust rvalue " + r)
        (k, v), = r.items()
        w = self.w
        if k == "Use":
            return self.operand(v[0])
        if k == "CopyForDeref":
            return self.read(v)[0]
        if k == "Ref":
            kind, place = v[1], v[2]
            if kind == "Shared" or "Fake" in str(kind):
                return self.read(place)[0]
            return self.mutref(place)
        if k == "AddressOf":
            if v[0] in ("FakeForPtrMetadata", "Const"):
                return self.read(v[1])[0]
            return self.mutref(v[1])
        if k == "BinaryOp":
            op, a, b = v
            x, y = self.operand(a), self.operand(b)
            if op in BIN:
                return "%s %s %s" % (x, BIN[op], y)
            if op == "Eq":
                return "R.eq(%s, %s)" % (x, y)
            if op == "Ne":
                return "R.ne(%s, %s)" % (x, y)
            kd = w.kind(self.otype(a))
            return "R.bin_%s(%s, %s, %r)" % (op.lower(), x, y, self.width(kd))
        if k == "CheckedBinaryOp":
            op, a, b = v
            return "R.chk_%s(%s, %s, %r)" % (op.lower(), self.operand(a), self.operand(b), self.width(w.kind(self.otype(a))))
        if k == "UnaryOp":
            op, a = v
            x = self.operand(a)
            kd = w.kind(self.otype(a))
            if op == "Not":
                return "R.not_(%s)" % x if kd[0] == "bool" else "R.inv(%s, %r)" % (x, self.width(kd))
            if op == "Neg":
                return "-(%s)" % x
            if op == "PtrMetadata":
                return "R.length(%s)" % x
            raise core.EngineError("Rust operator " + op)
        if k == "Cast":
            kind, o, t = v
            x = self.operand(o)
            if kind == "IntToInt":
                return "R.cast(%s, %r, %r)" % (x, self.width(w.kind(self.otype(o))), self.width(w.kind(t)))
            if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype"):
                return x
            if kind in ("FloatToInt",):
                return "int(%s)" % x
            if kind in ("IntToFloat", "FloatToFloat"):
                return "float(%s)" % x
            if isinstance(kind, dict):
                return x                # pointer coercions
            raise core.EngineError("Rust cast " + str(kind))
        if k == "Discriminant":
            e, t = self.read(v)
            kd = w.kind(t)
            if kd[0] == "adt" and kd[2] == "Enum":
                ds = [None if x[2] is None else int(x[2]) for x in kd[4]]
                e = e if w.fieldless(t) else e + "[0]"
                if ds != list(range(len(ds))):
                    return "R.table(%s, %r)" % (e, ds)
                return e
            return "0"
        if k == "Len":
            return "R.length(%s)" % self.read(v)[0]
        if k == "Repeat":
            n = v[1]
            t = self.walk(dest)[1]
            return "R.repeat(%s, %r)" % (self.operand(v[0]), w.kind(t)[2])
        if k == "Aggregate":
            kind, fs = v
            xs = [self.operand(f) for f in fs]
            if kind == "Tuple" or isinstance(kind, dict) and "Array" in kind:
                return "[%s]" % ", ".join(xs)
            t = self.walk(dest)[1]
            if isinstance(kind, dict) and "Closure" in kind:
                kd = w.kind(t)
                if kd[0] != "closure" or kd[2] is None:
                    raise core.EngineError("Rust closure")
                return "R.Clo(%s, [%s])" % (w.fn(kd[2]["key"]), ", ".join(xs))
            if isinstance(kind, dict) and "Adt" in kind:
                kd = w.kind(t)
                variant = kind["Adt"][1]
                if kd[2] == "Enum":
                    if w.fieldless(t):
                        return str(variant)
                    return "R.En((%s,))" % ", ".join([str(variant)] + xs)
                if kd[2] == "Union" or w.transparent(t):
                    return xs[-1]
                n = short_ty(kd[1])
                if not kd[5] and "Range" in n:
                    return "R.Rng(%r, [%s])" % (n, ", ".join(xs))
                return "[%s]" % ", ".join(xs)
            if isinstance(kind, dict) and "RawPtr" in kind:
                return xs[0]
        if k == "ShallowInitBox":
            return self.operand(v[0])
        if k == "ThreadLocalRef":
            raise core.EngineError("Rust thread local")
        raise core.EngineError("Rust rvalue " + k)

    @staticmethod
    def width(k):
        return (k[1], k[0] == "int") if k[0] in ("int", "uint") else k[0]

    # ---------------------------------------------------------------- blocks

    def find_cells(self):
        self.cells = set()
        for bl in self.b["blocks"]:
            for s in bl["statements"]:
                k = s["kind"]
                if not isinstance(k, dict) or "Assign" not in k:
                    continue
                r = k["Assign"][1]
                if not isinstance(r, dict):
                    continue
                place = None
                if "Ref" in r and r["Ref"][1] != "Shared" and "Fake" not in str(r["Ref"][1]):
                    place = r["Ref"][2]
                elif "AddressOf" in r and r["AddressOf"][0] == "Mut":
                    place = r["AddressOf"][1]
                if place is not None:
                    steps, _ = self.walk0(place)
                    if all(x == "same" for x in steps):
                        if not (place["projection"] and self.w.kind(self.ty(place["local"]))[0] == "ref"
                                and "Deref" in place["projection"]):
                            self.cells.add(place["local"])

    def walk0(self, place):
        self.cells = getattr(self, "cells", set())
        steps, t = self.walk(place)
        return [k for k, _ in steps], t

    def succ(self, t):
        if isinstance(t, str):
            return []
        (k, v), = t.items()
        if k in ("Goto",):
            return [v["target"]]
        if k == "SwitchInt":
            return [x[1] for x in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
        if k in ("Drop", "Assert"):
            return [v["target"]]
        if k == "Call":
            return [] if v["target"] is None else [v["target"]]
        return []

    def compile(self):
        self.find_cells()
        blocks = self.b["blocks"]
        # empty blocks that only jump
        self.fwd = {}

        def final(i):
            seen = set()
            while i not in seen:
                seen.add(i)
                t = blocks[i]["terminator"]["kind"]
                if blocks[i]["statements"] or not isinstance(t, dict):
                    break
                (k, v), = t.items()
                if k not in ("Goto", "Drop"):
                    break
                i = v["target"]
            return i
        for i in range(len(blocks)):
            self.fwd[i] = final(i)
        # a return that only loads a constant is repeated rather than jumped to
        preds = {}
        reach = []
        seen = {self.fwd[0]}
        todo = [self.fwd[0]]
        while todo:
            i = todo.pop()
            reach.append(i)
            for s in self.succ(blocks[i]["terminator"]["kind"]):
                s = self.fwd[s]
                preds[s] = preds.get(s, 0) + 1
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        preds[self.fwd[0]] = preds.get(self.fwd[0], 0) + 1
        self.labels = set()
        for i in reach:
            if preds[i] > 1 and not self.tiny(i):
                self.labels.add(i)
        self.labels.add(self.fwd[0])
        self.queue = [self.fwd[0]]
        self.done = []
        bodies = {}
        while self.queue:
            i = self.queue.pop()
            if i in bodies:
                continue
            self.lines = []
            self.block(i, 0)
            bodies[i] = self.lines
        n = self.b["arg_count"]
        src = ["def rs(%s):" % ", ".join("_%d" % i for i in range(1, n + 1))]
        for i in sorted(self.cells):
            src.append("    _%d = [%s]" % (i, "_%d" % i if 1 <= i <= n else "None"))
        order = [self.fwd[0]] + sorted(x for x in bodies if x != self.fwd[0])
        num = {b: i for i, b in enumerate(order)}
        if len(order) == 1 and not any("goto" in x[1] for x in bodies[order[0]]):
            for d, l in bodies[order[0]]:
                src.append("    " + "    " * d + l)
        else:
            src.append("    _b = 0")
            src.append("    while True:")
            self.tree(src, [(num[b], bodies[b]) for b in order], 2, num)
        text = "\n".join(src)
        self.text = text
        fname = self.file
        fname = self.w.filename + fname if not fname.startswith("/") else fname
        ns = self.w.ns
        pre = self.name.split("::")[-1] if not self.name.startswith("<") else self.name
        code = compile(text, fname, "exec")
        code = code.replace(co_consts=tuple(c.replace(co_name=pre) if hasattr(c, "co_name") else c for c in code.co_consts))
        loc = {}
        exec(code, ns, loc)
        return loc["rs"]

    def tiny(self, i):
        bl = self.b["blocks"][i]
        return len(bl["statements"]) <= 1 and bl["terminator"]["kind"] == "Return"

    def tree(self, src, items, depth, num):
        pad = "    " * depth
        if len(items) == 1:
            for d, l in items[0][1]:
                if l.startswith("goto "):
                    t = int(l[5:])
                    src.append(pad + "    " * d + "_b = %d" % num[t])
                    src.append(pad + "    " * d + "continue")
                else:
                    src.append(pad + "    " * d + l)
            return
        m = len(items) // 2
        src.append(pad + "if _b < %d:" % items[m][0])
        self.tree(src, items[:m], depth + 1, num)
        src.append(pad + "else:")
        self.tree(src, items[m:], depth + 1, num)

    def emit(self, d, l):
        self.lines.append((d, l))

    def jump(self, i, d):
        i = self.fwd[i]
        if i in self.labels or d > MAXDEPTH:
            self.labels.add(i)
            self.queue.append(i)
            self.emit(d, "goto %d" % i)
        else:
            self.block(i, d)

    def block(self, i, d):
        while True:
            bl = self.b["blocks"][i]
            for s in bl["statements"]:
                k = s["kind"]
                if isinstance(k, str):
                    continue
                if "Assign" in k:
                    place, r = k["Assign"]
                    try:
                        v = self.rvalue(r, place)
                    except core.EngineError as e:
                        self.emit(d, "raise R.unsupported(%r)" % str(e))
                        return
                    self.emit(d, self.assign(place, v))
                elif "SetDiscriminant" in k:
                    self.emit(d, "raise R.unsupported('SetDiscriminant')")
                    return
            t = bl["terminator"]["kind"]
            nxt = self.term(t, d)
            if nxt is None:
                return
            nxt = self.fwd[nxt]
            if nxt in self.labels:
                self.queue.append(nxt)
                self.emit(d, "goto %d" % nxt)
                return
            i = nxt

    def term(self, t, d):
        if t == "Return":
            self.emit(d, "return " + (self.local(0) if self.w.kind(self.ty(0)) != ["tuple", []] else "R.UNIT"))
            return None
        if t in ("Unreachable", "Resume", "Abort"):
            self.emit(d, "raise R.unsupported('unreachable')")
            return None
        (k, v), = t.items()
        if k in ("Goto", "Drop"):
            return v["target"]
        if k == "Assert":
            c = self.operand(v["cond"])
            msg = v["msg"]
            what = msg if isinstance(msg, str) else next(iter(msg))
            if what in ("MisalignedPointerDereference", "NullPointerDereference"):
                return v["target"]
            self.emit(d, "if %s%s: raise R.Panic(%r)" % ("" if not v["expected"] else "not ", c if not v["expected"] else "(%s)" % c, what))
            return v["target"]
        if k == "SwitchInt":
            o = v["discr"]
            kd = self.w.kind(self.otype(o))
            x = self.operand(o)
            br = v["targets"]["branches"]
            other = v["targets"]["otherwise"]
            unreachable = self.b["blocks"][self.fwd[other]]["terminator"]["kind"] == "Unreachable" and not self.b["blocks"][self.fwd[other]]["statements"]
            if kd[0] == "bool":
                if len(br) == 1:
                    yes, no = (other, br[0][1]) if br[0][0] == 0 else (br[0][1], other)
                else:
                    m = dict((a, b) for a, b in br)
                    yes, no = m[1], m[0]
                self.emit(d, "if %s:" % x)
                self.jump(yes, d + 1)
                return no
            if unreachable and len(br) > 1:
                br, other = br[:-1], br[-1][1]
            if len(br) > 1:
                self.emit(d, "_s = %s" % x)
                x = "_s"
            for val, target in br:
                if kd[0] == "char":
                    y = repr(chr(val))
                elif kd[0] == "int" and val >> (kd[1] - 1) & 1:
                    y = repr(val - (1 << kd[1]))
                else:
                    y = repr(val)
                self.emit(d, "if %s == %s:" % (x, y))
                self.jump(target, d + 1)
            return other
        if k == "Call":
            self.call(v, d)
            return v["target"]
        self.emit(d, "raise R.unsupported(%r)" % k)
        return None

    def call(self, v, d):
        w = self.w
        f = v["func"]
        args = [self.operand(a) for a in v["args"]]
        dest = v["destination"]
        rt = self.walk(dest)[1]
        at = [self.otype(a) for a in v["args"]]

        def put(e):
            if v["target"] is None or w.kind(rt)[0] == "never":
                self.emit(d, e)
                self.emit(d, "raise R.Panic('diverges')")
            elif w.kind(rt) == ["tuple", []]:
                self.emit(d, e)
            else:
                self.emit(d, self.assign(dest, e))
        if "Constant" not in f:
            put("R.call(%s)" % ", ".join([self.operand(f)] + args))
            return
        k = w.kind(f["Constant"]["const_"]["ty"])
        if k[0] != "fndef":
            put("R.call(%s)" % ", ".join([self.operand(f)] + args))
            return
        name = k[1].split("::")[-1]
        if name in ("call", "call_mut", "call_once") and ("Fn::" in k[1] or "FnMut::" in k[1] or "FnOnce::" in k[1]):
            put("R.call(%s, *%s)" % (args[0], args[1]))
            return
        inst = k[3]
        if inst is None:
            put("R.missing(%r)" % k[1])
            return
        if inst["local"] and inst["key"] in w.d["fns"]:
            put("%s(%s)" % (w.fn(inst["key"]), ", ".join(args)))
            return
        short = inst["short"]
        m = rsrt.MODELS.get(short)
        if m is not None:
            n = "m_" + "".join(c if c.isalnum() else "_" for c in short)
            w.ns[n] = m
            if m in rsrt.TYPED:
                tn = self.shared((rt, at, k[2]))
                put("%s(W, %s)" % (n, ", ".join([tn] + args)))
            else:
                put("%s(%s)" % (n, ", ".join(args)))
            return
        if inst["key"] in w.d["fns"]:
            put("%s(%s)" % (w.fn(inst["key"]), ", ".join(args)))
            return
        c = w.ctor(k)
        if c is not None:
            n = self.shared(c)
            put("%s(%s)" % (n, ", ".join(args)))
            return
        put("R.missing(%r)" % (short + " (" + k[1] + ")"))
