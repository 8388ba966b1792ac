"""JavaScript (ESTree, from acorn) to Python source that runs on /verif/engine/jsrt.py.

Every operation whose meaning differs between the two languages becomes a call into jsrt; statements map one to one.
Nothing about the code is assumed beyond it being plain synchronous JavaScript.
"""


class Unsupported(Exception):
    pass


BOOLISH = {"===", "!==", "==", "!=", "<", "<=", ">", ">=", "instanceof", "in"}
OPS = {"+": "_rt.add(%s, %s)", "-": "_rt.sub(%s, %s)", "*": "_rt.mul(%s, %s)", "/": "_rt.div(%s, %s)", "%": "_rt.mod(%s, %s)",
       "**": "_rt.pow(%s, %s)", "===": "_rt.seq(%s, %s)", "!==": "_rt.not_(_rt.seq(%s, %s))", "==": "_rt.leq(%s, %s)",
       "!=": "_rt.not_(_rt.leq(%s, %s))", "<": "_rt.lt(%s, %s)", "<=": "_rt.le(%s, %s)", ">": "_rt.gt(%s, %s)",
       ">=": "_rt.ge(%s, %s)", "instanceof": "_rt.instanceof(%s, %s)", "in": "_rt.has(%s, %s)", "&": "_rt.bits('&', %s, %s)",
       "|": "_rt.bits('|', %s, %s)", "^": "_rt.bits('^', %s, %s)", "<<": "_rt.bits('<<', %s, %s)", ">>": "_rt.bits('>>', %s, %s)",
       ">>>": "_rt.bits('>>>', %s, %s)"}


def names_in(p):
    """Identifiers bound by a pattern."""
    t = p["type"]
    if t == "Identifier":
        return [p["name"]]
    if t == "ArrayPattern":
        return [n for e in p["elements"] if e for n in names_in(e)]
    if t == "ObjectPattern":
        return [n for e in p["properties"] for n in names_in(e["argument"] if e["type"] == "RestElement" else e["value"])]
    if t == "AssignmentPattern":
        return names_in(p["left"])
    if t == "RestElement":
        return names_in(p["argument"])
    if t == "MemberExpression":
        return []
    raise Unsupported(t)


FN = ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression")


def children(n):
    for k, v in n.items():
        if isinstance(v, dict) and "type" in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "type" in x:
                    yield x


def var_names(n, top=True):
    """Names declared by `var` in a function body (not in nested functions)."""
    out = []
    if n["type"] in FN or n["type"] == "ClassBody":
        return out
    if n["type"] == "VariableDeclaration" and n["kind"] == "var":
        for d in n["declarations"]:
            out += names_in(d["id"])
    for c in children(n):
        out += var_names(c, False)
    return out


def lexical(body):
    """Names a block declares itself: let, const, class, function."""
    out = []
    for s in body:
        if s["type"] == "VariableDeclaration" and s["kind"] != "var":
            for d in s["declarations"]:
                out += names_in(d["id"])
        elif s["type"] in ("FunctionDeclaration", "ClassDeclaration"):
            out.append(s["id"]["name"])
    return out


class Fn:
    """A Python function being written."""

    def __init__(self, parent):
        self.parent = parent
        self.outer = set()
        self.used = set()


class Translator:
    def __init__(self):
        self.n = 0
        self.lines = []
        self.ind = 0
        self.scopes = []            # list of {js name: (py name, Fn)}
        self.fn = None
        self.ctl = []               # break/continue targets
        self.in_class = 0
        self.direct = set()         # names of function declarations

    # -------------------------------------------------------------- output

    def out(self, s):
        self.lines.append("    " * self.ind + s)

    def tmp(self, p="_t"):
        self.n += 1
        return "%s%d" % (p, self.n)

    # -------------------------------------------------------------- scopes

    def declare(self, name):
        sc = self.scopes[-1]
        if name in sc and sc[name][1] is self.fn:
            return sc[name][0]
        if self.fn is None:
            py = "g_" + name.replace("$", "_S")
        else:
            self.n += 1
            py = "%s_%d" % (name.replace("$", "_S"), self.n)
        sc[name] = (py, self.fn)
        return py

    def lookup(self, name):
        for sc in reversed(self.scopes):
            if name in sc:
                return sc[name]
        return None

    def load(self, name):
        r = self.lookup(name)
        if r is None:
            if name == "undefined":
                return "None"
            return "_rt.glob(%r)" % name
        return r[0]

    def store(self, name):
        r = self.lookup(name)
        if r is None:
            raise Unsupported("assignment to undeclared " + name)
        py, fn = r
        if fn is not self.fn:
            f = self.fn
            f.outer.add((py, fn is None))
        return py

    # --------------------------------------------------------- expressions

    def cond(self, n):
        if self.boolish(n):
            return self.ex(n)
        return "_rt.truth(%s)" % self.ex(n)

    def boolish(self, n):
        t = n["type"]
        if t == "BinaryExpression":
            return n["operator"] in BOOLISH
        if t == "UnaryExpression":
            return n["operator"] == "!"
        if t == "LogicalExpression":
            return n["operator"] != "??" and self.boolish(n["left"]) and self.boolish(n["right"])
        if t == "Literal":
            return isinstance(n.get("value"), bool)
        return False

    def ex(self, n):
        m = getattr(self, "x_" + n["type"], None)
        if m is None:
            raise Unsupported(n["type"])
        return m(n)

    def x_ParenthesizedExpression(self, n):
        return self.ex(n["expression"])

    def x_Identifier(self, n):
        return self.load(n["name"])

    def x_Literal(self, n):
        if n.get("regex"):
            return "_rt.Regex(%r, %r)" % (n["regex"]["pattern"], n["regex"]["flags"])
        v = n["value"]
        if v is None:
            return "_rt.NULL"
        return repr(v)

    def x_TemplateLiteral(self, n):
        parts = []
        for i, q in enumerate(n["quasis"]):
            if q["value"]["cooked"]:
                parts.append(repr(q["value"]["cooked"]))
            if i < len(n["expressions"]):
                parts.append(self.ex(n["expressions"][i]))
        return "_rt.tpl(%s)" % ", ".join(parts)

    def x_ThisExpression(self, n):
        if not self.in_class:
            raise Unsupported("this outside a class")
        return "self"

    def x_ArrayExpression(self, n):
        return "[%s]" % ", ".join("None" if e is None else self.arg(e) for e in n["elements"])

    def arg(self, e):
        if e["type"] == "SpreadElement":
            return "*_rt.it(%s)" % self.ex(e["argument"])
        return self.ex(e)

    def args(self, xs):
        return ", ".join(self.arg(x) for x in xs)

    def x_ObjectExpression(self, n):
        parts = []
        for p in n["properties"]:
            if p["type"] == "SpreadElement":
                parts.append("**_rt.props(%s)" % self.ex(p["argument"]))
                continue
            if p["kind"] != "init":
                raise Unsupported("accessor")
            parts.append("%s: %s" % (self.key(p), self.ex(p["value"])))
        return "_rt.Obj({%s})" % ", ".join(parts)

    def key(self, p):
        k = p["key"]
        if p.get("computed"):
            return "_rt.key(%s)" % self.ex(k)
        if k["type"] == "Identifier":
            return repr(k["name"])
        return "_rt.key(%r)" % (k["value"],)

    def x_UnaryExpression(self, n):
        op, a = n["operator"], n["argument"]
        if op == "typeof":
            if a["type"] == "Identifier" and self.lookup(a["name"]) is None and a["name"] != "undefined":
                return "_rt.typeof_glob(%r)" % a["name"]
            return "_rt.typeof(%s)" % self.ex(a)
        if op == "!":
            return "_rt.not_(%s)" % self.ex(a)
        if op == "-":
            return "_rt.neg(%s)" % self.ex(a)
        if op == "+":
            return "_rt.num(%s)" % self.ex(a)
        if op == "void":
            return "_rt.void(%s)" % self.ex(a)
        if op == "~":
            return "_rt.bits('~', %s, 0)" % self.ex(a)
        if op == "delete" and a["type"] == "MemberExpression":
            return "_rt.delete(%s, %s)" % (self.ex(a["object"]), self.prop(a))
        raise Unsupported(op)

    def x_BinaryExpression(self, n):
        return OPS[n["operator"]] % (self.ex(n["left"]), self.ex(n["right"]))

    def x_LogicalExpression(self, n):
        op = n["operator"]
        if op != "??" and self.boolish(n["left"]):
            return "(%s %s %s)" % (self.ex(n["left"]), "and" if op == "&&" else "or", self.ex(n["right"]))
        t = self.tmp()
        l = self.ex(n["left"])
        r = self.ex(n["right"])
        if op == "??":
            return "(%s if _rt.nullish((%s := %s)) else %s)" % (r, t, l, t)
        if op == "&&":
            return "(%s if _rt.truth((%s := %s)) else %s)" % (r, t, l, t)
        return "(%s if _rt.truth((%s := %s)) else %s)" % (t, t, l, r)

    def x_ConditionalExpression(self, n):
        c = self.cond(n["test"])
        return "(%s if %s else %s)" % (self.ex(n["consequent"]), c, self.ex(n["alternate"]))

    def x_SequenceExpression(self, n):
        return "_rt.last(%s)" % ", ".join(self.ex(e) for e in n["expressions"])

    def prop(self, m):
        if m["computed"]:
            return self.ex(m["property"])
        if m["property"]["type"] == "PrivateIdentifier":
            return repr("#" + m["property"]["name"])
        return repr(m["property"]["name"])

    def x_MemberExpression(self, n):
        if n["object"]["type"] == "Super":
            raise Unsupported("super member")
        o = self.ex(n["object"])
        if n.get("optional"):
            t = self.tmp()
            return "(None if _rt.nullish((%s := %s)) else _rt.get(%s, %s))" % (t, o, t, self.prop(n))
        return "_rt.get(%s, %s)" % (o, self.prop(n))

    def x_ChainExpression(self, n):
        return self.ex(n["expression"])

    def x_CallExpression(self, n):
        c = n["callee"]
        a = self.args(n["arguments"])
        if c["type"] == "Super":
            return "super().__init__(%s)" % a
        if c["type"] == "MemberExpression":
            if c["object"]["type"] == "Super":
                return "super().%s(%s)" % (c["property"]["name"], a)
            o = self.ex(c["object"])
            if c.get("optional"):
                t = self.tmp()
                return "(None if _rt.nullish((%s := %s)) else _rt.call(%s, %s%s))" % (t, o, t, self.prop(c), ", " + a if a else "")
            return "_rt.call(%s, %s%s)" % (o, self.prop(c), ", " + a if a else "")
        f = self.ex(c)
        if n.get("optional"):
            t = self.tmp()
            return "(None if _rt.nullish((%s := %s)) else %s(%s))" % (t, f, t, a)
        if c["type"] == "Identifier" and f in self.direct:
            return "%s(%s)" % (f, a)
        return "_rt.callv(%s%s)" % (f, ", " + a if a else "")

    def x_NewExpression(self, n):
        a = self.args(n["arguments"])
        return "_rt.new(%s%s)" % (self.ex(n["callee"]), ", " + a if a else "")

    def x_AssignmentExpression(self, n):
        op, l = n["operator"], n["left"]
        if l["type"] in ("ArrayPattern", "ObjectPattern"):
            # as an expression: through a helper statement is impossible, so use nested walruses
            t = self.tmp()
            parts = ["(%s := %s)" % (t, self.ex(n["right"]))]
            self.pattern(l, t, lambda py, v: parts.append("(%s := %s)" % (py, v)), self.store,
                         lambda o, k, v: parts.append("_rt.put(%s, %s, %s)" % (o, k, v)))
            return "_rt.last(%s, %s)" % (", ".join(parts), t)
        if l["type"] == "Identifier":
            cur = self.load(l["name"])
            py = self.store(l["name"])
            if op == "=":
                return "(%s := %s)" % (py, self.ex(n["right"]))
            if op in ("||=", "&&=", "??="):
                test = {"||=": "_rt.not_(%s)", "&&=": "_rt.truth(%s)", "??=": "_rt.nullish(%s)"}[op] % cur
                return "((%s := %s) if %s else %s)" % (py, self.ex(n["right"]), test, cur)
            return "(%s := %s)" % (py, OPS[op[:-1]] % (cur, self.ex(n["right"])))
        if l["type"] == "MemberExpression":
            if op == "=":
                return "_rt.put(%s, %s, %s)" % (self.ex(l["object"]), self.prop(l), self.ex(n["right"]))
            o, k = self.tmp(), self.tmp()
            get = "_rt.get((%s := %s), (%s := %s))" % (o, self.ex(l["object"]), k, self.prop(l))
            if op in ("||=", "&&=", "??="):
                v = self.tmp()
                test = {"||=": "_rt.not_((%s := %s))", "&&=": "_rt.truth((%s := %s))", "??=": "_rt.nullish((%s := %s))"}[op] % (v, get)
                return "(_rt.put(%s, %s, %s) if %s else %s)" % (o, k, self.ex(n["right"]), test, v)
            return "_rt.putl(%s, %s, %s)" % (OPS[op[:-1]] % (get, self.ex(n["right"])), o, k)
        raise Unsupported("assignment to " + l["type"])

    def x_UpdateExpression(self, n):
        a = n["argument"]
        fn = "_rt.add(%s, 1)" if n["operator"] == "++" else "_rt.sub(%s, 1)"
        if a["type"] == "Identifier":
            cur, py = self.load(a["name"]), self.store(a["name"])
            if n["prefix"]:
                return "(%s := %s)" % (py, fn % cur)
            return "_rt.first(%s, (%s := %s))" % (cur, py, fn % cur)
        if a["type"] == "MemberExpression":
            o, k, v = self.tmp(), self.tmp(), self.tmp()
            get = "(%s := _rt.get((%s := %s), (%s := %s)))" % (v, o, self.ex(a["object"]), k, self.prop(a))
            put = "_rt.put(%s, %s, %s)" % (o, k, fn % v)
            return "_rt.%s(%s, %s)" % ("last" if n["prefix"] else "first", get, put)
        raise Unsupported("update")

    def x_YieldExpression(self, n):
        v = "None" if n["argument"] is None else self.ex(n["argument"])
        return "(yield from _rt.it(%s))" % v if n["delegate"] else "(yield %s)" % v

    def x_FunctionExpression(self, n):
        py = self.tmp("f_" + (n["id"]["name"] if n.get("id") else ""))
        if n.get("id") and n["type"] == "FunctionExpression":
            self.scopes.append({n["id"]["name"]: (py, self.fn)})
            self.function(n, py)
            self.scopes.pop()
            return py
        return self.function(n, py)

    x_ArrowFunctionExpression = x_FunctionExpression

    def x_ClassExpression(self, n):
        py = self.tmp("c_")
        self.klass(n, py)
        return py

    # ------------------------------------------------------------ patterns

    def pattern(self, p, v, emit, target, put=None):
        """Binds pattern p to the Python expression v (a plain name or a cheap expression)."""
        t = p["type"]
        if t == "Identifier":
            emit(target(p["name"]), v)
        elif t == "MemberExpression":
            (put or (lambda o, k, v: self.out("_rt.put(%s, %s, %s)" % (o, k, v))))(self.ex(p["object"]), self.prop(p), v)
        elif t == "AssignmentPattern":
            x = self.tmp()
            emit(x, v)
            self.pattern(p["left"], "(%s if %s is not None else %s)" % (x, x, self.ex(p["right"])), emit, target, put)
        elif t == "ArrayPattern":
            x = self.tmp()
            emit(x, "_rt.arr(%s)" % v)
            for i, e in enumerate(p["elements"]):
                if e is None:
                    continue
                if e["type"] == "RestElement":
                    self.pattern(e["argument"], "%s[%d:]" % (x, i), emit, target, put)
                else:
                    self.pattern(e, "_rt.get(%s, %d)" % (x, i), emit, target, put)
        elif t == "ObjectPattern":
            x = self.tmp()
            emit(x, "_rt.obj(%s)" % v)
            seen = []
            for e in p["properties"]:
                if e["type"] == "RestElement":
                    self.pattern(e["argument"], "_rt.rest(%s, [%s])" % (x, ", ".join(seen)), emit, target, put)
                else:
                    k = self.key(e)
                    seen.append(k)
                    self.pattern(e["value"], "_rt.get(%s, %s)" % (x, k), emit, target, put)
        else:
            raise Unsupported(t)

    def assign_out(self, py, v):
        self.out("%s = %s" % (py, v))

    # ----------------------------------------------------------- functions

    def function(self, n, py, method=False, static=False):
        if n.get("async"):
            raise Unsupported("async")
        saved = self.lines, self.ind, self.fn, self.ctl, self.in_class
        fn = Fn(self.fn)
        self.fn = fn
        self.ctl = []
        if n["type"] != "ArrowFunctionExpression" and not method:
            self.in_class = 0
        head_ind = self.ind
        self.lines = []
        self.ind = head_ind + 1
        self.scopes.append({})
        params, later = [], []
        rest = None
        for i, p in enumerate(n["params"]):
            if p["type"] == "Identifier":
                params.append(self.declare(p["name"]))
            elif p["type"] == "RestElement":
                rest = self.tmp("_rest")
                later.append((p["argument"], rest))
            else:
                x = self.tmp("_p")
                params.append(x)
                later.append((p, x))
        for p, x in later:
            for nm in names_in(p):
                self.declare(nm)
        for p, x in later:
            if x == rest:
                self.out("%s = list(%s)" % (x, x))
            self.pattern(p, x, self.assign_out, self.store)
        depth = len(self.scopes)
        here = self.ind
        try:
            if n["body"]["type"] == "BlockStatement":
                for nm in var_names(n["body"]):
                    if nm not in self.scopes[-1]:
                        self.out("%s = None" % self.declare(nm))
                self.block(n["body"]["body"])
            else:
                self.out("return %s" % self.ex(n["body"]))
        except Unsupported as e:        # only matters when it is called
            del self.scopes[depth:]
            self.ind = here
            self.lines = []
            self.out("raise _rt.unsupported(%r)" % str(e))
        self.scopes.pop()
        body = self.lines
        outer = fn.outer
        self.lines, self.ind, self.fn, self.ctl, self.in_class = saved
        sig = (["self"] if method and not static else []) + ["%s=None" % p for p in params] + ["*%s" % (rest or "_")]
        if n.get("generator"):
            self.out("@_rt.generator")
        self.out("def %s(%s):" % (py, ", ".join(sig)))
        glob = sorted(p for p, g in outer if g)
        loc = sorted(p for p, g in outer if not g)
        pad = "    " * (self.ind + 1)
        if glob:
            self.lines.append(pad + "global " + ", ".join(glob))
        if loc:
            self.lines.append(pad + "nonlocal " + ", ".join(loc))
            if self.fn is not None:         # pass the need on outwards
                for p, g in outer:
                    if not g and not self.owns(p):
                        self.fn.outer.add((p, False))
        self.lines.extend(body or [pad + "pass"])
        return py

    def owns(self, py):
        for sc in self.scopes:
            for p, f in sc.values():
                if p == py and f is self.fn:
                    return True
        return False

    def klass(self, n, py):
        base = self.ex(n["superClass"]) if n.get("superClass") else "_rt.JSObject"
        self.out("class %s(%s):" % (py, base))
        self.ind += 1
        if n.get("id"):
            self.out("_js_name = %r" % n["id"]["name"])
        fields = []
        saved = self.in_class
        self.in_class = 1
        ctor = None
        for m in n["body"]["body"]:
            if m["type"] == "PropertyDefinition":
                k = m["key"]["name"] if not m["computed"] else None
                if k is None:
                    raise Unsupported("computed field")
                if m["key"]["type"] == "PrivateIdentifier":
                    k = "#" + k
                v = self.ex(m["value"]) if m["value"] else "None"
                if m["static"]:
                    self.out("%s = %s" % (k, v))
                else:
                    fields.append((k, v))
            elif m["type"] == "MethodDefinition":
                if m["computed"]:
                    raise Unsupported("computed method")
                if m["kind"] == "constructor":
                    ctor = m
                    continue
                name = m["key"]["name"]
                if m["key"]["type"] == "PrivateIdentifier":
                    name = "priv_" + name
                if m["static"]:
                    self.out("@staticmethod")
                elif m["kind"] == "get":
                    self.out("@property")
                elif m["kind"] == "set":
                    self.out("@%s.setter" % name)
                self.function(m["value"], name, method=True, static=m["static"])
            else:
                raise Unsupported(m["type"])
        if fields:
            self.out("def _js_fields(self):")
            for k, v in fields:
                self.out("    _rt.put(self, %r, %s)" % (k, v))
        if ctor is not None:
            if fields and not n.get("superClass"):
                self.function(ctor["value"], "_js_ctor", method=True)
                self.out("def __init__(self, *a):")
                self.out("    self._js_fields()")
                self.out("    self._js_ctor(*a)")
            else:
                if fields:
                    raise Unsupported("fields in a derived class with constructor")
                self.function(ctor["value"], "__init__", method=True)
        elif fields:
            self.out("def __init__(self, *a):")
            self.out("    super().__init__(*a)")
            self.out("    self._js_fields()")
        else:
            self.out("pass")
        self.in_class = saved
        self.ind -= 1

    # ---------------------------------------------------------- statements

    def block(self, body):
        """A statement list in the current scope; declarations are hoisted."""
        for nm in lexical(body):
            self.declare(nm)
        for s in body:
            if s["type"] == "FunctionDeclaration":
                self.direct.add(self.lookup(s["id"]["name"])[0])
        for s in body:
            if s["type"] == "FunctionDeclaration":
                self.function(s, self.lookup(s["id"]["name"])[0])
        k = len(self.lines)
        for s in body:
            if s["type"] != "FunctionDeclaration":
                self.st(s)
        if len(self.lines) == k:
            self.out("pass")

    def scoped(self, s):
        """A statement as a block of its own."""
        self.ind += 1
        self.scopes.append({})
        self.block(s["body"] if s["type"] == "BlockStatement" else [s])
        self.scopes.pop()
        self.ind -= 1

    def st(self, s):
        m = getattr(self, "s_" + s["type"], None)
        if m is None:
            raise Unsupported(s["type"])
        m(s)

    def s_EmptyStatement(self, s):
        self.out("pass")

    s_DebuggerStatement = s_EmptyStatement

    def s_BlockStatement(self, s):
        self.scopes.append({})
        self.block(s["body"])
        self.scopes.pop()

    def s_ClassDeclaration(self, s):
        self.klass(s, self.lookup(s["id"]["name"])[0])

    def s_ExpressionStatement(self, s):
        e = s["expression"]
        if s.get("directive"):
            self.out("pass")
            return
        if e["type"] == "AssignmentExpression" and e["operator"] == "=":
            if e["left"]["type"] in ("ArrayPattern", "ObjectPattern"):
                t = self.tmp()
                self.out("%s = %s" % (t, self.ex(e["right"])))
                self.pattern(e["left"], t, self.assign_out, self.store)
                return
            if e["left"]["type"] == "Identifier":
                v = self.ex(e["right"])
                self.out("%s = %s" % (self.store(e["left"]["name"]), v))
                return
        self.out(self.ex(e))

    def s_VariableDeclaration(self, s):
        for d in s["declarations"]:
            if s["kind"] == "var" and d["init"] is None:
                if self.fn is None:
                    for nm in names_in(d["id"]):
                        self.out("%s = None" % self.lookup(nm)[0])
                continue
            v = "None" if d["init"] is None else self.ex(d["init"])
            self.pattern(d["id"], v, self.assign_out, self.store)

    def s_ReturnStatement(self, s):
        self.out("return %s" % ("None" if s["argument"] is None else self.ex(s["argument"])))

    def s_ThrowStatement(self, s):
        self.out("raise _rt.thrown(%s)" % self.ex(s["argument"]))

    def s_IfStatement(self, s):
        self.out("if %s:" % self.cond(s["test"]))
        self.scoped(s["consequent"])
        if s["alternate"]:
            self.out("else:")
            self.scoped(s["alternate"])

    def s_TryStatement(self, s):
        self.out("try:")
        self.scoped(s["block"])
        h = s["handler"]
        if h:
            x = self.tmp("_e")
            self.out("except _rt.CAUGHT as %s:" % x)
            self.ind += 1
            self.scopes.append({})
            if h["param"]:
                for nm in names_in(h["param"]):
                    self.declare(nm)
                self.pattern(h["param"], "_rt.caught(%s)" % x, self.assign_out, self.store)
            self.scopes.append({})
            self.block(h["body"]["body"])
            self.scopes.pop()
            self.scopes.pop()
            self.ind -= 1
        if s["finalizer"]:
            self.out("finally:")
            self.scoped(s["finalizer"])

    # control flow: a frame is one Python loop
    def push(self, kind, labels=(), update=None):
        self.ctl.append(dict(kind=kind, labels=set(labels), update=update, flag=None))

    def pop(self):
        """Ends a frame (after its Python loop); passes on jumps that go further out."""
        f = self.ctl.pop()
        if f["flag"]:
            for target, how, var in f["flag"]:
                self.out("if %s:" % var)
                self.ind += 1
                self.jump(target, how)
                self.ind -= 1

    def jump(self, target, how):
        """break/continue to frame `target` from inside the innermost frame."""
        if self.ctl[-1] is target:
            if how == "break":
                self.out("break")
                return
            if target["update"]:
                target["update"]()
            self.out("continue")
            return
        var = self.tmp("_j")
        self.out("%s = True" % var)
        self.out("break")
        inner = self.ctl[-1]
        inner["flag"] = (inner["flag"] or []) + [(target, how, var)]
        inner["init"].append(var)

    def loop(self, kind, labels, update, head, body):
        """Writes a Python loop; head(out) writes the header line."""
        mark = len(self.lines)
        self.push(kind, labels, update)
        frame = self.ctl[-1]
        frame["init"] = []
        head()
        self.ind += 1
        body()
        self.ind -= 1
        if frame["init"]:
            pad = "    " * self.ind
            self.lines[mark:mark] = [pad + v + " = False" for v in frame["init"]]
        self.pop()

    def labels_of(self, s):
        return s.get("_labels", ())

    def s_LabeledStatement(self, s):
        b = s["body"]
        if b["type"] in ("ForStatement", "WhileStatement", "DoWhileStatement", "ForOfStatement", "ForInStatement",
                         "SwitchStatement", "LabeledStatement"):
            b["_labels"] = tuple(self.labels_of(s)) + (s["label"]["name"],)
            self.st(b)
            return

        def body():
            self.scopes.append({})
            self.block(b["body"] if b["type"] == "BlockStatement" else [b])
            self.scopes.pop()
            self.out("break")
        self.loop("block", (s["label"]["name"],), None, lambda: self.out("while True:"), body)

    def s_BreakStatement(self, s):
        if s["label"]:
            t = next(f for f in reversed(self.ctl) if s["label"]["name"] in f["labels"])
        else:
            t = next(f for f in reversed(self.ctl) if f["kind"] != "block")
        self.jump(t, "break")

    def s_ContinueStatement(self, s):
        if s["label"]:
            t = next(f for f in reversed(self.ctl) if s["label"]["name"] in f["labels"])
        else:
            t = next(f for f in reversed(self.ctl) if f["kind"] == "loop")
        self.jump(t, "continue")

    def body_of(self, b):
        self.scopes.append({})
        self.block(b["body"] if b["type"] == "BlockStatement" else [b])
        self.scopes.pop()

    def s_WhileStatement(self, s):
        self.loop("loop", self.labels_of(s), None, lambda: self.out("while %s:" % self.cond(s["test"])),
                  lambda: self.body_of(s["body"]))

    def s_DoWhileStatement(self, s):
        def again():
            self.out("if _rt.not_(%s):" % self.ex(s["test"]))
            self.out("    break")

        def body():
            self.body_of(s["body"])
            again()
        self.loop("loop", self.labels_of(s), again, lambda: self.out("while True:"), body)

    def s_ForStatement(self, s):
        self.scopes.append({})
        i = s["init"]
        if i:
            if i["type"] == "VariableDeclaration":
                if i["kind"] != "var":
                    for d in i["declarations"]:
                        for nm in names_in(d["id"]):
                            self.declare(nm)
                self.st(i)
            else:
                self.out(self.ex(i))

        def update():
            if s["update"]:
                self.out(self.ex(s["update"]))

        def body():
            self.body_of(s["body"])
            update()
        self.loop("loop", self.labels_of(s), update,
                  lambda: self.out("while %s:" % (self.cond(s["test"]) if s["test"] else "True")), body)
        self.scopes.pop()

    def s_ForOfStatement(self, s, fn="_rt.live"):
        if s.get("await"):
            raise Unsupported("for await")
        it = self.ex(s["right"])
        self.scopes.append({})
        l = s["left"]
        pat = l
        if l["type"] == "VariableDeclaration":
            pat = l["declarations"][0]["id"]
            if l["kind"] != "var":
                for nm in names_in(pat):
                    self.declare(nm)
        x = self.tmp("_i")

        def body():
            self.pattern(pat, x, self.assign_out, self.store)
            self.body_of(s["body"])
        self.loop("loop", self.labels_of(s), None, lambda: self.out("for %s in %s(%s):" % (x, fn, it)), body)
        self.scopes.pop()

    def s_ForInStatement(self, s):
        self.s_ForOfStatement(s, "_rt.keys")

    def s_SwitchStatement(self, s):
        d, k = self.tmp("_s"), self.tmp("_k")
        self.out("%s = %s" % (d, self.ex(s["discriminant"])))
        default = next((i for i, c in enumerate(s["cases"]) if c["test"] is None), len(s["cases"]))
        e = str(default)
        for i, c in reversed(list(enumerate(s["cases"]))):
            if c["test"] is not None:
                e = "(%d if _rt.seq(%s, %s) else %s)" % (i, d, self.ex(c["test"]), e)
        self.out("%s = %s" % (k, e))

        def body():
            self.scopes.append({})
            for nm in lexical([x for c in s["cases"] for x in c["consequent"]]):
                self.declare(nm)
            for i, c in enumerate(s["cases"]):
                if not c["consequent"]:
                    continue
                self.out("if %s <= %d:" % (k, i))
                self.ind += 1
                self.block(c["consequent"])
                self.ind -= 1
            self.scopes.pop()
            self.out("break")
        self.loop("switch", self.labels_of(s), None, lambda: self.out("while True:"), body)


def translate(files):
    """[(name, file, ESTree)] -> [(name, file, Python source)], one namespace."""
    tr = Translator()
    tr.scopes.append({})
    for _, _, tree in files:
        for nm in lexical(tree["body"]) + var_names(tree):
            tr.declare(nm)
    out = []
    for name, fn, tree in files:
        tr.lines = []
        tr.block(tree["body"])
        out.append((name, fn, "\n".join(tr.lines) + "\n"))
    return out, {k: v[0] for k, v in tr.scopes[0].items()}
