"""The interactive prompts of jvozba.py and katna.py."""
from .lib import *

ID = "P28"
BOUNDS = ("both prompts: a command line of up to three words of 1 to 8 arbitrary letters, digits, - and ' in both cases, after no, "
          "one (thorough two) or a listed sequence of earlier ones; the settings in force told apart by probe words; other lines of "
          "up to 3 (4) arbitrary characters or 4 (6) letters, and components with hyphens; an empty line; a dictionary of three words")
OUTSIDE = "longer sessions; probe words other than the listed"
REACH = ("known word", "unknown word", "made", "analysed", "reported", "ended")

W = {"cmevla": ("cmevla", True), "brivla": ("cmevla", False), "standard": ("y", "STANDARD"), "allow": ("y", "ALLOW_Y"),
     "force": ("y", "FORCE_Y"), "more": ("raf", True), "less": ("raf", False), "cluster": ("con", "CLUSTER"),
     "2c": ("con", "TWO_CONSONANTS"), "1c": ("con", "ONE_CONSONANT"), "glide": ("glide", True), "glidnt": ("glide", False),
     "mz": ("mz", True), "mznt": ("mz", False)}
ARG = {"cmevla": "generate_cmevla", "y": "y_hyphens", "raf": "exp_rafsi_shapes", "con": "consonants", "glide": "glides", "mz": "allow_mz"}
FIRST = {"cmevla": False, "y": "STANDARD", "raf": False, "con": "CLUSTER", "glide": False, "mz": False}
PROBES = {"jvozba": ["blanu zdani", "-ra'e- -la'o-", "-o- -la'o-", "-nam- -zba-", "-bak- -iau-", "-nam- zmanei"],
          "katna": ["loi'yklama", "loirklam", "ra'e'yla'o", "o'yla'o", "namzba", "bakyiau"]}
# settings under which each field shows in some probe
BASES = [(), ("more",), ("more", "force"), ("more", "allow", "1c"), ("2c", "more", "force"), ("allow", "2c", "glide"), ("more", "glide", "mz", "cmevla"),
         ("force", "1c", "more", "glide", "mz")]
TABLE = {"blanu": ["bla"], "zdani": ["zda"], "klama": ["kla"]}
CHARS = [chr(c) for c in range(ord("a"), ord("z") + 1)]
CHARS += [c.upper() for c in CHARS] + list("0123456789-'")


def jobs(tier):
    out = []
    lens = (2, 4, 5, 6, 7, 8)
    for m in ("jvozba", "katna"):
        out += [(m, "set", (), (n,)) for n in (1, 3)]
        out += [(m, "set", w, (n,)) for w in BASES for n in lens]
        out += [(m, "set", w, (a, b)) for w in (("more", "1c"), ("more", "force", "glide"))
                for a in lens for b in lens]
        out += [(m, "set", (w,), (n,)) for w in W for n in lens]
        out += [(m, "set", ("more",), (a, b, c)) for a in (2, 4, 5) for b in (2, 4, 5) for c in (2, 4, 5)]
        if tier != "quick":
            out += [(m, "set", (v, w), (n,)) for v in W for w in W for n in lens]
            out += [(m, "set", ("more", "2c"), (a, b, c)) for a in lens for b in lens for c in lens]
        say = ["*", "**", "L", "LL", "LLL", "CVPV", "/*", "/**", " *"]
        if m == "jvozba":
            say += ["-CCV-", "-IV- -CV", "CC- CC", "-VV- -CV-", "-CVC- -CVC-", "-CD- LL"]
        else:
            say += ["-IV-", "IVIV", "CVVCV", "VPV"]
        say += ["***", "LLLL"] + (["CVPV CVPV", "-CVC- LLL", "LLL LLL"] if m == "jvozba" else ["CVCIV", "CVPVC"])
        if tier != "quick":
            say += ["****", "LLLLL"] + (["LLLL LLL", "-LLL- LLL- -LL"] if m == "jvozba" else ["LLLLLL", "**LL**", "LL*LL"])
        out += [(m, "say", t) for t in say]
    return out


class Session:
    """Runs the module as the main program on the given lines."""

    def __init__(self, h, world, module, lines):
        self.lines, self.at = list(lines), 0
        self.prompts, self.out, self.over = [], [], False
        self.error = None

        def ask(prompt="", *a):
            self.prompts.append(prompt)
            if self.at == len(self.lines):
                self.over = True
                raise EOFError()
            self.at += 1
            self.out.append([])
            return self.lines[self.at - 1]

        def show(*a, **k):
            if self.out:
                self.out[-1].append(a)
        try:
            world.run(module, input=ask, print=show)
        except EOFError:
            if not self.over:
                self.error = "EOFError"
        except SystemExit:
            pass
        except Exception as e:      # noqa: BLE001
            self.error = type(e).__name__

    def text(self, i):
        return "\n".join(" ".join(str(x) for x in a) for a in self.out[i])


def initials(h, module, now):
    return [str(now[k])[0] for k in ("cmevla", "y", "raf", "con", "glide", "mz") if k != "cmevla" or module == "jvozba"]


def expected(h, api, module, word, now):
    kw = {ARG[k]: v for k, v in now.items() if k != "cmevla" or module == "jvozba"}
    out = []
    try:
        if module == "jvozba":
            out.append(api.get_lujvo_with_analytics(word, **kw))
        else:
            out.append(api.analyse_brivla(word, **kw))
            out.append(api.get_veljvo(word, **kw))
    except (api.GEN_ERRORS if module == "jvozba" else api.VEL_ERRORS) as e:
        h.reach("reported")
        out.append(e if module == "jvozba" else "Error: %s" % e)
    else:
        h.reach("made" if module == "jvozba" else "analysed")
    return "\n".join(str(x) for x in out)


def prop(h, job):
    module, kind = job[0], job[1]
    api = Api(h, table=TABLE)
    if kind == "say":
        line = string(h, job[2])
        if h.eq(line, ""):
            return
        s = Session(h, api.world, module, [line, "/mz", ""])
        h.record((s.at, s.error, len(s.out)))
        h.check(s.error is None, "the session goes on after any line")
        h.check(not s.over, "an empty line ends the session")
        h.check(s.at == 3, "every line is read")
        h.reach("ended")
        return
    before, lens = job[2], job[3]
    now = dict(FIRST)
    lines = []
    for w in before:
        lines.append("/" + w)
        now[W[w][0]] = W[w][1]
    line = "/"
    for i, n in enumerate(lens):
        w = ""
        for j in range(n):
            w = w + h.chars("w%d_%d" % (i, j), CHARS)
        line = line + (" " if i else "") + w
        for name, (field, value) in W.items():
            if len(name) == n and h.eq(w.lower(), name):
                h.reach("known word")
                if field != "cmevla" or module == "jvozba":
                    now[field] = value
                break
        else:
            h.reach("unknown word")
    k = len(lines)
    probes = PROBES[module]
    s = Session(h, api.world, module, lines + [line] + probes + [""])
    h.record((s.at, s.error, len(s.out)))
    h.check(s.error is None and s.at == k + 2 + len(probes) and not s.over, "the session runs to the empty line")
    h.check(all(not s.out[i] for i in range(k + 1)), "nothing printed for settings")
    for i, p in enumerate(probes):
        want, got = expected(h, api, module, p, now), s.text(k + 1 + i)
        h.record((got,))
        h.check(got == want, "a line is processed under the settings in force")
        at = 0
        prompt = s.prompts[k + 1 + i]
        shown = [c for c in str(prompt) if c.isupper() and c.isascii()]
        h.check(shown[:len(initials(h, module, now))] == initials(h, module, now), "the prompt shows the settings in force")
    h.reach("ended")
