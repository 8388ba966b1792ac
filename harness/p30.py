"""The Rust command line program."""
from engine import rsworld
rsworld.prepare(cli=True)           # built here, before the checks fork

from .lib import *                  # noqa: E402
from .jsjobs import answer          # noqa: E402

ID = "P30"
BOUNDS = ("the program with a first argument of - and up to 3 (thorough 4) arbitrary flag characters and probe words; one or two arguments or a line "
          "of up to 3 (4) arbitrary characters, 5 (6) Lojban letters or word templates; tanru of two components; interactive: command lines "
          "of / and up to 3 (4) flag characters, or 2 (3) after another command; settings symbolic through the flags; a symbolic dictionary")
OUTSIDE = "colours and wording of messages and help; longer sessions; the full dictionary"
REACH = ("lujvo", "no lujvo", "analysed", "refused", "rafsi", "best", "help", "bad flags", "quit", "end of input")

FLAGS = list("cSAFC21rgz") + ["x", "h", "-"]
TUI = list("cSAFC21rgz") + ["x", "h", "q"]
ORDER = (("generate_cmevla", "c"), ("y_hyphens", None), ("consonants", None), ("exp_rafsi_shapes", "r"), ("glides", "g"), ("allow_mz", "z"))
DEFAULT = {"generate_cmevla": False, "y_hyphens": "STANDARD", "consonants": "CLUSTER", "exp_rafsi_shapes": False, "glides": False, "allow_mz": False}
PICK = {"S": ("y_hyphens", "STANDARD"), "A": ("y_hyphens", "ALLOW_Y"), "F": ("y_hyphens", "FORCE_Y"), "C": ("consonants", "CLUSTER"),
        "2": ("consonants", "TWO_CONSONANTS"), "1": ("consonants", "ONE_CONSONANT")}
BIT = {"c": "generate_cmevla", "r": "exp_rafsi_shapes", "g": "glides", "z": "allow_mz"}
PROBES = ["-ra'e- -la'o-", "-o- -la'o-", "-nam- -zba-", "-bak- -iau-", "-bak- -nam-"]
TYPES = {"GISMU": "gismu", "ZIhEVLA": "zihevla", "LUJVO": "lujvo", "EXTENDED_LUJVO": "extended lujvo", "RAFSI": "rafsi", "CMEVLA": "cmevla"}
SETS = ["", "c", "r", "A", "F", "2", "1", "g", "z", "cr1", "Arg", "FC1rz", "c2gz", "1rF"]


def jobs(tier):
    q = tier == "quick"
    n, m = (3, 2) if q else (4, 3)
    out = [("flags", k) for k in range(n + 1)]
    out += [("tui", "", k) for k in range(m + 2)] + [("tui", f, k) for f in ("c", "A1r", "F2gz") for k in range(m + 1)]
    out += [("end", k) for k in range(3)]
    words = ["L" * k for k in range(1, 6 if q else 7)] + ["*", "**"] + ([] if q else ["***", "****"])
    words += ["CVCIV", "IVIV", "CVPyIV", "CVCCVC", "CV'VrIV", "CDrCVC", "CVPVCV'yIV", "VPVCyIV", "CVCyCVC", "IVCV"]
    if not q:
        words += ["CVPCVC", "IVCVC", "CVCyIV", "CDIVCV", "CV'VIVCV", "CVCCVPV", "CVPVCVPV", "CVPyCVPV", "IVCyCV'V", "CVPCVPV", "IVCVyCVC"]
    sets = ("", "c", "1rA") if q else SETS
    for mode in ("arg", "line"):
        out += [(mode, f, w) for i, w in enumerate(words) for j, f in enumerate(sets) if mode == "arg" or (i + j) % 3 == 0]
    tanrus = [("cvc", "ccv"), ("cvv", "gA:CVC"), ("=LL", "ccv"), ("cvc", "=_CVC_"), ("gA:CVV", "gA:CVC")]
    if not q:
        tanrus += [("gB:CCV", "gA:CVV"), ("cvc", "cvc", "ccv"), ("=LLL", "=LL"), ("cvhv", "cvv")]
    out += [(mode, f, t) for t in tanrus for mode in ("args", "one", "lines") for f in sets]
    return out


def plain(h, text):
    """Without colours."""
    out, skip = [], False
    for ch in text:
        if skip:
            skip = not h.eq(ch, "m")
        elif h.eq(ch, "\x1b"):
            skip = True
        else:
            out.append(ch)
    return join(h, out)


def shown(now):
    """The settings as the prompt names them."""
    return sorted([c for c, f in BIT.items() if now[f]] + [c for c, (f, v) in PICK.items() if c not in "SC" and now[f] == v])


def parse(fs):
    """Settings of a flag argument, or None."""
    now = dict(DEFAULT)
    for group in ("c", "r", "g", "z", "SAF", "C21"):
        if sum(c in group for c in fs) > 1:
            return None
    for c in fs:
        if c in BIT:
            now[BIT[c]] = True
        elif c in PICK:
            now[PICK[c][0]] = PICK[c][1]
        else:
            return None
    return now


def toggle(now, fs):
    """Settings after a command, or None."""
    now = dict(now if fs else DEFAULT)
    for c in fs:
        if c in BIT:
            now[BIT[c]] = not now[BIT[c]]
        elif c in PICK:
            f, v = PICK[c]
            now[f] = DEFAULT[f] if now[f] == v else v
        else:
            return None
    return now


def kw(now, gen=False):
    return {k: v for k, v in now.items() if gen or k != "generate_cmevla"}


def normal(h, api, w):
    return api.world.load("tools").normalise(w)


def says(h, api, word, words, now, table):
    """Lines the program prints for an input, and whether it is an error: [(kind, text)]."""
    out = []
    if words != 1:
        r, err = answer(api, "get_lujvo", [word], kw(now, True))
        if err:
            h.reach("no lujvo")
            return [("any", None)], True
        h.reach("lujvo")
        return [("line", r)], False
    w = normal(h, api, word)
    for v, rs in table:
        for r in rs:
            if h.eq(r, w):
                h.reach("rafsi")
                out.append(("line", "{" + w + "} is a rafsi of {" + v + "}"))
        if h.eq(v, w):
            out.append(("line", "{" + w + "} has rafsi {" + h_join(h, " ", rs) + "}"))
    r, err = answer(api, "analyse_brivla", [w], kw(now))
    if err:
        h.reach("refused")
        return out + [("any", None)], True
    h.reach("analysed")
    pieces = r[1]
    out.append(("line", TYPES[str(r[0])]))
    text = h_join(h, " ", pieces)
    if len(pieces) > 1:
        out.append(("line", text))
    score, err = answer(api, "score_lujvo", [w], kw(now))
    if not err:
        out.append(("line", str(int(score))))
    sel = api.world.load("katna").selrafsi_list_from_rafsi_list(pieces, now["y_hyphens"], allow_mz=now["allow_mz"])
    out.append(("line", h_join(h, " ", sel)))
    vel, err = answer(api, "get_veljvo", [w], kw(now))
    if err:
        return out + [("any", None)], True
    best, err = answer(api, "get_lujvo_with_analytics", [h_join(h, " ", vel)], kw(now, True))
    if not err and not h.eq(best[0], w):
        h.reach("best")
        out.append(("best", ("best: " + best[0] + " (" + str(int(best[1])) + ")")))
    return out, False


def h_join(h, sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return join(h, out)


def lines_of(h, text):
    out = [[]]
    for ch in text:
        if h.eq(ch, "\n"):
            out.append([])
        else:
            out[-1].append(ch)
    return [join(h, x) for x in out if x]


def check_text(h, text, want):
    """The printed lines are those expected."""
    got = lines_of(h, text)
    at = 0
    for kind, t in want:
        if kind == "any":
            h.check(at < len(got), "a message is printed")
            at = len(got)
            continue
        if kind == "line" and len(t) == 0:
            continue
        ok = False
        while at < len(got):
            g = got[at]
            at += 1
            if kind == "best":
                g = join(h, [c for c in g if not h.eq(c, "-")])
            if h.eq(g, t):
                ok = True
                break
            # the program repeats these
            h.check(any(k == "line" and " rafsi " in t_of(n) and h.eq(n, g) for k, n in want), "nothing else is printed")
        h.check(ok, "what the library gives is printed")
        if not ok:
            return
    h.check(at == len(got), "nothing more is printed")


def t_of(g):
    return "".join(c if isinstance(c, str) else "?" for c in g)


def check_prompt(h, text, now):
    """The text ends with a prompt naming the settings; what comes before it."""
    t = plain(h, text)
    k = len(shown(now))
    tail = "".join(c if isinstance(c, str) else "?" for c in t[len(t) - k - 3:])
    h.check(tail[:1] == "\n" and sorted(tail[1:1 + k]) == shown(now) and tail[-2:] == "> ", "the prompt shows the settings in force")
    return t[:len(t) - k - 3]


def setup(h, job):
    if job[0] in ("args", "one", "lines"):
        t, table = tanru(h, job[2])
        table = table or [("klama", ["kla"])]
        return t, table
    w = string(h, job[2])
    r0, r3 = string(h, "CVC", "r0"), string(h, "CVC", "r3")
    h.assume(h.Not(h.eq(r0, r3)))       # one word for a rafsi
    return [w], [("broda", [r0, string(h, "IV", "r1")]), ("brode", [string(h, "CD", "r2")]),
                 ("brodi", [r3])]


def prop(h, job):
    what = job[0]
    if what in ("flags", "tui", "end"):
        table = [("klama", ["kla"]), ("lidne", ["li'e"])]
        api = Api(h, table=table)
        cli = rsworld.Cli(h, table)
    if what == "flags":
        fs = ""
        for i in range(job[1]):
            fs = fs + h.chars("f%d" % i, FLAGS)
        arg = "-" + fs
        chars = []
        for c in fs:
            for v in FLAGS:
                if h.eq(c, v):
                    chars.append(v)
        probe = PROBES[len(set(chars)) % len(PROBES)] if "h" not in chars else PROBES[0]
        now = parse([c for c in chars if c != "-"])
        rc, seg = cli.run([arg, probe], [])
        h.record((rc, len(seg)))
        text = plain(h, seg[0])
        h.check(rc in (0, 1), "the program ends by itself")
        if "h" in chars:
            h.reach("help")
            h.check(rc == 0 and len(seg[0]) > 100, "help is printed")
            return
        if now is None:
            h.reach("bad flags")
            h.check(rc == 1 and len(lines_of(h, text)) == 1, "invalid flags are refused")
            return
        want, err = says(h, api, probe, 2, now, table)
        h.check(rc == int(err), "the exit code tells success")
        check_text(h, text, want)
        return
    if what == "tui":
        lines, now = [], dict(DEFAULT)
        if job[1]:
            lines.append("/" + job[1])
            now = toggle(now, job[1])
        fs = ""
        for i in range(job[2]):
            fs = fs + h.chars("f%d" % i, TUI)
        chars = []
        for c in fs:
            for v in TUI:
                if h.eq(c, v):
                    chars.append(v)
        lines.append("/" + fs)
        lines += PROBES + ["/q"]
        rc, seg = cli.run([], lines)
        h.record((rc, len(seg)))
        h.check(rc == 0, "the session ends by itself")
        at = 1
        check_prompt(h, seg[0], DEFAULT)
        if job[1]:
            h.check(len(check_prompt(h, seg[1], now)) == 0, "nothing is printed for a command")
            at = 2
        if "q" in chars:
            h.reach("quit")
            h.check(len(seg) == at + 1 and len(plain(h, seg[at])) == 0, "the session ends at /q")
            return
        new = None if "h" in chars else toggle(now, chars)
        h.check(len(seg) == at + len(PROBES) + 2, "every line is read")
        said = check_prompt(h, seg[at], now if new is None else new)
        if "h" in chars:
            h.reach("help")
            h.check(len(said) > 100, "help is printed")
        elif new is None:
            h.reach("bad flags")
            h.check(len(said) > 0, "invalid flags are refused")
        else:
            h.check(len(said) == 0, "nothing is printed for a command")
        now = now if new is None else new
        for i, p in enumerate(PROBES):
            said = check_prompt(h, seg[at + 1 + i], now)
            want, err = says(h, api, p, 2, now, table)
            check_text(h, said, want)
        return
    if what == "end":
        h.reach("end of input")
        c = h.chars("f", list("cSAFC21rgz"))
        lines = ["/" + c, "blanu zdani"][:job[1]]
        rc, seg = cli.run([], lines)
        h.record((rc, len(seg)))
        h.check(rc == 0 and len(seg) == len(lines) + 2, "the session ends with its input")
        return
    mode, fl = what, job[1]
    t, table = setup(h, job)
    now = parse(fl)
    api = Api(h, table=table)
    cli = rsworld.Cli(h, table)
    text = h_join(h, " ", t)
    words = len(t)
    if mode in ("arg", "line"):
        words = count_words(h, t[0])
    if mode in ("arg", "args", "one"):
        args = list(t) if mode == "args" else [text]
        if not fl and len(args[0]):
            h.assume(h.Not(h.eq(args[0][0], "-")))
        for a in args:
            for c in a:
                h.assume(h.Not(h.eq(c, "\x00")))
        rc, seg = cli.run((["-" + fl] if fl else []) + args, [])
        h.record((rc, len(seg)))
        if any(command(h, a) for a in args):
            h.check(rc == 1 and len(lines_of(h, plain(h, seg[0]))) == 1, "commands are for the prompt")
            return
        want, err = says(h, api, text, words, now, table)
        h.check(rc == int(err), "the exit code tells success")
        check_text(h, plain(h, seg[0]), want)
        return
    for c in text:
        h.assume(h.Not(h.eq(c, "\n")))
    h.assume(not command(h, text))
    lines = (["/" + fl] if fl else []) + [text, "/q"]
    rc, seg = cli.run([], lines)
    h.record((rc, len(seg)))
    h.check(rc == 0 and len(seg) == len(lines) + 1, "the session goes on to the end")
    want, err = says(h, api, text, words, now, table)
    check_text(h, check_prompt(h, seg[-2], now), want)


def command(h, w):
    """Whether it begins with / after spaces."""
    for ch in w:
        if not h.isin(ch, [" ", "\t", "\n"]):
            return bool(h.eq(ch, "/"))
    return False


def count_words(h, w):
    n, inside = 0, False
    for ch in w:
        if h.isin(ch, [" ", "\t", "\n"]):
            inside = False
        elif not inside:
            inside = True
            n += 1
    return n
