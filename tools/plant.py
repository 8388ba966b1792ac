"""Makes /verif/seeded/<id>/ from a bug written down as edits, after confirming it in a scratch worktree.

    python3 tools/plant.py BUGS.py [ID ...] [--check]

BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = """import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "py"))
from latkerlo_jvotci import *

"""
PRE_JS = open(os.path.join(HERE, "tools", "plant_js.txt")).read()
PRE_RS = open(os.path.join(HERE, "tools", "plant_rs.txt")).read()
SH_RS = open(os.path.join(HERE, "tools", "plant_rs.sh")).read()
SH_CLI = open(os.path.join(HERE, "tools", "plant_cli.sh")).read()
SH_PAGE = """#!/bin/bash
exec timeout 120 node "$(cd "$(dirname "$0")" && pwd)/demo.js"
"""
PRE_PAGE = """const page = require("./page.js");
const list = page.files(process.cwd());
// the states of the page after events
function run(events, stub) {
  return page.run(list, process.cwd(), { events, table: null, stub: stub || null }).slice(1);
}
function type(...texts) {
  return texts.flatMap(t => [["type", t], ["wait", null]]);
}
// text of the cells, row by row
function cells(s) {
  return [...s["hard-mode"][1].matchAll(/<t[dh](?:\\s[^>]*)?>([^]*?)<.t[dh]>/g)].map(m => m[1]);
}
function assert(x, ...m) {
  if (!x) {
    console.error(...m);
    process.exit(1);
  }
}

"""
SH = """#!/bin/bash
exec timeout 120 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith("-")]
    check = "--check" in sys.argv
    wt = "/tmp/plant/wt-%d" % os.getpid()
    sh("mkdir -p /tmp/plant; git -C /repo worktree prune; git -C /repo worktree add --detach %s HEAD" % wt)
    try:
        for b in ns["BUGS"]:
            if ids and b["id"] not in ids:
                continue
            sh("git -C %s checkout -q -- ." % wt)
            d = os.path.join(HERE, "seeded", b["id"])
            ok = True
            os.makedirs(d, exist_ok=True)
            if b.get("rs"):
                with open(d + "/demo.rs", "w") as f:
                    f.write(PRE_RS + "fn main() {\n" + "\n".join("    " + x for x in b["demo"].strip().split("\n")) + "\n}\n")
            elif b.get("cli"):
                pass
            elif b.get("page"):
                shutil.copy(os.path.join(HERE, "engine", "js", "page.js"), d + "/page.js")
                with open(d + "/demo.js", "w") as f:
                    f.write(PRE_PAGE + b["demo"].strip() + "\n")
            else:
                with open(d + "/demo.py", "w") as f:
                    f.write(PRE + (PRE_JS + b["demo"].strip() + "\ncompare()" if b.get("js") else b["demo"].strip()) + "\n")
            with open(d + "/demo.sh", "w") as f:
                f.write("#!/bin/bash\n" + SH_CLI + "\n" + b["demo"].strip() + "\nexit 0\n" if b.get("cli") else SH_RS if b.get("rs") else SH_PAGE if b.get("page") else SH)
            os.chmod(d + "/demo.sh", 0o755)
            r0 = sh("bash %s/demo.sh" % d, cwd=wt)
            for fn, old, new in b["edits"]:
                p = os.path.join(wt, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "edit matches", s.count(old), "times:", old[:60])
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                shutil.rmtree(d)
                continue
            diff = sh("git -C %s diff" % wt).stdout
            with open(d + "/patch.diff", "w") as f:
                f.write(diff)
            with open(d + "/meta.json", "w") as f:
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
                f.write("\n")
            r1 = sh("bash %s/demo.sh" % d, cwd=wt)
            t = sh("cd %s/py && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s/py /opt/venv/bin/python -m pytest -q -p no:cacheprovider "
                   "--timeout=300 tests" % (wt, wt))
            tail = t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-200:]
            stable = "test_is_gismu_dictionary" not in "".join(
                l for l in t.stdout.splitlines() if l.startswith("FAILED"))
            print("%-6s %s demo clean=%d bug=%d stable=%s | %s" % (b["id"], b["prop"], r0.returncode, r1.returncode,
                                                                  stable, tail), flush=True)
            if r0.returncode != 0 or r1.returncode == 0 or not stable:
                print("   REJECTED", (r0.stderr or r1.stderr or r1.stdout)[-300:])
                shutil.rmtree(d)
                continue
            if check:
                c = sh("python3-vt check.py %s" % b["prop"], cwd=HERE, env=dict(os.environ, LATKERLO_REPO=wt))
                last = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", b["prop"], "FAILS", "job", "input"))]
                print("   check exit", c.returncode, " / ".join(last)[:400], flush=True)
    finally:
        sh("git -C /repo worktree remove --force %s; git -C /repo worktree prune" % wt)


main()
