"""Development helper (no check uses it): make a seeded bug from a specification and confirm it.

    plant.py SPECS.py [ID...]

SPECS.py defines BUGS, a list of dicts with id, property, needs, what_it_breaks, demo (Python source) and
edits, a list of (file, old, new). Each bug is applied to a scratch copy of /repo, which has to build and pass
the stable tests; its demonstration has to pass on the unchanged tree and fail on the copy. Then
/verif/seeded/<id>/ is written and the property's check is run against the copy.
"""

import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import time

PY = "/opt/venv/bin/python"
BASE = "1269b8d"
SEEDED = "/verif/seeded"
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds, 1 when it is broken
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))["stable"]


def plant(bug, check=True, write=True):
    bid = bug["id"]
    wt = f"/tmp/plant-{bid}"
    if os.path.exists(wt):
        shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(wt, "src/pymech", f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", wt, "diff"]).stdout
        # the changed lines have to be original ones
        orig = 0
        for f in {e[0] for e in bug["edits"]}:
            blame = sh(["git", "-C", wt, "blame", "-s", "--abbrev=7", "HEAD", "--", f"src/pymech/{f}"]).stdout.splitlines()
            d = sh(["git", "-C", wt, "diff", "-U0", "--", f"src/pymech/{f}"]).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a - 1, a - 1 + n):
                    ok = blame[k].lstrip("^").startswith(BASE)
                    orig += ok
                    if not ok:
                        return f"touches a line of a fix: {blame[k]}"
        if not orig:
            return "no original line changed"
        env = dict(os.environ, PYTHONPATH=f"{wt}/src", PYTHONDONTWRITEBYTECODE="1")
        ids = [t.replace("tests.", "tests/", 1).replace("::", ".py::") for t in stable()]
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", *ids], cwd=wt, env=env)
        if r.returncode:
            return "stable tests fail:\n" + r.stdout[-1500:]
        d = f"{SEEDED}/{bid}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        json.dump(
            {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what_it_breaks"]},
            open(f"{d}/meta.json", "w"),
            indent=1,
        )
        a = sh(["bash", f"{d}/demo.sh"], cwd="/repo", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if a.returncode:
            shutil.rmtree(d)
            return "demo fails on the unchanged tree:\n" + a.stdout[-800:] + a.stderr[-1500:]
        b = sh(["bash", f"{d}/demo.sh"], cwd=wt, env=env)
        if not b.returncode:
            shutil.rmtree(d)
            return "demo passes with the bug\n" + b.stdout[-500:]
        msg = "demo: " + ((b.stdout + b.stderr).strip().splitlines() or ["?"])[-1][:160]
        if not check:
            return msg
        t = time.time()
        props = bug.get("checks") or [bug["property"]]
        for p in props:
            env2 = dict(os.environ, DST_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick", DST_EVIDENCE=f"/tmp/plant-ev-{bid}")
            c = sh(["./check", p], cwd="/verif", env=env2)
            v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            msg += f"\n   {p}: {'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode} {time.time() - t:.0f}s"
            if c.returncode not in (0, 1):
                msg += c.stdout[-500:] + c.stderr[-1500:]
            for x in c.stdout.splitlines():
                if "iolat" in x and not x.startswith("VIOLATION"):
                    msg += "\n      " + x[:200]
        return msg
    finally:
        shutil.rmtree(wt)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    for bug in bugs:
        if not want or bug["id"] in want:
            print(f"== {bug['id']} ({bug['property']})\n   {plant(bug, check='-n' not in sys.argv)}", flush=True)
