"""Development helper (no check uses it): small source changes everywhere, to see which the checks notice.

    mutate.py FILE N [SEED]     FILE below src/pymech

Draws N one-place changes of FILE, keeps those with which the stable tests pass, and runs the checks of the
properties that the file serves, until one reports a violation.  Prints the changes that none reported.
"""

import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
CHECKS = {
    "core.py": ["C20", "C13", "C12", "C15", "C14", "C10", "C02"],
    "meshtools.py": ["C13", "C12", "C14", "C10"],
    "neksuite/field.py": ["C01", "C02", "C03", "C08", "C09", "C11"],
    "neksuite/mesh.py": ["C04", "C05", "C06", "C08", "C09"],
    "neksuite/map.py": ["C06"],
    "simsonsuite.py": ["C07", "C09"],
    "dataset.py": ["C11", "C10"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def skip(n):
        t = text(n) if hasattr(n, "lineno") else ""
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return True
        if isinstance(n, ast.Raise):
            return True
        return isinstance(n, ast.Expr) and t.startswith(("logger.", "print("))

    def visit(n):
        if skip(n):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})"))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((n, "(" + op.join(f"({text(v)})" for v in n.values) + ")"))
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                out.append((n, "(" + op2.join(f"({text(v)})" for v in rest) + ")"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((n, f"({text(n.operand)})"))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            out.append((n, str(n.value + 1)))
            if n.value > 0:
                out.append((n, str(n.value - 1)))
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            out.append((n, repr(n.value * 1.5 + (n.value == 0))))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n, str(not n.value)))
        elif isinstance(n, ast.Constant) and type(n.value) is str and 0 < len(n.value) < 8:
            out.append((n, repr(n.value[:-1])))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or isinstance(n, ast.Expr):
            out.append((n, "pass"))
        elif isinstance(n, ast.If):
            out.append((n.test, f"(not ({text(n.test)}))"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("min", "max", "minimum", "maximum", "copy", "deepcopy", "astype"):
            a, b = span(n.func)
            swap = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum"}.get(n.func.attr)
            if swap:
                out.append((n.func, text(n.func)[: -len(n.func.attr)] + swap))
            elif n.func.attr in ("copy", "astype") and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "copy"):
                out.append((n, text(n.func.value)))
            elif n.args:
                out.append((n, text(n.args[0])))
        elif isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    visit(tree)
    for n, new in out:
        a, b = span(n)
        old = raw[a:b].decode()
        if old.strip() != new:
            yield n.lineno, old, new, (raw[:a] + new.encode() + raw[b:]).decode()


def run(job):
    k, f, line, old, new, src, ids = job
    wt = f"/tmp/mut-{os.getpid()}-{k}"
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    try:
        open(f"{wt}/src/pymech/{f}", "w").write(src)
        env = dict(os.environ, PYTHONPATH=f"{wt}/src", PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", *ids], cwd=wt, env=env,
                               capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return job, "tests"
        if r.returncode:
            return job, "tests"
        seen = []
        for c in CHECKS[f]:
            env = dict(os.environ, DST_REPO=wt, DST_EVIDENCE=f"/tmp/mut-ev-{os.getpid()}-{k}", DST_JOBS="2")
            r = subprocess.run(["./check", c, "--runs", "700"], cwd="/verif", env=env, capture_output=True, text=True)
            seen.append(f"{c}={r.returncode}")
            if r.returncode == 1:
                return job, "caught " + c
            if r.returncode:
                return job, "noanswer " + c + " " + (r.stdout + r.stderr)[-300:]
        return job, "MISSED"
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(f"/tmp/mut-ev-{os.getpid()}-{k}", ignore_errors=True)


def main():
    f, n = sys.argv[1], int(sys.argv[2])
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    src = open(f"/repo/src/pymech/{f}").read()
    ms = []
    for m in mutants(src):
        try:
            ast.parse(m[3])
        except SyntaxError:
            continue
        ms.append(m)
    rng.shuffle(ms)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ids = [t.replace("tests.", "tests/", 1).replace("::", ".py::") for t in stable]
    print(f"{f}: {len(ms)} possible changes, {min(n, len(ms))} drawn", flush=True)
    jobs = [(k, f, *m, ids) for k, m in enumerate(ms[:n])]
    tally = {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(run, j) for j in jobs]):
            job, res = fut.result()
            key = " ".join(res.split()[:2]) if res.startswith("caught") else res.split()[0]
            tally[key] = tally.get(key, 0) + 1
            if not res.startswith(("tests", "caught")):
                print(f"{res.split()[0]} {f}:{job[2]}  {' '.join(job[3].split())[:100]}  ->  {' '.join(job[4].split())[:100]}"
                      + ("" if res == "MISSED" else "\n    " + res), flush=True)
    print(f, tally, flush=True)


if __name__ == "__main__":
    main()
