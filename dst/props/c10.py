"""C10: concurrent calls do not interfere and results share no state."""

import contextvars
import functools
import os

from .. import hist, iosim, meshmodel as mm, ops, sched
from ..core import Rng, call
from ..forkeval import describe, fork_eval, freeze
from ..simfs import SimFS

RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("A scenario is either (a) two to four threads, each making one to three calls on its own files and meshes or on "
        "shared meshes that are only read, run one at a time under a seeded scheduler that may change over at every "
        "program line (or bytecode instruction) of pymech and every raw file operation, with a device error or a failing "
        "callback in one of them; or (b) a history of calls whose results and inputs are kept and modified in place at "
        "random, everything else being compared after each modification.  Every result is compared with that of the same "
        "call made alone in a pristine copy of the process.  It is non-trivial if threads were switched inside calls or "
        "a modification was made.")
REAL = ["all of pymech.neksuite, pymech.simsonsuite, pymech.meshtools, pymech.core, pymech.dataset (code under test)",
        "real threads", "numpy, xarray, CPython's file objects"]
STUB = ["thread scheduler (one thread runs at a time; the simulator decides which)", "locks created by the code under test",
        "raw file object (SimFileIO)", "builtins.open / io.open"]
ASSUMPTIONS = ["switches happen at line or bytecode boundaries in pymech's own code and at file operations (numpy and xarray "
               "calls are atomic)", "threads use different files; shared meshes are only read"]
STATE = "distinct (kinds running concurrently, function interrupted by a switch) tuples"


def gen(rng, tier, i):
    if rng.chance(0.35):
        steps = []
        kinds = None if rng.chance(0.6) else [rng.pick(*(ops.IO + ops.MESH)) for _ in range(rng.randint(1, 2))]
        if rng.chance(0.08):
            kinds = [rng.pick("circle", "circle", "box")]  # many arguments have a default
        calls = []
        for _ in range(rng.randint(2, 7)):
            # now and then the very same call again
            if calls and rng.chance(0.4):
                c = rng.pick(*calls)
                calls.append(c if rng.chance(0.5) else ops.similar(rng, c))
            else:
                calls.append(ops.gen_op(rng, kinds))
            steps.append({"call": calls[-1]})
            while rng.chance(0.45):
                steps.append({"scramble": rng.randrange(64), "part": rng.chance(0.4), "seed": rng.seed32()})
        steps.append({"scramble": rng.randrange(64), "part": True, "seed": rng.seed32()})
        return {"mode": "history", "steps": steps}
    kinds = None
    k = rng.random()
    if k < 0.3:  # the same function in every thread
        kinds = [rng.pick(*(ops.IO + ops.MESH))]
    elif k < 0.45:
        kinds = list(ops.SHARING)
    n = rng.weighted((5, 2), (3, 3), (1, 4))
    threads = [[ops.gen_op(rng, kinds) for _ in range(rng.weighted((3, 1), (2, 2), (1, 3)))] for _ in range(n)]
    alike = rng.pick(0, 0, 0.4, 1)  # threads that do nearly the same
    for t in range(1, n):
        for j in range(len(threads[t])):
            if rng.chance(alike):
                c = rng.pick(*threads[0])
                threads[t][j] = c if rng.chance(0.3) else ops.similar(rng, c)
    scn = {"mode": "threads", "threads": threads, "shared": [ops.gen_base(rng) for _ in range(rng.randint(1, 2))],
           "sched": sched.gen_spec(rng), 
           "opcodes": rng.chance(0.3) and not any(o["op"] in ops.HEAVY for t in threads for o in t), "first": rng.randrange(n)}
    if rng.chance(0.3):
        scn["frag"] = {"seed": rng.seed32(), "max": rng.pick(7, 64, 1000)}
    if rng.chance(0.25):
        t = rng.randrange(n)
        scn["fault"] = {"thread": t, "op": rng.randrange(len(threads[t])), "posf": round(rng.random(), 5),
                        "exc": rng.pick("CallbackError", "MemoryError", "ZeroDivisionError"),
                        "kind": rng.pick("eio", "eio", "open", "close")}
    return scn


def concretise(scn, hint):
    return dict(scn, sched=sched.concrete(hint["switches"])) if scn["mode"] == "threads" else scn


def shrink(scn):
    if scn["mode"] == "history":
        s = scn["steps"]
        for i in range(len(s)):
            if len(s) > 1:
                yield dict(scn, steps=s[:i] + s[i + 1:])
        for i, st in enumerate(s):
            if st.get("scramble"):
                yield dict(scn, steps=s[:i] + [dict(st, scramble=0)] + s[i + 1:])
        return
    for x in sched.shrink_spec(scn["sched"]):
        yield dict(scn, sched=x)
    for k in ("fault", "frag"):
        if k in scn:
            yield {a: b for a, b in scn.items() if a != k}
    th = scn["threads"]
    for i in range(len(th)):
        if th[i] and any(th[j] for j in range(len(th)) if j != i):
            yield dict(scn, threads=th[:i] + [[]] + th[i + 1:])
        for j in range(len(th[i])):
            if len(th[i]) > 1:
                yield dict(scn, threads=th[:i] + [th[i][:j] + th[i][j + 1:]] + th[i + 1:])
    if scn["opcodes"]:
        yield dict(scn, opcodes=False)


def prepare(sut):
    pass


def run(sut, scn, ctx):
    (run_history if scn["mode"] == "history" else run_threads)(sut, scn, ctx)


def baseline(o):
    """The picture of the call made alone."""

    def alone():
        o.ctl.clear()
        o.ctl["n"] = 0
        pic = o.picture(call(o.fn))
        return pic, o.ctl["n"]

    pic, n = fork_eval(alone)
    o.calls = n
    ops.clean(o)
    o.ctl.clear()
    o.ctl["n"] = 0
    return pic


# --------------------------------------------------------------------------- threads
def run_threads(sut, scn, ctx):
    shared = []
    for b in scn["shared"]:
        try:
            m = ops.base_model(b)
            shared.append((mm.to_hexa(sut, m), m))
        except hist.Skip:
            pass
    pictures = [freeze(d) for d, _ in shared]
    plan = {}
    threads, want = [], []
    fault = scn.get("fault")
    armed = None
    idx = 0
    for t, lst in enumerate(scn["threads"]):
        mine = []
        for j, op in enumerate(lst):
            idx += 1
            try:
                o = ops.setup(sut, ctx, op, idx, shared)
            except hist.Skip as e:
                ctx.log("skip", e)
                continue
            o.want = baseline(o)
            o.faulty = False
            if fault and fault["thread"] == t and fault["op"] == j:
                armed = o
            mine.append(o)
        threads.append(mine)
    if not any(threads):
        ctx.count("nothing_to_run")
        return
    ctx.check([freeze(d) for d, _ in shared] == pictures, "modified", "set-up changed a shared mesh")
    if "frag" in scn:
        plan["frag"] = scn["frag"]
    if armed is not None:
        if armed.path is not None:
            armed.faulty = True
            kind = fault["kind"]
            if kind == "eio":
                size = len(armed.want[2] or b"") if armed.writes and len(armed.want) > 2 else armed.size
                f = {"kind": "eio_w" if armed.writes else "eio_r", "at": int(fault["posf"] * max(1, size))}
            elif kind == "open":
                f = {"kind": "open", "err": 5}
            else:
                f = {"kind": "close"}
            plan["faults"] = [f]
        elif armed.calls:
            armed.faulty = True
            armed.ctl.update(at=int(fault["posf"] * armed.calls), exc=fault["exc"])
    s = sched.Sched(ctx, scn["sched"], scn["opcodes"])
    ctx.hint = {"switches": s.switches}
    fs = SimFS(ctx, plan, armed.path if armed is not None else None)
    fs.hook = lambda what: s.point("io:" + what)

    def body(mine):
        def go():
            for o in mine:
                s.point("begin:" + o.kind)
                out = call(o.fn)
                o.out = out
                o.got = o.picture(out)
                ctx.log("outcome", o.kind, out.brief())
        # (the program's numpy settings hold in its threads too)
        return functools.partial(contextvars.copy_context().run, go)

    with fs:
        s.run([body(m) for m in threads], scn["first"])
    kinds = sorted({o.kind for m in threads for o in m})
    for w in sorted(s.pairs):
        ctx.state(w)
    ctx.state("kinds", kinds)
    if len([1 for m in threads if m]) > 1 and any(n != -1 for _, n, _ in s.switches):
        ctx.nontrivial = True
    if armed is not None and armed.faulty:
        ctx.fault("isolated_fault")
    for t, m in enumerate(threads):
        for o in m:
            ctx.check(o.picture(o.out) == o.got, "modified-later",
                      lambda: f"the result of {o.kind} in thread {t} changed after the call had ended: "
                              f"{describe(o.got[1], o.picture(o.out)[1])}")
            if o.faulty and (not o.out.ok or o.got[1] == ("int", -1)):  # (-1: how simsonsuite refuses)
                continue
            ctx.check(o.got == o.want, "interference",
                      lambda: f"{o.kind} in thread {t} of {len(threads)} "
                              f"({', '.join(x.kind for x in sum(threads, []))}): run concurrently it "
                              f"{tell(o.got)}, run alone it {tell(o.want)}: {difference(o.want, o.got)}")
            ctx.probe("concurrent_" + o.kind)
    for (d, _), p in zip(shared, pictures):
        now = freeze(d)
        ctx.check(now == p, "modified", lambda: f"a mesh that was only read changed: {describe(p, now)}")


def tell(pic):
    return "returned" if pic[0] == "ok" else "raised " + str(pic[1])


def difference(a, b):
    if a[0] != b[0]:
        return ""
    if a[1] != b[1]:
        return str(describe(a[1], b[1]))
    if len(a) > 2 and a[2] != b[2]:
        x, y = a[2] or b"", b[2] or b""
        k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
        return f"files of {len(x)} and {len(y)} bytes that differ at byte {k}"
    return ""


# --------------------------------------------------------------------------- histories
def run_history(sut, scn, ctx):
    calls = {}
    for k, st in enumerate(scn["steps"]):
        if "call" in st:
            try:
                o = ops.setup(sut, ctx, st["call"], k, [])
            except hist.Skip as e:
                ctx.log("skip", e)
                continue
            o.want = baseline(o)
            calls[k] = o
    kept = []  # [name, object, picture]
    for k, st in enumerate(scn["steps"]):
        if "call" in st:
            if k not in calls:
                continue
            # inputs of its own: those of before may have been modified
            o = ops.setup(sut, ctx, st["call"], k, [])
            out = call(o.fn)
            ctx.steps += 1
            got = o.picture(out)
            ctx.log("call", o.kind, out.brief())
            ctx.check(got == calls[k].want, "history",
                      lambda: f"step {k + 1}: {o.kind} {tell(got)} after the calls and modifications before it, alone it "
                              f"{tell(calls[k].want)}: {difference(calls[k].want, got)}")
            ctx.probe("history_" + o.kind)
            for j, x in enumerate(o.inputs):
                kept.append([f"input {j + 1} of step {k + 1} ({o.kind})", x, freeze(x)])
            if out.ok and not o.writes and out.value is not None:
                same = [e for e in kept if e[1] is out.value]
                if not same and not (isinstance(out.value, tuple) and any(x is y for x in out.value for y in o.inputs)):
                    kept.append([f"result of step {k + 1} ({o.kind})", out.value, freeze(out.value)])
            out.value = None
        elif kept:
            rng = Rng(st["seed"])
            name, obj, _ = kept[st["scramble"] % len(kept)]
            ctx.steps += 1
            ctx.fault("modified_in_place")
            ctx.nontrivial = True
            ctx.log("scramble", name)
            inner = ops.parts(obj)
            if st["part"] and len(inner) > 1:
                i = rng.randrange(len(inner))
                before = [freeze(e) for e in inner]
                ops.scramble(inner[i], rng)
                for j, e in enumerate(inner):
                    now = freeze(e) if j != i else None
                    ctx.check(j == i or now == before[j], "shared-inside",
                              lambda: f"changing element {i} of the {name} changed its element {j}: "
                                      f"{describe(before[j], now)}")
            else:
                ops.scramble(obj, rng)
            kept[st["scramble"] % len(kept)][2] = freeze(obj)
            for other in kept:
                if other[1] is obj:
                    other[2] = freeze(obj)
                    continue
                now = freeze(other[1])
                ctx.check(now == other[2], "shared",
                          lambda: f"changing the {name} changed the {other[0]}: {describe(other[2], now)}")
            ctx.state("scramble", name.split("(")[-1], st["part"])
    os.chdir(ctx.scratch)
