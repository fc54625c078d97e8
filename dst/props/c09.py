"""C09: after a failed or interrupted call nothing lingers and a retry succeeds."""

import os

import numpy as np

from .. import gens, iosim, plans, refnek
from ..core import changed_state, program_state
from ..tracer import gen_line
from . import c01, c04, c05, c06, c07

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("A scenario is one of the read or write functions and a history of one to six steps on one path: a "
        "call hit by a fault (device error, full disk, failing open or close, interrupt at a file operation, "
        "program line or bytecode), then the fault clears and the same call is repeated; between the steps "
        "the file may be replaced by a different one of the same size, with its timestamp frozen, jumping "
        "or running.  It is non-trivial if a fault fired or the file was replaced.")
REAL = ["all read and write functions of pymech.neksuite, pymech.simsonsuite and pymech.dataset (code under "
        "test)", "CPython's file objects, numpy, xarray", "real files in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO)", "builtins.open / io.open", "file timestamps (set with utime)",
        "asynchronous exceptions (raised by a trace function at a chosen program point)"]
ASSUMPTIONS = ["files are opened with open(), or at least appear in /proc/self/fd"]
KINDS = ("readnek", "header", "writenek", "readre2", "writere2", "readrea", "writerea", "readma2", "readdns",
         "readplane", "dataset")


def gen(rng, tier, i):
    kind = KINDS[i % len(KINDS)] if i < 200 else rng.pick(*KINDS)
    scn = {"kind": kind, "steps": [], "clock": rng.pick("frozen", "jump", "run")}
    if kind in ("readnek", "header", "writenek"):
        scn["spec"] = gens.gen_field(rng, small=rng.chance(0.5))
    elif kind in ("readre2", "writere2"):
        scn["spec"] = gens.gen_mesh(rng, small=rng.chance(0.5), fmt="re2")
    elif kind in ("readrea", "writerea"):
        scn["spec"] = gens.gen_mesh(rng, small=rng.chance(0.5), fmt="rea")
    elif kind == "readma2":
        scn["spec"] = gens.gen_ma2(rng)
    elif kind == "readdns":
        scn["spec"] = gens.gen_dns(rng)
    elif kind == "readplane":
        scn["spec"] = gens.gen_plane(rng)
    else:
        scn["spec"] = gens.gen_boxfield(rng, small=True)
    if "stale_own" in scn["spec"]:
        scn["spec"]["stale_own"] = False
    writer = kind.startswith("write")
    for _ in range(rng.randint(1, 6)):
        st = {"variant": rng.randrange(3)}
        if rng.chance(0.75):
            st["plan"] = gen_fault(rng, writer)
        scn["steps"].append(st)
    return scn


def gen_fault(rng, writer):
    plan = plans.gen_layers(rng, 0.3)
    faults = []
    k = rng.weighted((2, "intr"), (3, "line"), (1, "open"), (3, "dev"), (0.5 if writer else 0, "close"))
    if k == "intr":
        faults.append({"kind": "intr", "opf": round(rng.random(), 6), "exc": plans.gen_exc(rng)})
    elif k == "line":
        plan["line"] = gen_line(rng, plans.gen_exc(rng))
    elif k == "open":
        faults.append({"kind": "open", "err": rng.pick(*plans.OPEN_ERRORS)})
    elif k == "close":
        faults.append({"kind": "close"})
    elif writer:
        faults.append({"kind": rng.pick("enospc", "eio_w"), "pos": plans.gen_pos(rng)})
    else:
        faults.append({"kind": "eio_r", "pos": plans.gen_pos(rng), "hard": rng.chance(0.5)})
    if faults:
        plan["faults"] = faults
    return plan


def shrink(scn):
    s = scn["steps"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(scn, steps=s[:i] + s[i + 1:])
    for i in range(len(s)):
        if "plan" in s[i]:
            for p in plans.shrink_plan(s[i]["plan"]):
                yield dict(scn, steps=s[:i] + [dict(s[i], plan=p)] + s[i + 1:])
            b = dict(s[i])
            del b["plan"]
            yield dict(scn, steps=s[:i] + [b] + s[i + 1:])
    spec = scn["spec"]
    if scn["kind"] in ("readnek", "header", "writenek"):
        for f in c01.shrink_field(spec):
            yield dict(scn, spec=f)
    elif "curv" in spec:
        for f in c04.shrink_mesh(spec):
            yield dict(scn, spec=f)
    if scn["clock"] != "frozen":
        yield dict(scn, clock="frozen")


# --------------------------------------------------------------------------- variants of one size
def model(kind, spec, variant):
    """Variants have files of the same size with other contents."""
    if kind in ("readnek", "header", "writenek"):
        s = dict(spec, seed=spec["seed"] + variant)
        if variant:
            s["elmap"] = ("id", "rot", "rev")[variant]
        m = gens.build_field(s)
        m.time, m.istep = m.time + 0.5 * variant, m.istep if variant != 1 else 77777
        return s, m
    if kind == "dataset":
        s = dict(spec, seed=spec["seed"] + variant, time=spec["time"] + variant, grid=spec["grid"] + variant)
        return s, gens.build_boxfield(s)
    if kind == "readma2":
        s = dict(spec, seed=spec["seed"] + variant)
        return s, gens.build_ma2(s)
    if kind == "readdns":
        s = dict(spec, seed=spec["seed"] + variant)
        return s, gens.build_dns(s)
    if kind == "readplane":
        s = dict(spec, seed=spec["seed"] + variant)
        return s, gens.build_plane(s)
    m = gens.build_mesh(spec, "re2" if kind.endswith("re2") else "rea")
    m.pos = m.pos * float((1, 2, -4)[variant]) + 0.0
    m.curv = m.curv * float((1, -2, 4)[variant]) + 0.0
    return spec, m


def encode(kind, m):
    if kind in ("readnek", "header", "writenek", "dataset"):
        with np.errstate(all="ignore"):
            return refnek.encode_fld(m)
    return {"readre2": refnek.encode_re2, "writere2": refnek.encode_re2, "readrea": refnek.encode_rea,
            "writerea": refnek.encode_rea, "readma2": refnek.encode_ma2, "readdns": refnek.encode_dns,
            "readplane": refnek.encode_plane}[kind](m)


NAMES = {"readnek": "f0.f00001", "header": "f0.f00001", "writenek": "f0.f00001", "readre2": "m.re2",
         "writere2": "m.re2", "readrea": "m.rea", "writerea": "m.rea", "readma2": "m.ma2",
         "readdns": "f.u", "readplane": "p.dat", "dataset": "f0.f00001"}


def function(sut, kind, path, d):
    n = sut.neksuite
    if kind.startswith("write"):
        w = getattr(n, kind)
        return lambda: w(path, d)
    return {"readnek": lambda: n.readnek(path), "header": lambda: n.field.read_header(path),
            "readre2": lambda: n.readre2(path), "readrea": lambda: n.readrea(path),
            "readma2": lambda: n.readma2(path), "readdns": lambda: sut.simsonsuite.readdns(path),
            "readplane": lambda: sut.simsonsuite.readplane(path),
            "dataset": lambda: sut.dataset.open_dataset(path)}[kind]


def differs(kind, v, m):
    if kind == "readnek":
        return gens.diff_field(v, m)
    if kind == "header":
        from .c02 import diff_header

        return diff_header(v, m)
    if kind == "readre2":
        return gens.diff_mesh(v, m, drop_internal=True)
    if kind == "readrea":
        return gens.diff_mesh(v, m, rtol=1e-6, endian=False)
    if kind == "readma2":
        return c06.diff_ma2(v, m)
    if kind == "readdns":
        return c07.diff_dns(v, m)
    if kind == "readplane":
        return c07.diff_plane(v, m)
    if type(v).__name__ != "Dataset":
        return f"returned {type(v).__name__}"
    return gens.diff_dataset(v, m)


def check_written(ctx, sut, kind, path, m):
    {"writenek": c01, "writere2": c04, "writerea": c05}[kind].check_file(ctx, sut, path, m)


def open_files(ctx):
    """Descriptors of files below the scratch directory."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if t.startswith(ctx.scratch + "/"):
            out.append(os.path.basename(t))
    return out


def run(sut, scn, ctx):
    kind, spec = scn["kind"], scn["spec"]
    writer = kind.startswith("write")
    folder = ctx.path("data")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, NAMES[kind])
    for step, st in enumerate(scn["steps"]):
        vspec, m = model(kind, spec, st["variant"])
        full, sections = encode(kind, m)
        d = None
        if kind == "writenek":
            d = gens.hexa_field(sut, vspec, m)
        elif writer:
            d = gens.hexa_mesh(sut, vspec, m)

        def prepare():
            if writer:
                return
            iosim.put(path, full)
            t = {"frozen": 1_000_000_000, "jump": (2_000_000_000 if step % 2 else 1_000), "run": None}[scn["clock"]]
            if t is not None:
                os.utime(path, (t, t))

        if kind == "writerea":
            iosim.call(function(sut, kind, path, d))
            size = os.path.getsize(path)
            sections = [("", 0, size)]
        else:
            size = len(full)
        prepare()
        if step and not writer:
            ctx.nontrivial = True
            ctx.fault("file_replaced")
        fn = function(sut, kind, path, d)
        if "plan" in st:
            before = program_state()
            att = iosim.attempt(ctx, fn, st["plan"], size, sections, reset=prepare)
            # (an interruption may hit the very statement that puts a setting back)
            other = None if att.line_fired else changed_state(before)
            ctx.check(other is None, "setting-left",
                      lambda: f"{kind} {att.out!r} (faults {att.fired}) and left the program changed - {other}")
            left = att.handles or open_files(ctx)
            failed = not att.out.ok or (kind in ("readdns", "readplane") and c07.status(att.out.value))
            att.out.value = None
            ctx.check(not left, "left-open",
                      lambda: f"{kind} {att.out!r} (faults {att.fired}) and left {left} open")
            ctx.state(kind, sorted(set(att.fired)), att.line_fired, att.out.brief())
            if failed:
                ctx.check(att.faulted, "spurious-failure", lambda: f"{kind} {att.out!r} without any fault")
                ctx.probe("failed_calls")
        prepare()
        layers = {k: v for k, v in st.get("plan", {}).items() if k in ("bufsize", "frag")}
        before = program_state()
        att = iosim.attempt(ctx, fn, layers, size, sections)
        other = changed_state(before)
        ctx.check(other is None, "setting-left", lambda: f"{kind} {att.out!r} and left the program changed - {other}")
        bad = kind in ("readdns", "readplane") and att.out.ok and c07.status(att.out.value)
        ctx.check(att.out.ok and not bad, "retry-failed",
                  lambda: f"{kind} repeated once the fault had cleared: {att.out!r} {att.out.value!r}")
        if writer:
            ctx.check(att.out.value is None or att.out.value == 0, "retry-failed",
                      lambda: f"{kind} returned {att.out.value!r}")
            check_written(ctx, sut, kind, path, m)
        else:
            diff = differs(kind, att.out.value, m)
            ctx.check(diff is None, "stale-or-wrong",
                      lambda: f"{kind} (step {step + 1}) did not return what the file at the path holds: {diff}")
        left = att.handles or open_files(ctx)
        ctx.check(not left, "left-open", lambda: f"{kind} succeeded but left {left} open")
        ctx.probe("retries_correct")
