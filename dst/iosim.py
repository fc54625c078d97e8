"""One simulated call into a reader or writer, under a fault plan."""

import os
import pathlib

from . import plans, tracer
from .core import call
from .simfs import SimFS, get, put

HARD = ("enospc", "eio_w", "eio_r", "close", "open", "kill", "intr")


class Attempt:
    __slots__ = ("out", "fired", "line_fired", "ops", "handles", "dead", "armed")

    @property
    def faulted(self):
        return bool(self.fired) or self.line_fired


def scaled(plan, size):
    if "frag" in plan:
        plan = dict(plan, frag=dict(plan["frag"], max=max(plan["frag"]["max"], size // 1500)))
    return plan


def attempt(ctx, fn, plan, size, sections, only=None, grow=None, reset=None, step_hook=None):
    """Run fn() under the plan.  `reset` restores what a dry run may have changed."""
    plan = scaled(plan, size)
    nops = at = None
    if plans.needs_ops(plan) or "line" in plan or grow:
        dry = {k: v for k, v in plan.items() if k in ("bufsize", "frag")}
        fs = SimFS(_Quiet(ctx), dry, only)
        if reset:
            reset()
        with fs:
            if "line" in plan:
                tr = tracer.recorder(plan["line"])
                with tr:
                    call(fn)
                at = tracer.resolve_line(plan["line"], tr)
            else:
                call(fn)
        nops = fs.ops
        if reset:
            reset()
    rp = plans.resolve(plan, size, sections, nops)
    if grow:
        rp.setdefault("faults", [])
        for g in grow["steps"]:
            rp["faults"].append({"kind": "grow", "op": int(g["opf"] * max(1, nops)),
                                 "to": plans.resolve_pos(g["to"], size, sections)})
    fs = SimFS(ctx, rp, only)
    if grow:
        fs.grow_data = grow["data"]
    a = Attempt()
    a.line_fired = False
    with fs:
        if "line" in plan:
            tr = tracer.interrupted(plan["line"], at)
            with tr:
                a.out = call(fn)
            if tr.fired:
                a.line_fired = True
                ctx.fault("line_interrupt")
                ctx.log("INTERRUPT", tr.n)
        else:
            a.out = call(fn)
    a.fired = list(fs.fired)
    a.ops = fs.ops
    a.dead = fs.dead
    a.handles = fs.open_handles()
    if any(f["kind"] == "enospc" for f in rp.get("faults", ())) and not a.out.ok and a.out.is_oserror:
        # refused by the operating system's own limit, behind the file object's back
        if "enospc" not in a.fired and "File too large" in a.out.msg:
            a.fired.append("enospc")
            ctx.fault("enospc")
    ctx.log("outcome", a.out.brief(), "faults", *[f for f in a.fired])
    return a


class _Quiet:
    """A context that records nothing (dry runs)."""

    def __init__(self, ctx):
        self.scratch = ctx.scratch
        self.steps = 0

    def log(self, *a):
        pass

    def count(self, *a):
        pass

    def fault(self, *a):
        pass


def spelled(path, how):
    """The path as the caller writes it."""
    if how == "path":
        return pathlib.Path(path)
    if how == "relative":
        return os.path.relpath(path)
    return path


def set_prior(path, kind, full=None, seed=0):
    """What is at the path before a write."""
    import random

    if os.path.lexists(path):
        os.remove(path)
    r = random.Random(seed)
    if kind == "none":
        return None
    if kind == "empty":
        data = b""
    elif kind == "short":
        data = r.randbytes(50)
    elif kind == "long":
        data = r.randbytes((len(full) if full else 1000) + 777)
    elif kind == "valid":
        data = full
    elif kind == "torn":
        data = full[: len(full) // 2]
    else:
        raise ValueError(kind)
    put(path, data)
    return data


__all__ = ["Attempt", "attempt", "set_prior", "get", "put", "HARD"]
