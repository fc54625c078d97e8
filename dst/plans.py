"""Fault plans: generated as positions relative to the file, resolved when its layout is known."""

import errno

from .tracer import gen_line

OPEN_ERRORS = [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC, errno.EROFS, errno.EINTR, errno.EPERM]


def gen_pos(rng):
    """A position in a file: in proportion, near the start of a section, or near the end."""
    k = rng.random()
    if k < 0.4:
        return {"f": round(rng.random(), 6)}
    if k < 0.8:
        return {"s": rng.randrange(1 << 16), "d": rng.pick(0, 0, 1, -1, 2, 3, 4, 7, 8, -4, -8, 12, 63, 64, 65)}
    return {"e": rng.pick(1, 1, 2, 3, 4, 7, 8, 9, 16, 64)}


def resolve_pos(p, size, sections, lo=0, hi=None):
    hi = size if hi is None else hi
    if "f" in p:
        x = int(p["f"] * size)
    elif "s" in p:
        names = sections or [("", 0, size)]
        # the end of the file counts as the start of one more section
        starts = [s[1] for s in names] + [size]
        x = starts[p["s"] % len(starts)] + p["d"]
    elif "a" in p:
        x = p["a"]
    else:
        x = size - p["e"]
    return max(lo, min(hi, x))


def section_at(pos, sections):
    for name, a, b in sections:
        if a <= pos < b:
            return name
    return "end"


def gen_layers(rng, p_frag=0.5):
    """Buffer size and fragmentation: conditions that must change nothing."""
    plan = {}
    if rng.chance(0.5):
        plan["bufsize"] = rng.pick(1, 2, 3, 7, 16, 31, 132, 137, 512, 4096, 65536, 1 << 20)
    if rng.chance(p_frag):
        plan["frag"] = {"seed": rng.seed32(), "max": rng.pick(1, 2, 3, 5, 8, 17, 64, 131, 1000, 5000)}
    return plan


def gen_write_plan(rng):
    plan = gen_layers(rng)
    kind = rng.weighted((3, None), (3, "enospc"), (2, "eio_w"), (1, "close"), (1, "open"), (2, "kill"),
                        (2, "intr"), (1, "line"))
    faults = []
    if kind in ("enospc", "eio_w"):
        f = {"kind": kind, "pos": gen_pos(rng)}
        if kind == "eio_w" and rng.chance(0.3):
            f["once"] = True
        faults.append(f)
    elif kind == "close":
        faults.append({"kind": "close"})
    elif kind == "open":
        faults.append({"kind": "open", "err": rng.pick(*OPEN_ERRORS)})
    elif kind == "kill":
        faults.append({"kind": "kill", "opf": round(rng.random(), 6)})
    elif kind == "intr":
        faults.append({"kind": "intr", "opf": round(rng.random(), 6), "exc": gen_exc(rng)})
    elif kind == "line":
        plan["line"] = gen_line(rng, gen_exc(rng))
    if faults:
        plan["faults"] = faults
    return plan


def gen_read_plan(rng, kinds=None):
    plan = gen_layers(rng)
    kind = rng.weighted(*(kinds or ((2, None), (3, "eio_r"), (1, "open"), (1, "intr"), (1, "line"))))
    faults = []
    if kind == "eio_r":
        f = {"kind": "eio_r", "pos": gen_pos(rng)}
        if rng.chance(0.4):
            f["hard"] = True
        faults.append(f)
    elif kind == "open":
        faults.append({"kind": "open", "err": rng.pick(*OPEN_ERRORS)})
    elif kind == "intr":
        faults.append({"kind": "intr", "opf": round(rng.random(), 6), "exc": gen_exc(rng)})
    elif kind == "line":
        plan["line"] = gen_line(rng, gen_exc(rng))
    if faults:
        plan["faults"] = faults
    return plan


def gen_exc(rng):
    return rng.weighted((3, "KeyboardInterrupt"), (2, "MemoryError"), (0.5, "SystemExit"))


def needs_ops(plan):
    return any("opf" in f for f in plan.get("faults", ()))


def resolve(plan, size, sections, nops=None):
    """The same plan with absolute offsets and operation numbers."""
    out = {k: v for k, v in plan.items() if k in ("bufsize", "frag")}
    faults = []
    for f in plan.get("faults", ()):
        g = {k: v for k, v in f.items() if k not in ("pos", "opf")}
        if "pos" in f:
            g["at"] = resolve_pos(f["pos"], size, sections)
            if g["kind"] == "eio_r":
                g["at"] = min(g["at"], max(0, size - 1))
        if "opf" in f:
            g["op"] = int(f["opf"] * max(1, nops or 1))
        faults.append(g)
    if faults:
        out["faults"] = faults
    return out


def shrink_plan(plan):
    """Simpler plans."""
    if "frag" in plan:
        p = dict(plan)
        del p["frag"]
        yield p
        if plan["frag"]["seed"] != 1:
            yield dict(plan, frag=dict(plan["frag"], seed=1))
    if "bufsize" in plan:
        p = dict(plan)
        del p["bufsize"]
        yield p
    if plan.get("faults"):
        p = dict(plan)
        del p["faults"]
        yield p
        for i, f in enumerate(plan["faults"]):
            if "opf" in f and f["opf"] != 0.5:
                fs = list(plan["faults"])
                fs[i] = dict(f, opf=0.5)
                yield dict(plan, faults=fs)
    if "line" in plan:
        p = dict(plan)
        del p["line"]
        yield p
        if plan["line"].get("ops"):
            yield dict(plan, line={k: v for k, v in plan["line"].items() if k != "ops"})
