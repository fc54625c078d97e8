"""C06: reading a torn or failing mesh or map file never yields a wrong mesh."""


import numpy as np

from .. import gens, iosim, plans, refnek
from .c01 import shrink_attempts
from .c04 import shrink_mesh

RUNS = {"quick": 2800, "thorough": 70000}
RULE = ("A scenario is a .re2, .rea or .ma2 file made by the reference encoder and one to five reads of its "
        "path, each of the complete file, of a prefix, of a file that grows while it is read, or (binary "
        "formats) with a damaged byte-order tag, under a buffer size, fragmentation and fault (read error, "
        "failing open, interrupt).  It is non-trivial if the file was torn, damaged or growing, a read was "
        "fragmented or a fault fired.")
REAL = ["pymech.neksuite.mesh.readre2, readrea; pymech.neksuite.map.readma2; pymech.core.HexaData (code "
        "under test)", "CPython's BufferedReader/TextIOWrapper, numpy",
        "a real file in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO): partial transfers, injected errors", "builtins.open / io.open",
        "the appending writer (file contents advanced at chosen read operations)"]
ASSUMPTIONS = ["reads go through Python file objects obtained from open()",
               "the reference encoders (refnek.py) state the formats"]

RTOL = 1e-6


def gen(rng, tier, i):
    fmt = rng.weighted((3, "re2"), (3, "rea"), (1.5, "ma2"))
    scn = {"fmt": fmt, "path": rng.pick("str", "str", "path", "relative"), "attempts": []}
    if fmt == "ma2":
        scn["map"] = gens.gen_ma2(rng)
    else:
        scn["mesh"] = gens.gen_mesh(rng, big=rng.chance(0.015), fmt=fmt)
        scn["mesh"]["stale_ncurv"] = scn["mesh"]["stale_own"] = False
        scn["mesh"]["dtype"] = "float64"
        if fmt == "rea":
            scn["style"] = {"npar": rng.pick(103, 118, 0, 7), "nscal": rng.pick(4, 0, 1),
                            "nlogic": rng.pick(13, 0, 5), "tail": rng.chance(0.8), "solid": rng.chance(0.12)}
    if i % 1400 == 3 and fmt != "ma2":
        # element numbers of six digits
        scn["mesh"].update(ndim=2, nel=rng.randint(100_001, 100_400), nbc=1, geo="normal", curv=0.01,
                           tiny=False, blank=False, layout=None)
        scn["fmt"], scn["wall"], scn["mem_gb"] = "rea", 300, 8
        scn.setdefault("style", {})
        scn["attempts"] = [dict(plans.gen_layers(rng), what="full"),
                           dict(plans.gen_read_plan(rng, ((3, "eio_r"), (1, "intr"))), what="fault")]
        return scn
    for _ in range(rng.weighted((2, 1), (2, 2), (2, 3), (1, 5))):
        scn["attempts"].append(gen_read(rng, fmt))
    return scn


def gen_read(rng, fmt):
    what = rng.weighted((2, "full"), (4, "cut"), (3, "fault"), (2, "grow"), (1 if fmt != "rea" else 0, "tag"))
    a = {"what": what}
    if what == "fault":
        a.update(plans.gen_read_plan(rng, ((3, "eio_r"), (1, "open"), (1, "intr"), (1, "line"))))
    else:
        a.update(plans.gen_layers(rng))
    if what in ("cut", "grow"):
        a["pos"] = plans.gen_pos(rng)
    if what == "grow":
        a["steps"] = [{"opf": round(rng.random(), 4), "to": plans.gen_pos(rng)}
                      for _ in range(rng.randint(1, 4))]
    if what == "tag":
        a["bits"] = sorted(rng.sample(range(32), rng.pick(1, 1, 2, 3, 8)))
    return a


def shrink(scn):
    yield from shrink_attempts(scn)
    if "mesh" in scn:
        for f in shrink_mesh(scn["mesh"]):
            yield dict(scn, mesh=f)
    else:
        n = scn["map"]["nel"]
        for k in (1, 2, n // 2, n - 1):
            if 0 < k < n:
                yield dict(scn, map=dict(scn["map"], nel=k))
    if scn["path"] != "str":
        yield dict(scn, path="str")
    for i, a in enumerate(scn["attempts"]):
        if a["what"] == "grow" and len(a["steps"]) > 1:
            for j in range(len(a["steps"])):
                b = dict(a, steps=a["steps"][:j] + a["steps"][j + 1:])
                yield dict(scn, attempts=scn["attempts"][:i] + [b] + scn["attempts"][i + 1:])


TAG = {"re2": 80, "ma2": 132}


def layers(a):
    return {k: a[k] for k in ("bufsize", "frag", "faults", "line") if k in a}


def contents(scn, a, full, sections):
    if a["what"] in ("cut", "grow"):
        pos = plans.resolve_pos(a["pos"], len(full), sections)
        return full[:pos], pos < len(full)
    if a["what"] == "tag":
        b = bytearray(full)
        for bit in a["bits"]:
            b[TAG[scn["fmt"]] + bit // 8] ^= 1 << (bit % 8)
        return bytes(b), True
    return full, False


def case(sut, scn, path, arg):
    """The model, its file and the read with its oracle: diff(value, torn) -> None or description."""
    fmt = scn["fmt"]
    if fmt == "ma2":
        m = gens.build_ma2(scn["map"])
        full, sections = refnek.encode_ma2(m)
        return full, sections, lambda: sut.neksuite.readma2(arg), lambda v, torn: diff_ma2(v, m)
    m = gens.build_mesh(scn["mesh"], fmt)
    if fmt == "re2":
        full, sections = refnek.encode_re2(m)
        return (full, sections, lambda: sut.neksuite.readre2(arg),
                lambda v, torn: gens.diff_mesh(v, m, drop_internal=True, torn=torn))
    full, sections = refnek.encode_rea(m, scn.get("style"))
    return (full, sections, lambda: sut.neksuite.readrea(arg),
            lambda v, torn: gens.diff_mesh(v, m, rtol=RTOL, torn=torn, endian=False))


def diff_ma2(v, m):
    if not (isinstance(v, tuple) and len(v) == 2):
        return f"returned {type(v).__name__}"
    cell, procmap = v
    if not gens.same(np.asarray(procmap, float), m.procmap.astype(float)):
        return "processor map differs " + gens.first_diff(np.asarray(procmap, float), m.procmap.astype(float))
    if not gens.same(np.asarray(cell, float), m.cell.astype(float)):
        return "vertices differ " + gens.first_diff(np.asarray(cell, float), m.cell.astype(float))
    return None


def run(sut, scn, ctx):
    fmt = scn["fmt"]
    path = ctx.path("mesh." + fmt)
    arg = iosim.spelled(path, scn["path"])
    full, sections, read, differs = case(sut, scn, path, arg)
    ctx.log("file", fmt, len(full))
    for a in scn["attempts"]:
        data, damaged = contents(scn, a, full, sections)
        if a["what"] == "tag" and tag_ok(data, TAG[fmt]):
            continue  # still a valid tag: nothing to detect
        if damaged:
            ctx.nontrivial = True
            ctx.fault("torn_file" if a["what"] == "cut" else a["what"] + "_file")

        def reset():
            iosim.put(path, data)

        reset()
        grow = {"steps": a["steps"], "data": full} if a["what"] == "grow" else None
        att = iosim.attempt(ctx, read, layers(a), len(full), sections, grow=grow, reset=reset)
        out = att.out
        ctx.state(fmt, a["what"], sorted(set(att.fired)), out.brief(),
                  plans.section_at(len(data), sections) if a["what"] == "cut" else "")
        if not out.ok:
            ctx.check(damaged or att.faulted, "spurious-failure",
                      lambda: f"reading a complete, healthy {fmt} file {out!r}")
            ctx.probe("detected")
            continue
        diff = differs(out.value, damaged)
        ctx.check(diff is None, "wrong-data",
                  lambda: f"reading a {fmt} file ({a['what']}, {len(data)} of {len(full)} bytes, faults "
                  f"{att.fired}) returned something else than the file holds: {diff}")
        ctx.probe("read_exactly_" + a["what"])


def tag_ok(data, at):
    import struct

    vals = struct.unpack("<f", data[at:at + 4]) + struct.unpack(">f", data[at:at + 4])
    return any(abs(x - 6.54321) < 2e-5 for x in vals)
