"""C07: reading a torn or failing SIMSON file reports failure, never wrong data."""

import numpy as np

from .. import gens, iosim, plans, refnek
from .c01 import shrink_attempts
from .c06 import layers

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("A scenario is a SIMSON velocity or plane file made by the reference encoder (byte order, sizes, "
        "scalars, flow type) and one to five reads of its path, each of the complete file or of a prefix, "
        "under a buffer size, fragmentation and fault (read error, failing open, interrupt).  It is "
        "non-trivial if the file was torn, a read was fragmented or a fault fired.")
REAL = ["pymech.simsonsuite.readdns, readplane; pymech.core.HexaData (code under test)",
        "CPython's BufferedReader, numpy", "a real file in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO): partial transfers, injected errors", "builtins.open / io.open"]
ASSUMPTIONS = ["reads go through Python file objects obtained from open()",
               "the reference encoders (refnek.py) state the formats",
               "flow types 4 and 5 are left out (the layout of their record is ambiguous)"]


def gen(rng, tier, i):
    kind = rng.pick("dns", "plane")
    scn = {"kind": kind, "attempts": []}
    scn["spec"] = gens.gen_dns(rng) if kind == "dns" else gens.gen_plane(rng)
    for _ in range(rng.weighted((2, 1), (2, 2), (2, 3), (1, 5))):
        what = rng.weighted((2, "full"), (4, "cut"), (3, "fault"))
        a = {"what": what}
        if what == "fault":
            a.update(plans.gen_read_plan(rng, ((3, "eio_r"), (1, "open"), (1, "intr"), (1, "line"))))
        else:
            a.update(plans.gen_layers(rng))
        if what == "cut":
            a["pos"] = plans.gen_pos(rng)
        scn["attempts"].append(a)
    return scn


def shrink(scn):
    yield from shrink_attempts(scn)
    s = scn["spec"]
    cands = []
    if scn["kind"] == "dns":
        nx, ny, nz = s["lr1"]
        for lr in ([2, ny, nz], [nx, 2, nz], [nx, ny, 1], [nx, ny, 2]):
            cands.append(dict(s, lr1=lr))
        cands.append(dict(s, nscal=0))
        cands.append(dict(s, fltype=3))
    else:
        for j in range(len(s["nn"])):
            nn = list(s["nn"])
            nn[j] = 1
            cands.append(dict(s, nn=nn))
    cands += [dict(s, endian="little"), dict(s, seed=1)]
    for c in cands:
        if c != s:
            yield dict(scn, spec=c)


def case(sut, scn, path):
    if scn["kind"] == "dns":
        m = gens.build_dns(scn["spec"])
        full, sections = refnek.encode_dns(m)
        return full, sections, lambda: sut.simsonsuite.readdns(path), lambda v: diff_dns(v, m)
    m = gens.build_plane(scn["spec"])
    full, sections = refnek.encode_plane(m)
    return full, sections, lambda: sut.simsonsuite.readplane(path), lambda v: diff_plane(v, m)


def status(v):
    """A negative status code."""
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool) and v < 0


def diff_dns(d, m):
    if type(d).__name__ != "HexaData":
        return f"returned {type(d).__name__}"
    nx, ny, nz = m.lr1
    ndim = 3 if nz > 1 else 2
    for k, want in (("ndim", ndim), ("nel", 1), ("time", m.time), ("wdsz", 8), ("endian", m.endian)):
        if getattr(d, k) != want:
            return f"{k} is {getattr(d, k)!r}, expected {want!r}"
    if [int(x) for x in d.lr1] != list(m.lr1):
        return f"lr1 is {d.lr1}"
    if [int(x) for x in d.var] != [ndim, ndim, 0, 0, m.nscal]:
        return f"var is {d.var}"
    el = d.elem[0]
    bx, bz, by = m.box[0], m.box[1], 2 / m.dstar
    x = np.broadcast_to((bx / nx * np.arange(nx))[None, None, :], (nz, ny, nx))
    y = np.broadcast_to((by * (1 - np.cos(np.arange(ny) * np.pi / (ny - 1))) / 2)[None, :, None], (nz, ny, nx))
    z = np.broadcast_to((bz / nz * (np.arange(nz) - nz / 2))[:, None, None], (nz, ny, nx))
    for i, want in enumerate((x, y, z)):
        got = el.pos[i]
        scale = (bx, by, bz)[i]
        if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-13 * scale):
            return f"coordinate {i} differs {gens.first_diff(got, want)}"
    if el.vel.shape != (3, nz, ny, nx) or el.scal.shape != (m.nscal, nz, ny, nx):
        return f"shapes {el.vel.shape} {el.scal.shape}"
    for c in range(3 + m.nscal):
        got = el.vel[c] if c < 3 else el.scal[c - 3]
        mean = got.mean(axis=(0, 2))
        want = m.coef[c, 0, :, 0] * ((-1) ** c if c < 3 else 1)
        tol = 1e-10 * (1 + np.abs(m.coef).max() * nx * nz)
        if not np.all(np.abs(mean - want) <= tol):
            return f"mean profile of component {c} is {mean.tolist()}, expected {want.tolist()}"
    return None


def diff_plane(v, m):
    if not (isinstance(v, tuple) and len(v) == 4):
        return f"returned {type(v).__name__}"
    x, d, nn, ndim = v
    n = len(m.nn)
    if ndim != n or [int(k) for k in nn] != list(m.nn):
        return f"sizes {ndim} {nn}, expected {n} {m.nn}"
    if not gens.same(np.asarray(d), m.data):
        return "values differ " + gens.first_diff(np.asarray(d), m.data)
    want = m.coords[0] if n == 1 else np.array(m.coords)
    if not gens.same(np.asarray(x), want):
        return "coordinates differ " + gens.first_diff(np.asarray(x), want)
    return None


def run(sut, scn, ctx):
    path = ctx.path("field.u" if scn["kind"] == "dns" else "plane.p")
    full, sections, read, differs = case(sut, scn, path)
    ctx.log("file", scn["kind"], len(full))
    reference = None
    for a in scn["attempts"]:
        data, damaged = full, False
        if a["what"] == "cut":
            pos = plans.resolve_pos(a["pos"], len(full), sections)
            data, damaged = full[:pos], pos < len(full)
        if reference is None and scn["kind"] == "dns":
            # the transformed fluctuations are compared with those of the healthy complete file
            iosim.put(path, full)
            out = iosim.call(read)
            ctx.check(out.ok and not status(out.value), "spurious-failure",
                      lambda: f"reading a complete, healthy file {out!r} {out.value!r}")
            reference = out.value
        if damaged:
            ctx.nontrivial = True
            ctx.fault("torn_file")

        def reset():
            iosim.put(path, data)

        reset()
        att = iosim.attempt(ctx, read, layers(a), len(full), sections, reset=reset)
        out = att.out
        ctx.state(scn["kind"], a["what"], sorted(set(att.fired)), out.brief(),
                  plans.section_at(len(data), sections) if a["what"] == "cut" else "")
        if not out.ok or status(out.value):
            ctx.check(damaged or att.faulted, "spurious-failure",
                      lambda: f"reading a complete, healthy file {out!r} {out.value!r}")
            ctx.probe("detected")
            continue
        diff = differs(out.value)
        if diff is None and reference is not None:
            for name in ("vel", "scal", "pos"):
                a1, a2 = getattr(out.value.elem[0], name), getattr(reference.elem[0], name)
                if not gens.same(a1, a2):
                    diff = f"{name} is not what the complete file gives {gens.first_diff(a1, a2)}"
        ctx.check(diff is None, "wrong-data",
                  lambda: f"reading a {scn['kind']} file ({a['what']}, {len(data)} of {len(full)} bytes, "
                  f"faults {att.fired}) returned something else than the file holds: {diff}")
        ctx.probe("read_exactly_" + a["what"])
