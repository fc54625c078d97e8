"""C04: a binary mesh write that reports success has stored the mesh."""


import numpy as np

from .. import gens, iosim, plans, refnek
from .c01 import judge_write, shrink_attempts

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("A scenario is a mesh (dimensions, elements, curved sides, fields of conditions, byte order), what "
        "is at the path beforehand, and one to four successive .re2 writes each with its buffer size, "
        "fragmentation and fault (full disk, write error, failing close or open, kill, interrupt at a file "
        "operation or program line).  It is non-trivial if a write was fragmented or a fault fired.")
REAL = ["pymech.neksuite.mesh.writere2, readre2; pymech.core.HexaData (code under test)",
        "CPython's BufferedWriter/BufferedReader, numpy", "a real file in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO): partial transfers, injected errors, death", "builtins.open / io.open"]
ASSUMPTIONS = ["writes go through Python file objects obtained from open(), or are caught by the file "
               "size limit of the operating system", "the reference decoder (refnek.py) states the format",
               "curve types are single characters and labels at most three (what Nek5000 knows)"]


def gen(rng, tier, i):
    return {"mesh": gens.gen_mesh(rng, big=rng.chance(0.01), fmt="re2"),
            "prior": rng.weighted((2, "none"), (1, "empty"), (1, "short"), (3, "long"), (1, "valid"),
                                  (1, "torn")),
            "path": rng.pick("str", "str", "path", "relative"),
            "attempts": [plans.gen_write_plan(rng)
                         for _ in range(rng.weighted((3, 1), (2, 2), (1, 3), (0.5, 4)))]}


def shrink(scn):
    yield from shrink_attempts(scn)
    for f in shrink_mesh(scn["mesh"]):
        yield dict(scn, mesh=f)
    if scn.get("prior", "none") != "none":
        yield dict(scn, prior="none")
    if scn.get("path") != "str":
        yield dict(scn, path="str")


def shrink_mesh(f):
    if f["nel"] > 1:
        for n in (1, 2, f["nel"] // 2, f["nel"] - 1):
            if 0 < n < f["nel"]:
                yield dict(f, nel=n)
    for k, v in (("nbc", 0), ("nbc", 1), ("curv", 0.0), ("curv", 0.1), ("fill", 1.0), ("intern", 0.0),
                 ("geo", "grid"), ("seed", 1), ("dtype", "float64"), ("ndim", 2), ("endian", "little"),
                 ("stale_ncurv", False), ("stale_own", False), ("order", None),
                 ("odd_endian", None), ("readonly", False)):
        if k in f and f[k] != v and not (k == "nbc" and f["nbc"] < v):
            yield dict(f, **{k: v})


def run(sut, scn, ctx):
    spec = scn["mesh"]
    m = gens.build_mesh(spec, "re2")
    d = gens.hexa_mesh(sut, spec, m)
    full, sections = refnek.encode_re2(m)
    path = ctx.path("mesh.re2")
    arg = iosim.spelled(path, scn.get("path"))
    iosim.set_prior(path, scn["prior"], full)
    ctx.log("mesh", spec["ndim"], spec["nel"], spec["nbc"], len(full))
    for plan in scn["attempts"]:
        att = iosim.attempt(ctx, lambda: sut.neksuite.writere2(arg, d), plan, len(full), sections)
        judge_write(ctx, att, plan, "writere2")
        kinds = sorted(set(att.fired) | ({"line"} if att.line_fired else set()))
        ctx.state("write", kinds, att.out.brief(), spec["ndim"], spec["nbc"], bool(plan.get("frag")),
                  [plans.section_at(plans.resolve_pos(f["pos"], len(full), sections), sections)
                   for f in plan.get("faults", ()) if "pos" in f])
        if att.out.ok:
            check_file(ctx, sut, path, m)
        ctx.count("acknowledged" if att.out.ok else "failed_or_killed")


def check_file(ctx, sut, path, m):
    data = iosim.get(path)
    ctx.check(data is not None, "lost-data", "success reported but there is no file")
    try:
        dec = refnek.decode_re2(data, m.nbc)
    except (refnek.FormatError, ValueError) as e:
        ctx.check(False, "lost-data", f"success reported but the file is not a complete .re2 file: {e}")
    for k in ("nel", "ndim", "endian"):
        ctx.check(getattr(dec, k) == getattr(m, k), "wrong-metadata",
                  lambda: f"{k} in the file is {getattr(dec, k)!r}, expected {getattr(m, k)!r}")
    ctx.check(gens.same(dec.pos, m.pos), "wrong-data",
              lambda: f"vertices in the file differ {gens.first_diff(dec.pos, m.pos)}")
    check_records(ctx, dec.curves, refnek.curves_of(m), "curved sides")
    for b in range(m.nbc):
        check_records(ctx, dec.fields[b], refnek.conditions_of(m, b), f"conditions of field {b}")
    out = iosim.call(sut.neksuite.readre2, path)
    ctx.check(out.ok, "unreadable", lambda: f"the reader refuses the file just written: {out!r}")
    diff = gens.diff_mesh(out.value, m, drop_internal=True)
    ctx.check(diff is None, "wrong-read-back", lambda: "reading back: " + diff)
    ctx.probe("verified_files")


def check_records(ctx, got, want, what):
    key = lambda r: (r[0], r[1])  # noqa: E731
    ctx.check(len(got) == len(want), "wrong-data",
              lambda: f"{len(got)} {what} in the file, expected {len(want)}")
    for g, w in zip(sorted(got, key=key), sorted(want, key=key)):
        ok = g[:3] == w[:3] and gens.same(np.asarray(g[3], float), np.asarray(w[3], float))
        ctx.check(ok, "wrong-data", lambda: f"{what}: the file has {g}, expected {w[:3]} {w[3].tolist()}")
