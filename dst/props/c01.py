"""C01: a field write that reports success has stored the whole field."""


import numpy as np

from .. import gens, iosim, plans, refnek

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("A scenario is a field (dimensions, orders, variables, precision, byte order, element map, "
        "in-memory type, values), what is at the path beforehand, and one to four successive write "
        "attempts each with its buffer size, fragmentation and fault (full disk, write error, failing "
        "close or open, kill, interrupt at a file operation or at a program line). It is non-trivial if "
        "a write was fragmented or a fault fired.")
REAL = ["pymech.neksuite.field.writenek, readnek, Header; pymech.core.HexaData (code under test)",
        "CPython's BufferedWriter/BufferedReader, numpy", "a real file in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO): partial transfers, injected errors, death", "builtins.open / io.open"]
ASSUMPTIONS = ["writes go through Python file objects obtained from open(), or are caught by the file "
               "size limit of the operating system", "the reference decoder (refnek.py) states the format"]


def gen(rng, tier, i):
    spec = gens.gen_field(rng, big=rng.chance(0.04))
    if rng.chance(0.12):
        spec["elmap"] = {"zero": rng.weighted((1, "all"), (2, rng.seed32()))}
    n = rng.weighted((3, 1), (2, 2), (1, 3), (0.5, 4))
    atts = [plans.gen_write_plan(rng) for _ in range(n)]
    return {"field": spec,
            "prior": rng.weighted((2, "none"), (1, "empty"), (1, "short"), (3, "long"), (1, "valid"),
                                  (1, "torn")),
            "path": rng.pick("str", "str", "path", "relative"),
            "attempts": atts}


def shrink(scn):
    yield from shrink_attempts(scn)
    for f in shrink_field(scn["field"]):
        yield dict(scn, field=f)
    if scn.get("prior", "none") != "none":
        yield dict(scn, prior="none")
    if scn.get("path") != "str":
        yield dict(scn, path="str")


def shrink_attempts(scn):
    a = scn["attempts"]
    for i in range(len(a)):
        if len(a) > 1:
            yield dict(scn, attempts=a[:i] + a[i + 1:])
    for i in range(len(a)):
        for p in plans.shrink_plan(a[i]):
            yield dict(scn, attempts=a[:i] + [p] + a[i + 1:])


def shrink_field(f):
    if f["nel"] > 1:
        for n in (1, 2, f["nel"] // 2, f["nel"] - 1):
            if 0 < n < f["nel"]:
                yield dict(f, nel=n)
    for k, v in (("elmap", "id"), ("elmap_dtype", "int32"), ("mode", "index"), ("seed", 1), ("time", 0.5),
                 ("istep", 1), ("dtype", "float64"), ("seq", "list"), ("fortran", False),
                 ("junk_z", False), ("odd_endian", None), ("readonly", False), ("endian", "little"), ("wdsz", 8)):
        if f.get(k) != v:
            yield dict(f, **{k: v})
    for j in range(5):
        if f["var"][j]:
            for x in {0, f["var"][j] - 1 if j == 4 else 0, 1 if j == 4 else 0}:
                v = list(f["var"])
                if x < v[j]:
                    v[j] = x
                    if any(v):
                        yield dict(f, var=v)
    for j in range(3):
        if f["lr1"][j] > 2:
            lr = list(f["lr1"])
            lr[j] = 2
            yield dict(f, lr1=lr)


def run(sut, scn, ctx):
    spec = scn["field"]
    m = gens.build_field(spec)
    d = gens.hexa_field(sut, spec, m)
    with np.errstate(all="ignore"):
        full, sections = refnek.encode_fld(m)
    path = ctx.path("field0.f00001")
    arg = iosim.spelled(path, scn.get("path"))
    iosim.set_prior(path, scn["prior"], full)
    ctx.log("field", spec["ndim"], spec["nel"], spec["lr1"], spec["var"], spec["wdsz"], len(full))
    for plan in scn["attempts"]:
        att = iosim.attempt(ctx, lambda: sut.neksuite.writenek(arg, d), plan, len(full), sections)
        judge_write(ctx, att, plan, "writenek")
        kinds = sorted(set(att.fired) | ({"line"} if att.line_fired else set()))
        ctx.state("write", kinds, att.out.brief(), spec["ndim"], bool(plan.get("frag")),
                  [plans.section_at(plans.resolve_pos(f["pos"], len(full), sections), sections)
                   for f in plan.get("faults", ()) if "pos" in f])
        if att.out.ok:
            check_file(ctx, sut, path, m)
        ctx.count("acknowledged" if att.out.ok else "failed_or_killed")


def judge_write(ctx, att, plan, what):
    out = att.out
    if out.ok:
        ctx.check(out.value is None or (isinstance(out.value, (int, np.integer)) and out.value == 0),
                  "bad-status", f"{what} returned {out.value!r}")
        ctx.check("close" not in att.fired, "lost-error", f"{what} reported success although close() failed")
        ctx.check("kill" not in att.fired, "swallowed-death", f"{what} survived its own death")
        ctx.check("open" not in att.fired or any(f.get("once") for f in plan.get("faults", ())),
                  "lost-error", f"{what} reported success although the file could not be opened")
    else:
        ctx.check(att.faulted, "spurious-failure", lambda: f"{what} {out!r} without any fault")


def check_file(ctx, sut, path, m):
    data = iosim.get(path)
    ctx.check(data is not None, "lost-data", "success reported but there is no file")
    try:
        dec = refnek.decode_fld(data)
    except refnek.FormatError as e:
        ctx.check(False, "lost-data", f"success reported but the file is not a complete field file: {e}")
    for name, want in (("wdsz", m.wdsz), ("lr1", m.lr1), ("nel", m.nel), ("istep", m.istep),
                       ("var", m.var), ("endian", m.endian), ("ndim", m.ndim),
                       ("time", gens.round_time(m.time))):
        ctx.check(getattr(dec, name) == want, "wrong-metadata",
                  lambda: f"{name} in the file is {getattr(dec, name)!r}, expected {want!r}")
    ctx.check(list(dec.elmap) == list(m.elmap), "wrong-metadata",
              lambda: f"element map in the file is {list(dec.elmap)[:10]}, expected {list(m.elmap)[:10]}")
    with np.errstate(all="ignore"):
        for key, a in refnek.field_blocks(m):
            want = a.astype(np.float32 if m.wdsz == 4 else np.float64)
            ctx.check(gens.same(dec.blocks[key], want), "wrong-data",
                      lambda: f"{key} in the file differs {gens.first_diff(dec.blocks[key], want)}")
            if m.ndim == 3:
                ext = refnek._extrema(a).astype(np.float32)
                rounded = refnek._extrema(want).astype(np.float32)
                got = dec.ext[key]
                ctx.check(_ext_ok(got, ext, rounded), "wrong-extrema",
                          lambda: f"extrema of {key} differ {gens.first_diff(got, ext)}")
    out = iosim.call(sut.neksuite.readnek, path)
    ctx.check(out.ok, "unreadable", lambda: f"the reader refuses the file just written: {out!r}")
    diff = gens.diff_field(out.value, m)
    ctx.check(diff is None, "wrong-read-back", lambda: "reading back: " + diff)
    ctx.probe("verified_files")


def _ext_ok(got, a, b):
    """Extrema of the data or of the rounded data; elements holding NaN are not specified (the order
    of comparisons decides), nor is the sign of a zero."""
    bad = np.isnan(a) | np.isnan(b)
    with np.errstate(all="ignore"):
        return got.shape == a.shape and bool(np.all(bad | (got == a) | (got == b)))
