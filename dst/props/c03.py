"""C03: selective and converted reads agree with the full read."""

import numpy as np

from .. import gens, iosim, plans, refnek
from .c01 import shrink_attempts, shrink_field
from .c02 import ASSUMPTIONS, REAL, STUB, layers, storage_map  # noqa: F401

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("A scenario is a field file made by the reference encoder and one to five reads of it, each with its "
        "own set of variables to skip, floating type, buffer size and fragmentation, of the complete file, "
        "of a prefix, of a file whose skipped parts are overwritten with garbage, or with a read error "
        "anywhere or in the skipped parts.  It is non-trivial if a read was fragmented, the file damaged or "
        "a fault fired.")

NAMES = {"pos": [("x",), ("y",), ("z",)], "vel": [("ux", "vx"), ("uy", "vy"), ("uz", "vz")],
         "pres": [("pressure", "p")], "temp": [("temperature", "t")]}


def gen(rng, tier, i):
    spec = gens.gen_field(rng, big=rng.chance(0.03))
    scn = {"field": spec, "zero_map": rng.weighted((5, None), (1, "all"), (1, rng.seed32())), "attempts": []}
    nd, var = spec["ndim"], spec["var"]
    for _ in range(rng.weighted((2, 1), (2, 2), (2, 3), (1, 5))):
        skip = gen_skip(rng, nd, var)
        what = rng.weighted((3, "full"), (2, "cut"), (2, "garbage"), (2, "fault"), (1, "eio_skipped"))
        a = {"what": what, "skip": skip, "as": rng.pick("tuple", "list", "set"),
             "dtype": rng.weighted((4, "float64"), (3, "float32"), (1, "f4"), (1, "f8"), (1, "type32"),
                                   (1, "type64"))}
        if what == "fault":
            a.update(plans.gen_read_plan(rng, ((3, "eio_r"), (1, "open"), (1, "intr"), (1, "line"))))
        else:
            a.update(plans.gen_layers(rng))
        if what == "cut":
            a["pos"] = plans.gen_pos(rng)
        if what in ("garbage", "eio_skipped"):
            a["gseed"] = rng.seed32()
        scn["attempts"].append(a)
    return scn


def gen_skip(rng, nd, var):
    mode = rng.weighted((1, "none"), (2, "whole"), (3, "mixed"), (1, "all"), (2, "scal"))
    out = []
    style = rng.pick(0, 1, 2)

    def name(options):
        return options[style % len(options)] if style < 2 else rng.pick(*options)

    groups = []
    for part in ("pos", "vel"):
        groups.append([name(o) for o in NAMES[part][:nd]])
    groups.append([name(NAMES["pres"][0])])
    groups.append([name(NAMES["temp"][0])])
    groups.append(["s%02d" % (k + 1) for k in range(max(var[4], 1))])
    if mode == "whole":
        for g in groups:
            if rng.chance(0.4):
                out += g
    elif mode == "mixed":
        for g in groups:
            p = rng.pick(0.2, 0.5, 0.8)
            out += [x for x in g if rng.chance(p)]
    elif mode == "all":
        for g in groups:
            out += g
    elif mode == "scal":
        out += [x for x in groups[4] if rng.chance(0.6)]
    if rng.chance(0.2):
        out += [rng.pick("z", "uz", "p", "t", "s07", "s99", "nonexistent")]
    rng.shuffle(out)
    return out


def shrink(scn):
    yield from shrink_attempts(scn)
    for i, a in enumerate(scn["attempts"]):
        for k in range(len(a["skip"])):
            b = dict(a, skip=a["skip"][:k] + a["skip"][k + 1:])
            yield dict(scn, attempts=scn["attempts"][:i] + [b] + scn["attempts"][i + 1:])
        for k, v in (("dtype", "float64"), ("as", "tuple"), ("what", "full")):
            if a[k] != v:
                b = dict(a, **{k: v})
                yield dict(scn, attempts=scn["attempts"][:i] + [b] + scn["attempts"][i + 1:])
    for f in shrink_field(scn["field"]):
        yield dict(scn, field=f)
    if scn.get("zero_map"):
        yield dict(scn, zero_map=None)


def skipped_set(skip, var, nd):
    """The (part, component) pairs that a set of names asks to skip."""
    s = set(skip)
    out = set()
    for part, n in zip(gens.FIELD_PARTS[:4], var[:4]):
        for k in range(n):
            if s & set(NAMES[part][k]):
                out.add((part, k))
    for k in range(var[4]):
        if "s%02d" % (k + 1) in s:
            out.add(("scal", k))
    return out


def skipped_ranges(m, skipped, sections):
    """Byte ranges of the file that hold only skipped data."""
    npts = m.lr1[0] * m.lr1[1] * m.lr1[2]
    be = npts * m.wdsz
    out = []
    for name, a, b in sections:
        part, n = {"X": ("pos", m.var[0]), "U": ("vel", m.var[1]), "P": ("pres", 1),
                   "T": ("temp", 1)}.get(name, (None, 0))
        if name.startswith("S"):
            part, n = "scal", 1
        if part is None:
            continue
        for j in range((b - a) // be):
            comp = int(name[1:]) - 1 if part == "scal" else j % n
            if (part, comp) in skipped:
                out.append((a + j * be, a + (j + 1) * be))
    return out


def run(sut, scn, ctx):
    m = gens.build_field(scn["field"])
    sm = storage_map(scn, m)
    with np.errstate(all="ignore"):
        full, sections = refnek.encode_fld(m, storage_map=sm)
    if sm is not None:
        m.elmap = np.arange(1, m.nel + 1)
    path = ctx.path("field0.f00001")
    for a in scn["attempts"]:
        skipped = skipped_set(a["skip"], m.var, m.ndim)
        ranges = skipped_ranges(m, skipped, sections)
        data, damaged = full, False
        plan = layers(a)
        if a["what"] == "cut":
            data = full[: plans.resolve_pos(a["pos"], len(full), sections)]
            damaged = len(data) < len(full)
            ctx.fault("torn_file")
        elif a["what"] == "garbage" and ranges:
            g = np.random.Generator(np.random.PCG64(a["gseed"]))
            b = bytearray(full)
            for lo, hi in ranges:
                b[lo:hi] = g.integers(0, 256, hi - lo, dtype=np.uint8).tobytes()
            data = bytes(b)
            ctx.fault("garbage_in_skipped_data")
        elif a["what"] == "eio_skipped" and ranges:
            g = np.random.Generator(np.random.PCG64(a["gseed"]))
            lo, hi = ranges[int(g.integers(0, len(ranges)))]
            plan = dict(plan, faults=[{"kind": "eio_r", "pos": {"a": int(g.integers(lo, hi))}}])
        iosim.put(path, data)
        skip = {"tuple": tuple, "list": list, "set": set}[a["as"]](a["skip"])
        dt = {"f4": "float32", "f8": "float64", "type32": "float32", "type64": "float64"}.get(
            a["dtype"], a["dtype"])
        arg = {"type32": np.float32, "type64": np.float64}.get(a["dtype"], a["dtype"])
        before = repr(skip)
        att = iosim.attempt(ctx, lambda: sut.neksuite.readnek(path, dtype=arg, skip_vars=skip), plan,
                            len(full), sections)
        out = att.out
        ctx.check(repr(skip) == before, "changed-argument", "the set of variables to skip was changed")
        ctx.state(a["what"], len(skipped), sum(m.var), dt, m.wdsz, sorted(set(att.fired)), out.brief())
        if not out.ok:
            ctx.check(damaged or att.faulted, "spurious-failure",
                      lambda: f"skipping {a['skip']} in a complete, healthy file {out!r}")
            continue
        with np.errstate(all="ignore"):
            diff = gens.diff_field(out.value, m, dtype=dt, skipped=skipped, zero_map=sm)
        ctx.check(diff is None, "wrong-data",
                  lambda: f"reading with dtype {a['dtype']} and skipping {a['skip']} ({a['what']}, faults "
                  f"{att.fired}) disagrees with the full read: {diff}")
        ctx.probe("agreed_" + a["what"])
