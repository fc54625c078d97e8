"""C02: a field read returns what the file holds or fails, never anything else."""


import numpy as np

from .. import gens, iosim, plans, refnek
from ..core import Rng, call
from .c01 import shrink_attempts, shrink_field

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("A scenario is a field file made by the reference encoder and one to five reads of its path (whole "
        "field or header only), each of the complete file, of a prefix, of a file that grows while it is "
        "read, or with a damaged byte-order tag, under a buffer size, fragmentation and fault (read error, "
        "failing open, interrupt).  It is non-trivial if the file was torn, damaged or growing, a read was "
        "fragmented or a fault fired.")
REAL = ["pymech.neksuite.field.readnek, read_header, Header; pymech.core.HexaData (code under test)",
        "CPython's BufferedReader, numpy", "a real file in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO): partial transfers, injected errors", "builtins.open / io.open",
        "the appending writer (file contents advanced at chosen read operations)"]
ASSUMPTIONS = ["reads go through Python file objects obtained from open()",
               "the reference encoder (refnek.py) states the format"]


def gen(rng, tier, i):
    spec = gens.gen_field(rng, big=rng.chance(0.04))
    scn = {"field": spec, "trailer": rng.weighted((3, ""), (1, "  0.1000000E+01 F")),
           "extrema": rng.chance(0.8),
           "zero_map": rng.weighted((5, None), (1, "all"), (1, rng.seed32())),
           "path": rng.pick("str", "str", "path", "relative"), "attempts": []}
    for _ in range(rng.weighted((2, 1), (2, 2), (2, 3), (1, 5))):
        scn["attempts"].append(gen_read(rng))
    return scn


def gen_read(rng):
    what = rng.weighted((2, "full"), (4, "cut"), (3, "fault"), (2, "grow"), (1, "tag"))
    a = {"what": what, "api": rng.weighted((5, "readnek"), (0.7, "header"), (0.4, "header_fp"))}
    if what in ("full", "cut", "grow", "tag"):
        a.update(plans.gen_layers(rng))
    else:
        a.update(plans.gen_read_plan(rng, ((3, "eio_r"), (1, "open"), (1, "intr"), (1, "line"))))
    if what in ("cut", "grow"):
        a["pos"] = plans.gen_pos(rng)
        if rng.chance(0.15):
            a["pos"] = {"a": rng.randrange(0, 140)}
    if what == "grow":
        a["steps"] = [{"opf": round(rng.random(), 4), "to": plans.gen_pos(rng)}
                      for _ in range(rng.randint(1, 4))]
    if what == "tag":
        a["bits"] = sorted(rng.sample(range(32), rng.pick(1, 1, 2, 3, 8)))
    return a


def shrink(scn):
    yield from shrink_attempts(scn)
    for f in shrink_field(scn["field"]):
        yield dict(scn, field=f)
    if scn.get("zero_map"):
        yield dict(scn, zero_map=None)
        if scn["zero_map"] != "all":
            yield dict(scn, zero_map="all")
    if scn["path"] != "str":
        yield dict(scn, path="str")
    if scn["trailer"]:
        yield dict(scn, trailer="")
    for i, a in enumerate(scn["attempts"]):
        if a["what"] == "grow" and len(a["steps"]) > 1:
            for j in range(len(a["steps"])):
                b = dict(a, steps=a["steps"][:j] + a["steps"][j + 1:])
                yield dict(scn, attempts=scn["attempts"][:i] + [b] + scn["attempts"][i + 1:])
        if a["api"] != "readnek":
            b = dict(a, api="readnek")
            yield dict(scn, attempts=scn["attempts"][:i] + [b] + scn["attempts"][i + 1:])


def storage_map(scn, m):
    z = scn.get("zero_map")
    if gens.is_part(m):  # one file of several
        m.fid, m.nfiles = 2, 3
        return None
    if z is None:
        return None
    sm = m.elmap.copy()
    if z == "all":
        sm[:] = 0
    else:
        r = Rng(z)
        for _ in range(r.randint(1, max(1, m.nel // 2))):
            sm[r.randrange(m.nel)] = 0
    return sm


def layers(a):
    return {k: a[k] for k in ("bufsize", "frag", "faults", "line") if k in a}


def contents(a, full, sections):
    """What is at the path when the read starts, and whether that is less than the whole truth."""
    if a["what"] in ("cut", "grow"):
        pos = plans.resolve_pos(a["pos"], len(full), sections)
        return full[:pos], pos < len(full)
    if a["what"] == "tag":
        b = bytearray(full)
        for bit in a["bits"]:
            b[132 + bit // 8] ^= 1 << (bit % 8)
        return bytes(b), True
    return full, False


def run(sut, scn, ctx):
    m = gens.build_field(scn["field"])
    sm = storage_map(scn, m)
    with np.errstate(all="ignore"):
        full, sections = refnek.encode_fld(m, scn["trailer"], scn["extrema"], sm)
    if sm is not None:
        m.elmap = np.arange(1, m.nel + 1)
    path = ctx.path("field0.f00001")
    arg = iosim.spelled(path, scn["path"])
    ctx.log("file", len(full), scn["field"]["lr1"], scn["field"]["var"])
    for a in scn["attempts"]:
        data, damaged = contents(a, full, sections)
        if a["what"] == "tag" and reads_swapped(data):
            continue  # the damage made a valid tag of the other byte order: not detectable
        if damaged:
            ctx.nontrivial = True
            ctx.fault("torn_file" if a["what"] == "cut" else a["what"] + "_file")

        def reset():
            iosim.put(path, data)

        reset()
        fn = {"readnek": lambda: sut.neksuite.readnek(arg),
              "header": lambda: sut.neksuite.field.read_header(arg),
              "header_fp": lambda: _header_fp(sut, path)}[a["api"]]
        grow = {"steps": a["steps"], "data": full} if a["what"] == "grow" else None
        att = iosim.attempt(ctx, fn, layers(a), len(full), sections, grow=grow, reset=reset)
        out = att.out
        ctx.state(a["api"], a["what"], sorted(set(att.fired)), out.brief(),
                  plans.section_at(len(data), sections) if a["what"] == "cut" else "")
        if not out.ok:
            ctx.check(damaged or att.faulted, "spurious-failure",
                      lambda: f"{a['api']} of a complete, healthy file {out!r}")
            ctx.probe("detected" if damaged or att.faulted else "failed")
            continue
        if a["api"] == "readnek":
            diff = gens.diff_field(out.value, m, zero_map=sm)
        else:
            diff = diff_header(out.value, m)
        ctx.check(diff is None, "wrong-data",
                  lambda: f"{a['api']} of a file ({a['what']}, {len(data)} of {len(full)} bytes, faults "
                  f"{att.fired}) returned something else than the file holds: {diff}")
        ctx.probe("read_exactly_" + a["what"])


def reads_swapped(data):
    import struct

    little, big = struct.unpack("<f", data[132:136])[0], struct.unpack(">f", data[132:136])[0]
    orig = [x for x in (little, big) if abs(x - 6.54321) < 1e-3]
    return len(orig) == 2


def _header_fp(sut, path):
    with open(path, "rb") as fp:
        return sut.neksuite.field.read_header(fp)


def diff_header(h, m):
    want = {"wdsz": m.wdsz, "orders": tuple(m.lr1), "nb_elems": m.nel, "nb_elems_file": len(m.elmap),
            "time": gens.round_time(m.time), "istep": m.istep, "fid": getattr(m, "fid", 0), "nb_files": getattr(m, "nfiles", 1),
            "variables": refnek.fld_variables(m.var), "nb_vars": tuple(m.var),
            "realtype": "f" if m.wdsz == 4 else "d", "nb_dims": m.ndim,
            "nb_pts_elem": m.lr1[0] * m.lr1[1] * m.lr1[2]}
    for k, v in want.items():
        if getattr(h, k) != v:
            return f"{k} is {getattr(h, k)!r}, expected {v!r}"
    return None


__all__ = ["call"]
