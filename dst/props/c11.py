"""C11: a multi-file dataset holds every file's values whatever the loading order."""

import os
from pathlib import Path

import numpy as np

from .. import gens, iosim, plans, refnek, sched, simdask
from ..core import call
from ..simfs import SimFS

RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("A scenario is one to five files of a Cartesian box mesh, each with its own element order, times, variables and byte "
        "order, opened as one dataset (or one by one), in sequence or in parallel under a simulated dask scheduler of one to "
        "four workers that starts ready tasks in a seeded order and changes over at program lines of pymech and file "
        "operations, with files that are torn, missing, unreadable, not field files, without geometry or not aligned with the "
        "axes, and errors and fragmentation while they are read.  It is non-trivial if more than one element was combined.")
REAL = ["pymech.dataset, pymech.neksuite.readnek (code under test)", "xarray, dask's graphs, numpy, CPython's file objects"]
STUB = ["dask scheduler (simulated workers)", "raw file object (SimFileIO)", "builtins.open / io.open"]
ASSUMPTIONS = ["every file has the geometry, and all files of one dataset the same coordinates and precision",
               "switches happen at line or bytecode boundaries in pymech's own code and at file operations",
               "a variable that one file does not have is missing (NaN) at that file's time"]
STATE = "distinct (way of opening, workers, files, damage, outcome) tuples"
DAMAGE = ("torn", "missing", "magic", "empty", "nogeom", "shear", "turned", "int", "part")


def gen(rng, tier, i):
    n = rng.weighted((2, 1), (3, 2), (3, 3), (2, 4), (1, 5))
    base = gens.gen_boxfield(rng, small=n > 1 or rng.chance(0.7))
    base["axes32"] = rng.chance(0.5)
    if rng.chance(0.15):  # coordinates that differ by little
        base["scale"] = rng.pick(1e-4, 1e-3, 1e3, 1e5)
    if rng.chance(0.25):  # the same bounds in all directions
        base["even"] = True
        if rng.chance(0.5):
            base["n"] = [base["n"][0]] * base["ndim"] + [1] * (3 - base["ndim"])
            base["lr1"] = [base["lr1"][0]] * base["ndim"] + [1] * (3 - base["ndim"])
            base["nel"] = int(np.prod(base["n"]))
    files = []
    mix = rng.chance(0.35)
    for k in range(n):
        b = dict(gens.gen_boxfield(rng), seed=rng.seed32())
        f = {k: b[k] for k in ("time", "istep", "elmap", "order", "seed", "mode", "endian", "calm")}
        f["wdsz"] = b["wdsz"] if base["axes32"] else base["wdsz"]
        f["var"] = b["var"][1:] if mix else base["var"][1:]
        if f["var"][0]:
            f["var"][0] = base["ndim"]
        f["name"] = rng.weighted((6, "f0"), (1, "a.b0"), (1, "x"), (1, "f[1]0"))
        files.append(f)
    if rng.chance(0.3):  # numbered otherwise than they are listed
        for f, num in zip(files, rng.sample([0, 1, 2, 9, 10, 11, 99, 100, 998, 1000, 9999, 10000, 99999], n)):
            f["num"] = num
    if rng.chance(0.05):
        rng.pick(*files)["fld"] = True
    if rng.chance(0.2) and n > 1:
        t = rng.randrange(n)
        files[t]["time"] = files[0]["time"] + rng.pick(0.0, 0.0, 1e-7, 1e-9)
    way = rng.weighted((4, "mf"), (1, "single"), (1, "engine")) if n > 1 else rng.pick("mf", "single", "engine")
    scn = {"base": base, "files": files, "way": way,
           "paths": rng.weighted((4, "list"), (2, "Path"), (2, "glob")), "parallel": rng.chance(0.65),
           "workers": rng.weighted((1, 1), (3, 2), (2, 3), (1, 4)), "sched": sched.gen_spec(rng), "tasks": rng.seed32(),
           "chunks": rng.pick(None, None, None, {"time": 1}, {"x": 2}, {"z": 1, "y": 3}), "opcodes": rng.chance(0.1)}
    if rng.chance(0.15):
        scn["drop"] = [v for v in ("ux", "uy", "xmesh", "zmesh", "s01", "pressure") if rng.chance(0.4)]
    if rng.chance(0.35):
        for _ in range(rng.weighted((4, 1), (1, 2))):
            f = rng.pick(*files)
            f["damage"] = rng.weighted((4, "torn"), *((1, d) for d in DAMAGE[1:]))
            f["pos"] = plans.gen_pos(rng)
            f["dseed"] = rng.seed32()
    plan = plans.gen_read_plan(rng, ((5, None), (3, "eio_r"), (1, "open"), (1, "intr")))
    if plan:
        plan["file"] = rng.randrange(n)
        scn["plan"] = plan
    if rng.chance(0.3):  # another mesh of the same shape and bounds, at the same paths or beside the first
        scn["again"] = [{"inner": rng.seed32(), "keep": rng.chance(0.4), "fseed": rng.seed32()}
                        for _ in range(rng.weighted((3, 1), (1, 2)))]
    return scn


def concretise(scn, hint):
    return dict(scn, sched={"mode": "list", "switches": [list(s) for s in hint["switches"]]})


def shrink(scn):
    fs = scn["files"]
    for i in range(len(fs)):
        if len(fs) > 1:
            yield dict(scn, files=fs[:i] + fs[i + 1:])
    yield from (dict(scn, sched=x) for x in sched.shrink_spec(scn["sched"]))
    for k in ("plan", "drop", "again"):
        if k in scn:
            yield {a: b for a, b in scn.items() if a != k}
    if "plan" in scn:
        for p in plans.shrink_plan({k: v for k, v in scn["plan"].items() if k != "file"}):
            yield dict(scn, plan=dict(p, file=scn["plan"]["file"]))
    for k, v in (("parallel", False), ("workers", 1), ("chunks", None), ("paths", "list"), ("opcodes", False), ("way", "single")):
        if scn[k] != v:
            yield dict(scn, **{k: v})
    b = scn["base"]
    for d in range(3):
        if b["n"][d] > 1:
            yield resize(scn, b["n"][:d] + [b["n"][d] - 1] + b["n"][d + 1:], b["lr1"])
        if b["lr1"][d] > 2:
            yield resize(scn, b["n"], b["lr1"][:d] + [b["lr1"][d] - 1] + b["lr1"][d + 1:])
    for i, f in enumerate(fs):
        for k, v in (("order", "id"), ("elmap", "id"), ("endian", "little"), ("name", "f0"), ("var", [b["ndim"], 0, 0, 0])):
            if f[k] != v:
                yield dict(scn, files=fs[:i] + [dict(f, **{k: v})] + fs[i + 1:])
        if "damage" in f:
            g = {k: v for k, v in f.items() if k != "damage"}
            yield dict(scn, files=fs[:i] + [g] + fs[i + 1:])


def resize(scn, n, lr1):
    return dict(scn, base=dict(scn["base"], n=n, lr1=lr1, nel=n[0] * n[1] * n[2]))


def prepare(sut):
    """Make xarray and dask import what they import lazily."""
    import shutil
    import tempfile
    import warnings

    import dask

    d = tempfile.mkdtemp(prefix="dst-warm-")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            paths = []
            from ..core import Rng

            spec = dict(gens.gen_boxfield(Rng(5), small=True), ndim=3, n=[2, 2, 2], nel=8, lr1=[2, 2, 2], var=[3, 3, 1, 1, 1],
                        axes32=True)
            for k in range(2):
                p = os.path.join(d, f"f0.f0000{k}")
                with open(p, "wb") as f:
                    f.write(refnek.encode_fld(gens.build_boxfield(dict(spec, seed=k)))[0])
                paths.append(p)
            for par in (False, True):
                with dask.config.set(scheduler="synchronous"):
                    ds = call(sut.dataset.open_mfdataset, paths, parallel=par, chunks={"x": 2})
                    if ds.ok:
                        call(lambda: ds.value.load())
                call(sut.dataset.open_dataset, paths[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build(scn, f):
    b = scn["base"]
    spec = dict(b, **{k: v for k, v in f.items() if k not in ("name", "damage", "pos", "dseed", "var")})
    spec["var"] = [b["ndim"]] + list(f["var"])
    m = gens.build_boxfield(spec)
    dmg = f.get("damage")
    if dmg == "nogeom":
        m.var = [0] + list(m.var[1:])
        if not any(m.var):
            m.var[2] = 1
            m.pres = np.zeros((m.nel, 1) + tuple(m.lr1[::-1]))
    elif dmg == "part" and m.nel > 1:  # one of several files of this field
        m.elmap = np.delete(m.elmap, slice(None, 1 + f["dseed"] % (m.nel - 1)))
        m.nfiles = 2
    elif dmg in ("shear", "turned"):
        i = f["dseed"] % m.nel
        nx, ny = m.lr1[0], m.lr1[1]
        if dmg == "shear":
            m.pos[i, 0] += 0.05 * (m.pos[i, 1] - m.pos[i, 1].min()) / np.ptp(m.pos[i, 1]) * np.ptp(m.pos[i, 0])
        else:  # numbered from the opposite corner: a valid element, but not one that follows the axes
            for a in (m.pos, m.vel, m.pres, m.temp, m.scal):
                a[i] = a[i][..., ::-1, ::-1].copy() if a[i].size else a[i]
    return m


def damaged(f, data, sections):
    d = f.get("damage")
    if d == "torn":
        return data[: plans.resolve_pos(f["pos"], len(data), sections, 0, len(data) - 1)]
    if d == "missing":
        return None
    if d == "magic":
        return b"this is not a field file\n" * 40
    if d == "empty":
        return b""
    if d == "int":
        return data[:f["dseed"] % 132]
    return data


def run(sut, scn, ctx):
    hint = ctx.hint = {"switches": []}
    one_round(sut, scn, ctx, "d", hint, scn["sched"])
    for k, a in enumerate(scn.get("again", ())):
        ctx.probe("second_mesh")
        files = [dict(f, seed=(f["seed"] + a["fseed"]) % 2**32) for f in scn["files"]]
        one_round(sut, dict(scn, base=dict(scn["base"], inner=a["inner"]), files=files), ctx,
                  "d" if a["keep"] else f"d{k}", None, {"mode": "list", "switches": []})


def one_round(sut, scn, ctx, folder, hint, schedule):
    import dask

    n = len(scn["files"])
    models, paths, sizes, secs, bad = [], [], [], [], []
    for k, f in enumerate(scn["files"]):
        m = build(scn, f)
        data, sections = refnek.encode_fld(m)
        d = os.path.join(ctx.scratch, folder)
        os.makedirs(d, exist_ok=True)
        name = f["name"] if scn["paths"] != "glob" else "f0"
        p = os.path.join(d, f"{name}.f{f.get('num', k + 1):05d}")
        if f.get("fld") and scn["paths"] != "glob":
            p = os.path.join(d, f"{name}{k}.fld")
        sizes.append(len(data))
        secs.append(sections)
        data = damaged(f, data, sections)
        if os.path.exists(p):
            os.remove(p)
        if data is not None:
            iosim.put(p, data)
        models.append(m)
        paths.append(p)
        bad.append("damage" in f and (f["damage"] != "part" or m.nel > 1))
    plan = {}
    only = None
    if "plan" in scn:
        k = scn["plan"]["file"] % n
        plan = plans.resolve(iosim.scaled(scn["plan"], sizes[k]), sizes[k], secs[k], 12)
        only = paths[k]
    pool = simdask.Pool(ctx, schedule, scn["tasks"], scn["workers"], scn["opcodes"])
    if hint is not None:
        hint["switches"] = pool.switches
    fs = SimFS(ctx, plan, only)

    def hook(what):
        if pool.s is not None:
            pool.s.point("io:" + what)

    fs.hook = hook
    if models[0].nel > 1 or n > 1:
        ctx.nontrivial = True
    drop = scn.get("drop")
    if drop is not None:
        # only names that every file has
        drop = [v for v in drop if all(v in m.glob or v.endswith("mesh") for m in models)]
    kw = {"drop_variables": drop} if drop else {}
    with dask.config.set(scheduler=pool.get):
        if scn["way"] == "mf":
            if scn["paths"] == "glob":
                arg = os.path.join(ctx.scratch, folder, "f0.f*")
                present = sorted((k for k in range(n) if os.path.exists(paths[k])), key=lambda k: paths[k])
                groups = [present]
            else:
                arg = [Path(p) for p in paths] if scn["paths"] == "Path" else list(paths)
                groups = [list(range(n))]
            if scn["chunks"]:
                kw["chunks"] = dict(scn["chunks"])

            def go():
                ds = sut.dataset.open_mfdataset(arg, parallel=scn["parallel"], **kw)
                ds.load()
                return ds

            fns = [go]
        else:
            groups = [[k] for k in range(n)]

            def one(p):
                p = Path(p) if scn["paths"] == "Path" else p
                if scn["way"] == "engine":
                    import xarray

                    return xarray.open_dataset(p, engine="pymech", **kw).load()
                return sut.dataset.open_dataset(p, **kw)

            fns = [(lambda p=p: one(p)) for p in paths]
        for fn, group in zip(fns, groups):
            before = len(fs.fired)
            if not group:
                continue
            with fs:
                out = call(fn)
            ctx.steps += 1
            fired = len(fs.fired) > before
            damage = [scn["files"][k].get("damage", "") for k in group]
            ctx.log("outcome", out.brief(), damage, fs.fired)
            ctx.state(scn["way"], scn["parallel"], scn["workers"], len(group), sorted(set(damage)), out.brief())
            if any(damage):
                ctx.fault("damaged_file")
            judge(ctx, scn, [models[k] for k in group], damage, out, fired, drop or [], fs.fired[before:])
    if pool.overlaps:
        ctx.probe("overlapping_loads")


def judge(ctx, scn, models, damage, out, fired, drop, what):
    n = len(models)
    names = f"{n} file(s), {scn['way']}, parallel={scn['parallel']}"
    if not out.ok:
        ctx.check(fired or any(damage), "healthy-files-failed",
                  lambda: f"opening {names} raised {out.etype} ({out.msg[:150]}) without any fault")
        ctx.probe("refused")
        return
    ds = out.value
    for k in range(n):
        for kind in ("missing", "magic", "empty", "int", "nogeom", "shear", "turned"):
            if damage[k] == kind:
                if kind in ("shear", "turned", "nogeom") and models[k].nel == 1 and not surely_bad(models[k]):
                    continue
                ctx.check(False, "accepted", lambda: f"opening {names} returned a dataset although file {k + 1} is "
                          f"{ {'nogeom': 'without geometry', 'shear': 'not of a box mesh', 'turned': 'not aligned with the axes'}.get(kind, kind) }")
    mf = scn["way"] == "mf"
    allnames = sorted({v for m in models for v in m.glob})
    if mf:
        t = [gens.round_time(m.time) for m in models]
        got = [float(x) for x in np.atleast_1d(ds.coords["time"].values)]
        ctx.check(got == t, "times", lambda: f"opening {names}: the times are {got}, those of the files in order are {t}")
    for k, m in enumerate(models):
        diff = gens.diff_dataset(ds, m, k if mf else None, extra=allnames, drop=drop)
        ctx.check(diff is None, "values", lambda: f"opening {names} (damage {damage}, faults {what}): file {k + 1}: {diff}")
    ctx.probe("dataset_exact")


def surely_bad(m):
    return True
