"""C20: reported limits, centroids, edges and points are those of the data at that moment."""

import copy
import math
import os

import numpy as np

from .. import hist, meshmodel as mm
from ..core import Rng, call
from ..forkeval import describe, freeze
from ..simfs import SimFS

RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("A scenario is a history of mesh operations on meshes and fields (with saves, crashes and reloads, failing "
        "callbacks and refused calls), interleaved with changes the user makes in place (values, whole arrays, "
        "elements removed, repeated and replaced) and with reads that fail and are repeated; after every step the "
        "summaries of every mesh are compared with those computed from the elements' arrays, and limits reported "
        "earlier with what they were.  It is non-trivial if the data changed at least twice after a first report.")
REAL = ["pymech.core, pymech.meshtools, pymech.neksuite (code under test)", "numpy, CPython's file objects",
        "real files in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO)", "builtins.open / io.open", "the caller's functions (which fail on request)"]
ASSUMPTIONS = ["at least one element, and the same fields in all elements for the limits",
               "means are compared up to rounding, limits and points exactly"]
STATE = "distinct (operation, dimension, order, fields) tuples"

WEIGHTS = dict(hist.WEIGHTS, field=3, fill=3, save=2, crash=1.5, refine=1, refuse=0.4, audit=0.3, curve=0.3, generate=0.5,
               regen=0.5)


def gen_own(rng):
    k = rng.weighted((4, "value"), (1, "array"), (1, "drop"), (1, "repeat"), (1, "swap"), (2, "read"), (2, "distort"),
                        (2, "short"))
    st = {"op": "own", "kind": k, "a": rng.randrange(64), "seed": rng.seed32(), "undo": rng.chance(0.6)}
    if k == "read":
        st.update(wdsz=rng.pick(4, 8), dtype=rng.pick("float64", "float32"), endian=rng.pick("little", "big"),
                  fault=rng.chance(0.6), opf=round(rng.random(), 5), kind2=rng.pick("eio", "trunc"))
    return st


def gen(rng, tier, i):
    if i % 100 == 37:
        steps = hist.gen_big_history(rng, dict(WEIGHTS, own=0))
        return {"steps": steps + [gen_own(rng) for _ in range(rng.randint(0, 2))], "big": True}
    n = rng.weighted((2, rng.randint(1, 3)), (3, rng.randint(3, 6)), (1, rng.randint(6, 10)))
    steps = []
    for st in hist.gen_history(rng, n, WEIGHTS):
        steps.append(st)
        while rng.chance(0.5):
            steps.append(gen_own(rng))
    return {"steps": steps}


def shrink(scn):
    for s in hist.shrink_history(scn["steps"]):
        yield dict(scn, steps=s)


class Reports:
    """Everything a mesh reports, checked against its arrays."""

    def __init__(self, ctx, most=200):
        self.ctx, self.most = ctx, most
        self.held, self.told = [], []
        self.count = 0

    def look(self, d, what):
        ctx = self.ctx
        if d.nel == 0 or len(d.elem) > self.most:
            return
        before = freeze(d) if len(d.elem) <= 20 else None
        names = ("pos", "vel", "pres", "temp", "scal")
        same = all(getattr(el, v).shape == getattr(d.elem[0], v).shape for el in d.elem for v in names)
        if same:
            out = call(lambda: d.lims)
            ctx.steps += 1
            ctx.check(out.ok, "lims", lambda: f"{what}: the limits cannot be computed: {out!r}")
            lims = out.value
            for v in names:
                a = np.stack([getattr(el, v) for el in d.elem]).astype(np.float64)
                want = [(float(a[:, k].min()), float(a[:, k].max())) for k in range(a.shape[1])]
                got = [tuple(x) for x in getattr(lims, v)]
                ctx.check(np.array_equal(np.array(got), np.array(want), equal_nan=True), "lims", lambda: f"{what}: the limits of {v} are {got}, those of the data {want}")
            if len(self.held) < 8:
                self.held.append((lims, {v: copy.deepcopy(getattr(lims, v)) for v in names}))
            frozen = call(setattr, lims, "pos", ())
            ctx.check(not frozen.ok, "lims-changed", lambda: f"{what}: reported limits can be overwritten")
        told = []
        for i, el in enumerate(d.elem):
            single = 1e-5 if el.pos.dtype == np.float32 else 1e-12
            size = max(1e-30, float(np.abs(el.pos).max()))
            want = el.pos.astype(np.float64).reshape(3, -1).mean(axis=1)
            got = el.centroid
            ctx.check(np.shape(got) == (3,) and np.all(np.abs(got - want) <= single * size), "centroid",
                      lambda: f"{what}: the centroid of element {i} is {got}, that of its points {want}")
            if i < 3:
                told.append(["a centroid", got])
            p = el.pos.astype(np.float64)
            flat = p.shape[1] == 1
            edges = [np.sqrt(((p[:, -a[0], -a[1], -a[2]] - p[:, -b[0], -b[1], -b[2]]) ** 2).sum())
                     for a, b in mm.EDGES[: 4 if flat else 12]]
            got = el.smallest_edge()
            ctx.check(abs(got - min(edges)) <= 10 * single * size, "edge",
                      lambda: f"{what}: the shortest edge of element {i} is reported as {got!r}, it is {min(edges)!r}")
            for f in range(4 if flat else 6):
                want = np.mean([p[:, -z, -y, -x] for z, y, x in mm.FACES[f]], axis=0)
                centre = el.face_center(f)
                if i < 3:
                    told.append(["a face centre", centre])
                got = np.array(centre)
                ctx.check(np.all(np.abs(got - want) <= 10 * single * size), "face",
                          lambda: f"{what}: the centre of face {f} of element {i} is {got}, expected {want}")
        if d.nel == len(d.elem):
            got = d.get_points()
            want = np.array([el.pos.reshape(3, -1).T for el in d.elem])
            ctx.check(got.shape == want.shape and np.array_equal(got, want), "points",
                      lambda: f"{what}: the list of points is not that of the elements")
            if d.nel <= 50:
                told.append(["the list of points", got])
        if before is not None:
            now = freeze(d)
            ctx.check(now == before, "modified", lambda: f"{what}: reporting changed the mesh: {describe(before, now)}")
        for lims, was in self.held:
            ctx.check(all(np.array_equal(np.array(getattr(lims, v)), np.array(was[v]), equal_nan=True) for v in names), "lims-changed",
                      lambda: f"{what}: limits reported earlier have changed")
        for name, got, was in self.told:
            ctx.check(np.array_equal(np.asarray(got), was), "report-changed",
                      lambda: f"{what}: {name} reported earlier has changed")
        self.told = self.told[-40:] + [[name, got, np.array(got)] for name, got in told]
        self.count += 1


def own(sut, ctx, w, rep, st, step):
    """A change the user makes himself."""
    d, m = w.pick(st["a"], lambda r: r[1].nel > 0)
    rng = Rng(st["seed"])
    what = f"step {step} ({st['kind']})"
    kind = st["kind"]
    if kind == "read":
        read_back(sut, ctx, w, rep, st, d, m, what)
        return True
    old = list(d.elem), d.nel
    k = rng.randrange(d.nel)
    el = d.elem[k]
    undo = True
    if kind in ("distort", "short"):
        v, a = "pos", el.pos
        new = a.copy()
        g = np.random.Generator(np.random.PCG64(st["seed"]))
        if kind == "distort":  # any points at all
            new[...] = rng.pick(1.0, 100.0, 1e-4) * g.standard_normal(a.shape) + rng.pick(0.0, 5.0, -3.0)
        else:  # one edge gets much shorter than the others
            new += 0.1 * g.standard_normal(a.shape) * max(1.0, float(np.abs(a).max()))
            i, j = rng.pick(*mm.EDGES[: 4 if a.shape[1] == 1 else 12])
            i, j = ([-c for c in x] for x in (i, j))
            new[:, j[0], j[1], j[2]] = new[:, i[0], i[1], i[2]]
            new[rng.randrange(3), j[0], j[1], j[2]] += 1e-3
        el.pos = new
    elif kind in ("value", "array"):
        names = [v for v in ("pos", "vel", "pres", "temp", "scal") if getattr(el, v).size]
        v = rng.pick(*names)
        a = getattr(el, v)
        if kind == "array":
            new = a.copy()
            new += rng.pick(1.0, -1e6, 1e-3)
            setattr(el, v, new)
        else:
            idx = tuple(rng.randrange(n) for n in a.shape)
            saved = a[idx].item()
            x = rng.pick(1e6, -1e6, 1e30, -1e30, 0.0, 17.25, 1e-30)
            if v != "pos" and rng.chance(0.25):  # a simulation that blew up
                x = rng.pick(math.nan, math.nan, math.inf, -math.inf)
            a[idx] = x
        undo = v == "pos" or st["undo"] or kind == "value" and not math.isfinite(x)
        if not undo and m.data[k] and v in m.data[k]:
            m.data[k] = dict(m.data[k], **{v: getattr(el, v).copy()})
    elif kind == "drop" and d.nel > 1:
        del d.elem[k]
        d.nel -= 1
    elif kind == "repeat":
        d.elem.append(copy.deepcopy(el))
        d.nel += 1
    elif kind == "swap":
        other = copy.deepcopy(el)
        other.pos = other.pos * 2.0 + 1.0
        d.elem[k] = other
    else:
        return False
    ctx.fault("changed_in_place")
    rep.look(d, what)
    if undo:
        d.elem[:], d.nel = old[0], old[1]
        if kind in ("array", "distort", "short"):
            setattr(el, v, a)
        elif kind == "value":
            a[idx] = saved
        rep.look(d, what + ", undone")
    return True


def read_back(sut, ctx, w, rep, st, d, m, what):
    if w.format_for("nek", m) != "nek":
        raise hist.Skip("cannot be stored")
    n = sut.neksuite
    path = ctx.path("own.f00001")
    d.wdsz, d.endian = st["wdsz"], st["endian"]
    fs = SimFS(ctx, {"frag": {"seed": st["seed"] & 0xFFFF, "max": 4096}})
    with fs:
        w.sut_call("writenek", n.writenek, path, d)
    if st["fault"]:
        fs = SimFS(ctx, {"faults": [{"kind": "eio_r", "at": int(st["opf"] * os.path.getsize(path))}]})
        with fs:
            out = call(n.readnek, path, dtype=st["dtype"])
        ctx.log("failing read", out.brief())
    got = w.sut_call("readnek", n.readnek, path, dtype=st["dtype"])
    rep.look(got, what)


def run(sut, scn, ctx):
    big = scn.get("big", False)
    rep = Reports(ctx, 6000 if big else 200)
    w = hist.World(sut, ctx, lambda *a: None, big=big)
    w.soft = True
    changes = 0
    for k, st in enumerate(scn["steps"]):
        w.now, w.step = st["op"], k + 1
        if st["op"] == "own":
            try:
                done = own(sut, ctx, w, rep, st, k + 1)
            except hist.Skip as e:
                ctx.log("skip", e)
                done = False
        else:
            done = w.do(st)
            for d, m in w.regs:
                rep.look(d, f"after {st['op']} (step {k + 1})")
        if done:
            changes += rep.count > 0
        for d, m in w.regs[-1:]:
            ctx.state(st["op"], m.ndim, m.n, tuple(m.var))
    if changes >= 2 and rep.count:
        ctx.nontrivial = True
