"""Histories of mesh operations: generation, execution on the real code and on the model."""

import copy
import math
import os

import numpy as np

from . import iosim, meshmodel as mm
from .core import HarnessError, Rng, call, injected
from .simfs import SimFS, get, put

SIDES = ("xmin", "xmax", "ymin", "ymax")
LABELS = ["W", "v", "O", "SYM", "ON", "f", "t", "I", "A", "mv", "EXT", "Pr", "e", "p", "on", "E2", "s", "m"]
MAX_NEL = 400
MAX_MERGE = 260


class CallbackError(Exception):
    """Raised by a callback of ours."""


# --------------------------------------------------------------------------- generation
def gen_var(rng):
    return rng.weighted((3, [2, 2, 1, 0, 0]), (2, [2, 2, 1, 1, 0]), (1, [2, 2, 1, 1, 2]), (1, [2, 0, 0, 1, 0]),
                        (1, [2, 2, 0, 0, 1]), (0.7, [2, 0, 0, 0, 0]), (0.5, [2, 0, 0, 0, 3]))


def gen_ends(rng, nbc=5):
    """Conditions at two opposite sides: (first, second), each None (periodic) or a list."""
    k = rng.random()
    if k < 0.35:
        return None, None
    a, b = [], []
    for _ in range(nbc):
        if rng.chance(0.15) and k > 0.6:
            a.append("P")
            b.append("P")
        else:
            a.append(rng.pick(*LABELS))
            b.append(rng.pick(*LABELS))
    return a, b


def gen_box(rng, big=False):
    hi = 5 if big else 4
    bcs = {}
    for lo_, hi_ in (("xmin", "xmax"), ("ymin", "ymax")):
        bcs[lo_], bcs[hi_] = gen_ends(rng)
    return {"op": "box", "nx": rng.randint(1, hi), "ny": rng.randint(1, hi),
            "x0": rng.pick(0.0, 0.0, -1.0, round(rng.uniform(-3, 3), 3)), "lx": rng.pick(1.0, 2.0, round(rng.uniform(0.3, 4), 3)),
            "y0": rng.pick(0.0, 0.0, -0.5, round(rng.uniform(-3, 3), 3)), "ly": rng.pick(1.0, 1.5, round(rng.uniform(0.3, 4), 3)),
            "var": gen_var(rng), "bcs": bcs, "internal": rng.chance(0.85), "grade": [gen_grade(rng), gen_grade(rng)]}


def gen_grade(rng):
    """How the user redistributes the elements of a box along an axis: sizes may differ by orders of magnitude."""
    return rng.weighted((6, None), (1, ["pow", rng.pick(2, 4, 6)]), (1, ["layer", rng.pick(1e-1, 1e-3, 1e-4)]))


def graded(g, u):
    """Where the position u, in [0, 1], of an axis goes."""
    if g is None:
        return u
    if g[0] == "pow":
        return u ** g[1]
    return np.where(u > 0, g[1] + (1 - g[1]) * u, 0.0)  # a layer; the rest is even, but for its first element


def gen_circle(rng):
    return {"op": "circle", "r": rng.pick(1.0, 0.5, round(rng.uniform(0.2, 5), 3)), "s": round(rng.uniform(0.25, 0.8), 3),
            "ns": rng.randint(1, 3), "no": rng.randint(1, 3),
            "curv": rng.weighted((2, None), (1, "one"), (1, "zero"), (1, "lin"), (1, "sqrt")),
            "bl": rng.weighted((2, None), (2, "lin"), (1, "pow")),
            "var": gen_var(rng), "bc": [rng.pick(*LABELS) for _ in range(rng.weighted((3, 1), (2, 2), (1, 4)))],
            "default": rng.weighted((4, ""), (1, "both"), (0.5, "var"), (1, "bc")), "internal": rng.chance(0.85)}


def gen_field(rng):
    """A mesh with any number of points per element and values at each, as a user or a reader builds it."""
    n = rng.weighted((2, 2), (2, 3), (2, 4), (1, 6), (0.3, rng.randint(7, 24)))
    dim = rng.pick(2, 3)
    base = gen_box(rng)
    if n > 6:
        base["nx"], base["ny"] = rng.randint(1, 2), rng.randint(1, 2)
    return {"op": "field", "base": base, "n": n, "nz": 0 if dim == 2 else rng.randint(1, 2), "seed": rng.seed32(),
            "var": [dim, dim * rng.chance(0.9), 1 * rng.chance(0.7), 1 * rng.chance(0.5), rng.weighted((3, 0), (1, 1), (1, 3))],
            "nbc": rng.weighted((2, 0), (2, 1), (1, 2)), "permuted": rng.chance(0.5), **gen_z(rng)}


def gen_z(rng):
    return {"z0": rng.pick(0.0, -1.0, round(rng.uniform(-2, 2), 3)), "lz": rng.pick(1.0, round(rng.uniform(0.2, 3), 3)),
            "zmode": rng.weighted((2, "even"), (2, "random"), (0.6, "thin")), "zseed": rng.seed32(), "ztype": rng.pick("array", "array", "list")}


def gen_extrude(rng):
    bc1, bc2 = gen_ends(rng)
    return dict({"op": "extrude", "a": rng.randrange(64), "nz": rng.weighted((1, 1), (2, 2), (2, 3), (1, rng.randint(4, 6)), (0.3, rng.randint(7, 40))),
                 "bc1": bc1, "bc2": bc2, "internal": rng.chance(0.8)}, **gen_z(rng))


def gen_refine(rng):
    bc1, bc2 = gen_ends(rng)
    ns = rng.weighted((4, 1), (1, 2), (0.6, 0))
    return dict({"op": "refine", "a": rng.randrange(64), "ns": ns, "dir": rng.pick("x", "y", "r", "r", "-x", "-y", "-r"),
                 "high": rng.randint(0, ns), "mult": rng.weighted((5, 1), (1, 2)), "at": rng.seed32(), "bc1": bc1, "bc2": bc2,
                 "par": rng.pick("none", "list"), "internal": rng.chance(0.8), "none": rng.chance(0.5)}, **gen_z(rng))


def gen_merge_tol(rng):
    return rng.weighted((4, None), (1, 1e-3), (1, 0.05))


def gen_step(rng, weights):
    k = rng.weighted(*[(w, n) for n, w in weights.items()])
    a = rng.randrange(64)
    if k == "box":
        return gen_box(rng)
    if k == "circle":
        return gen_circle(rng)
    if k == "field":
        return gen_field(rng)
    if k == "fill":
        return {"op": "fill", "a": a, "seed": rng.seed32()}
    if k == "extrude":
        return gen_extrude(rng)
    if k == "refine":
        return gen_refine(rng)
    if k == "keep":
        return {"op": "keep", "a": a, "copy": rng.chance(0.5), "frac": round(rng.uniform(0.2, 1), 3), "sel": rng.seed32(),
                "kind": rng.pick("random", "random", "half", "all"), "ext": rng.pick("", "", "con", "W", "ON"),
                "elems": rng.pick("list", "array", "shuffled", "tuple", "small")}
    if k == "cut":  # cut a mesh in two and put it together again
        return {"op": "cut", "a": a, "frac": round(rng.uniform(0.2, 0.8), 3), "sel": rng.seed32(),
                "kind": rng.pick("random", "half"), "ext": rng.pick("con", "con", "W", ""), "tol": gen_merge_tol(rng),
                "ignore_empty": rng.chance(0.7), "swap": rng.chance(0.5)}
    if k == "stack":  # put a shifted copy beside the mesh
        return {"op": "stack", "a": a, "dir": rng.randrange(3), "tol": gen_merge_tol(rng), "neg": rng.chance(0.3),
                "squeeze": rng.weighted((5, 1.0), (1, 1e-2), (1, 1e-3), (0.5, 30.0)),
                "gap": rng.weighted((5, None), (0.5, "in"), (1, "out")), "ignore_empty": rng.chance(0.8), "ignore_all": rng.chance(0.1)}
    if k == "merge":
        return {"op": "merge", "a": a, "b": rng.randrange(64), "tol": gen_merge_tol(rng),
                "ignore_empty": rng.chance(0.8), "ignore_all": rng.chance(0.1)}
    if k == "insert":  # put elements somewhere in the middle, and perhaps take them out again
        return {"op": "insert", "a": a, "b": rng.randrange(64), "at": rng.weighted((3, round(rng.random(), 5)), (1, 0.0), (1, 1.0)),
                "remove": rng.chance(0.5)}
    if k == "delete":
        return {"op": "delete", "a": a}
    if k == "generate":
        return {"op": "generate", "a": a, "tol": rng.weighted((3, None), (1, 1e-2), (1, 1e-4))}
    if k == "regen":  # delete, then generate
        return {"op": "regen", "a": a, "tol": rng.weighted((3, None), (1, 1e-2))}
    if k == "rotate":
        return {"op": "rotate", "a": a, "x0": rng.pick(0.0, round(rng.uniform(-2, 2), 3)),
                "y0": rng.pick(0.0, round(rng.uniform(-2, 2), 3)),
                "theta": rng.pick(math.pi / 2, math.pi, -math.pi / 2, round(rng.uniform(-6, 6), 4), 0.0)}
    if k == "map":
        return {"op": "map", "a": a, "fun": rng.pick("affine", "shear", "polar", "wave", "id"),
                "curvature": rng.chance(0.6), "boundary": rng.chance(0.6), "default": rng.chance(0.2)}
    if k == "curve":
        return {"op": "curve", "a": a, "sel": rng.seed32(), "n": rng.randint(1, 4), "type": rng.pick("m", "m", "C", "s"),
                "round": rng.weighted((3, [0.8, 3]), (1, [3, 40]), (0.3, [40, 3000]))}
    if k == "save":
        return {"op": "save", "a": a, "fmt": rng.pick("re2", "rea", "nek"), "slot": rng.randrange(3), "endian": rng.pick("little", "big")}
    if k == "crash":
        st = {"op": "crash"}
        if rng.chance(0.6):
            st["torn"] = {"a": a, "fmt": rng.pick("re2", "rea", "nek"), "slot": rng.randrange(3), "opf": round(rng.random(), 5),
                          "endian": rng.pick("little", "big")}
        return st
    if k == "refuse":
        return {"op": "refuse", "a": a, "what": rng.pick("extrude3d", "extrude_lr1", "extrude_p", "refine_p", "refine_nz",
                                                         "refine_par", "merge_dim", "keep_range", "box_size", "generate_flat")}
    if k == "callback":
        inner = rng.pick("refine", "map", "circle")
        st = {"refine": gen_refine, "circle": gen_circle}.get(inner, lambda r: gen_step(r, {"map": 1}))(rng)
        st["fail_at"] = rng.pick(0, 1, 2, 3, rng.randrange(60))
        st["fail_exc"] = rng.pick("CallbackError", "KeyboardInterrupt", "MemoryError", "ZeroDivisionError")
        return st
    if k == "audit":
        return {"op": "audit", "a": a}
    raise HarnessError(k)


WEIGHTS = {"box": 2, "circle": 1, "field": 1, "fill": 1, "extrude": 3, "refine": 2, "keep": 2, "cut": 3, "stack": 2, "merge": 1, "insert": 1, "delete": 0.7,
           "generate": 1, "regen": 1.5, "rotate": 1.5, "map": 1.5, "curve": 1, "save": 1.5, "crash": 1, "refuse": 0.7, "callback": 0.7,
           "audit": 0.5}


def gen_big(rng):
    """A mesh with more elements than any other, and little else."""
    if rng.chance(0.75):
        st = dict(gen_box(rng), nx=rng.randint(5, 40), ny=rng.randint(5, 40), grade=[None, None])
    else:
        st = dict(gen_circle(rng), ns=rng.randint(4, 14), no=rng.randint(3, 9), bl="lin", curv=rng.pick("lin", None))
    return st


def gen_huge_history(rng, k):
    """A mesh with more elements than 16-bit numbers can tell apart."""
    nx = rng.randint(150, 200)
    plain = {"grade": [None, None], "var": [2, 2, 1, 0, 0], "internal": True}
    first = ("merge", "keep", "extrude", "save", "rotate")[k % 5]
    steps = [dict(gen_box(rng), nx=nx, ny=34500 // nx + rng.randint(1, 20), **plain)]
    if first == "merge":
        # a small one beside it, with elements of the same size
        b, n, k = steps[0], rng.randint(1, 3), rng.randint(1, 2)
        steps.append(dict(gen_box(rng), nx=n, ny=k, x0=b["x0"] + b["lx"], y0=b["y0"], lx=n * b["lx"] / b["nx"],
                          ly=k * b["ly"] / b["ny"], **plain))
    for k in [first] + [rng.pick("keep", "keep", "rotate", "save") for _ in range(rng.randint(0, 1))]:
        st = dict(gen_step(rng, {k: 1}), a=0, b=0)
        if k == "keep":
            st.update(copy=False, kind="random", frac=rng.pick(0.02, 0.02, 0.999) if rng.chance(0.8) else 0.5)
        elif k == "extrude":
            st["nz"] = 1
        steps.append(st)
        if k == "save":
            steps.append(gen_step(rng, {"crash": 1}))
    return steps


def gen_big_history(rng, weights=None):
    w = dict(weights or WEIGHTS, box=0, circle=0, field=0, fill=0, refine=0.5, merge=0, callback=0, refuse=0.2)
    steps = [gen_big(rng)]
    while len(steps) < rng.randint(2, 4):
        st = gen_step(rng, w)
        if st["op"] == "crash":
            steps.append(gen_step(rng, {"save": 1}))
        steps.append(st)
    return steps


def gen_history(rng, n, weights=None):
    w = weights or WEIGHTS
    steps = [gen_step(rng, {"box": 2, "circle": 1, "field": 0.4})]
    if rng.chance(0.3):
        steps.append(gen_step(rng, {"box": 2, "circle": 1}))
    saved = False
    while len(steps) < n:
        st = gen_step(rng, w)
        if st["op"] == "crash" and not saved:
            st = gen_step(rng, {"save": 1})
        saved = saved or st["op"] == "save"
        steps.append(st)
        if st["op"] == "crash" and rng.chance(0.4):
            steps.append(gen_step(rng, {"box": 2, "circle": 1, "field": 0.4}))
    return steps


def gen_arc_history(rng):
    """Elements with arcs, nearly straight ones among them, that a refined extrusion divides."""
    steps = [gen_box(rng)]
    for _ in range(rng.randint(1, 2)):
        steps.append(dict(gen_step(rng, {"curve": 1}), a=0, n=rng.randint(4, 24), type="C"))
    return steps + [dict(gen_refine(rng), a=0)]


def shrink_history(steps):
    n = len(steps)
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            if n - size >= 1:
                yield steps[:i] + steps[i + size:]
    for i, st in enumerate(steps):
        for s in shrink_step(st):
            yield steps[:i] + [s] + steps[i + 1:]


def shrink_step(st):
    for k in ("nx", "ny", "nz", "ns", "no"):
        if st.get(k, 0) > 1 and not (k == "ns" and st["op"] == "refine"):
            yield dict(st, **{k: st[k] - 1})
            if st[k] > 2:
                yield dict(st, **{k: 1})
    if st.get("a"):
        yield dict(st, a=0)
        yield dict(st, a=1)
    for k, v in (("x0", 0.0), ("y0", 0.0), ("z0", 0.0), ("lx", 1.0), ("ly", 1.0), ("lz", 1.0), ("r", 1.0), ("zmode", "even"), ("grade", [None, None]), ("squeeze", 1.0), ("gap", None),
                 ("tol", None), ("var", [2, 2, 1, 0, 0])):
        if k in st and st[k] != v:
            yield dict(st, **{k: v})
    if st["op"] == "box":
        for a, b in (("xmin", "xmax"), ("ymin", "ymax")):
            if st["bcs"][a] is None or len(set(st["bcs"][a] + st["bcs"][b])) > 1:
                yield dict(st, bcs=dict(st["bcs"], **{a: ["W"] * 5, b: ["W"] * 5}))
    if st.get("fail_at", 0) > 0:
        yield dict(st, fail_at=st["fail_at"] // 2)


def element_numbers(st, sel):
    """The caller's element numbers, in the container and the order the step asks for."""
    mixed = Rng(st["sel"]).sample(sel, len(sel))
    return {"list": list(sel), "array": np.array(mixed if st["sel"] % 3 else sel, dtype=np.int64), "tuple": tuple(sel),
            "shuffled": mixed, "small": np.array(mixed, dtype=np.int32)}[st["elems"]]


# --------------------------------------------------------------------------- callbacks
class Callback:
    """A caller-supplied function that raises at its k-th invocation."""

    def __init__(self, fun, ctl):
        self.fun, self.ctl = fun, ctl

    def __call__(self, *a):
        c = self.ctl
        k = c["n"]
        c["n"] += 1
        if c.get("at") == k:
            c["fired"] = True
            raise injected({"CallbackError": CallbackError, "KeyboardInterrupt": KeyboardInterrupt,
                            "MemoryError": MemoryError, "ZeroDivisionError": ZeroDivisionError}[c["exc"]],
                           "simulated failure of the caller's function")
        return self.fun(*a)


CURVATURE = {"one": lambda x: 1.0, "zero": lambda x: 0.0, "lin": lambda x: x,
             "sqrt": lambda x: math.sqrt(max(0.0, 1 - (1 - x) ** 2))}
BL = {"lin": lambda x: x, "pow": lambda x: 1 - (1 - x) ** 1.5}


def circle_positions(st):
    """eta and gamma of a disc, from the documentation alone; None if the default functions are not
    defined for these parameters."""
    r, s, ns, no = st["r"], st["s"], st["ns"], st["no"]
    cf = CURVATURE.get(st["curv"]) or (lambda x: math.sin(0.5 * math.pi * x) ** 2)
    if cf(0.0) != 0.0 and ns > 2:
        return None  # documented caveat: the O mesh does not conform to the square
    if st["bl"] is not None:
        eta = [BL[st["bl"]](i / no) for i in range(no + 1)]
        return eta, [cf(e) for e in eta]
    if no < 2:
        return None
    # the first element, once stretched by the curvature, is as long as the elements of the square
    target = s * r * math.sqrt(2) / ns
    width = 0.5 * r * (1 - s) * math.sqrt(2)
    total = r * (1 - 0.5 * math.sqrt(2) * s)

    def length(l):
        e = cf(l / width)
        return l * ((1 - e) + e * total / width)

    if length(width) <= target * 1.02:
        return None
    a, b = 0.0, width
    for _ in range(200):
        c = 0.5 * (a + b)
        if length(c) < target:
            a = c
        else:
            b = c
    l1 = 0.5 * (a + b)
    if not 0.05 / no < l1 / width < 4 / no or l1 / width > 0.95:
        return None  # extreme progression
    # geometric progression of no elements that fills the width
    a, b = 1e-6, 1e6

    def total_of(q):
        return sum(q**i for i in range(no)) * l1

    for _ in range(300):
        c = math.sqrt(a * b)
        if total_of(c) < width:
            a = c
        else:
            b = c
    q = math.sqrt(a * b)
    if not 0.5 < q < 3:
        return None  # the iteration for the progression (C16, not claimed) need not converge
    eta = [sum(q**i for i in range(k)) * l1 / width for k in range(no + 1)]
    return eta, [cf(e) for e in eta]


def circle_args(st):
    """Keyword arguments of gen_circle, and the fields and conditions they amount to."""
    kw, var, bc = {"internal_bcs": st["internal"]}, [2, 2, 1, 0, 0], ["W"]
    if st["default"] not in ("both", "var"):
        var = st["var"]
        kw["var"] = list(var)
    if st["default"] not in ("both", "bc"):
        bc = st["bc"]
        kw["bc"] = list(bc)
    return kw, var, bc


def map_function(st, m):
    """A right-handed transformation of the plane suited to the mesh."""
    lo, hi = m.pos[:, :2].min(axis=(0, 2, 3, 4)), m.pos[:, :2].max(axis=(0, 2, 3, 4))
    d = np.maximum(hi - lo, 1e-9)
    k = st["fun"]
    if k == "affine":
        return lambda x, y: (1.5 * x + 0.25 * y + 1.0, 0.75 * y - 0.5)
    if k == "shear":
        return lambda x, y: (x + 0.3 * y, y)
    if k == "wave":
        return lambda x, y: (x, y + 0.1 * d[1] * math.sin(2.0 * (x - lo[0]) / d[0]))
    if k == "polar":
        return lambda x, y: ((1.0 + (x - lo[0]) / d[0]) * math.cos((y - lo[1]) / d[1]),
                             (1.0 + (x - lo[0]) / d[0]) * math.sin((y - lo[1]) / d[1]))
    return lambda x, y: (x, y)


def zs(st, n):
    if st["zmode"] == "even":
        z = np.linspace(0.0, 1.0, n + 1)
    elif st["zmode"] == "thin":
        z = np.linspace(0.0, 1.0, n + 1) ** (1 if n > 16 else 3)
    else:
        g = np.random.Generator(np.random.PCG64([st["zseed"], n]))
        z = np.concatenate(([0.0], np.cumsum(g.uniform(0.3, 1.0, n))))
        z /= z[-1]
    z = st["z0"] + st["lz"] * z
    return z if st["ztype"] == "array" else [float(v) for v in z]


class Skip(Exception):
    """The step does not apply to the state it meets."""


class World:
    """Meshes in memory, each with its model, and files."""

    def __init__(self, sut, ctx, check, big=False):
        self.sut, self.ctx = sut, ctx
        self.regs = []  # [object, model, relative tolerance]
        self.slots = {}
        self.check = check  # check(world, step, name, object, model, info)
        self.soft = False  # failures of the operations are somebody else's business
        self.max_nel, self.max_merge = (6000, 3000) if big else (MAX_NEL, MAX_MERGE)
        if big == "huge":
            self.max_nel = self.max_merge = 80000
        self.exact = False  # connect only faces that conform vertex by vertex

    # -- helpers ---------------------------------------------------------
    def pick(self, k, want=None):
        c = [r for r in self.regs if want is None or want(r)]
        if not c:
            raise Skip("no suitable mesh")
        return c[k % len(c)]

    def add(self, obj, model, info=None):
        if model.nel > self.max_nel:
            raise Skip("too big")
        r = [obj, model]
        self.regs.append(r)
        if len(self.regs) > 6:
            self.regs.pop(0)
        self.verify(r, info)
        mm.adopt_curvature(obj, model)
        return r

    def replace(self, r, obj, model, info=None):
        r[0], r[1] = obj, model
        self.verify(r, info)

    def verify(self, r, info=None):
        self.check(self, r[0], r[1], info or {})

    def gtol(self, m):
        return 1e-9 * max(1.0, float(np.abs(m.pos).max())) if m.nel else 1e-9

    def sut_call(self, name, fn, *a, ctl=None, **k):
        out = call(fn, *a, **k)
        self.ctx.steps += 1
        fired = bool(ctl and ctl.get("fired"))
        self.ctx.log(name, out.brief())
        self.ctx.state(name, out.brief(), fired)
        if not out.ok:
            if fired:
                self.ctx.fault("callback_raised")
                raise Skip("callback failed")
            if self.soft:
                raise Skip("failed")
            self.ctx.check(False, "spurious-failure", f"{name}: {out!r} although nothing is wrong")
        if fired:
            self.ctx.fault("callback_raised")
            self.ctx.check(False, "swallowed", f"{name} went on although the caller's function had raised")
        self.ctx.probe("op_" + name)
        return out.value

    # -- the operations --------------------------------------------------
    def do(self, st):
        self.ctx.log("op", st["op"], *[f"{k}={v}" for k, v in sorted(st.items()) if k in ("a", "nx", "ny", "nz", "ns", "fmt")])
        try:
            getattr(self, "op_" + st["op"])(st)
        except (Skip, mm.Undefined) as e:
            self.ctx.count("steps_not_applicable")
            self.ctx.log("skip", e)
            return False
        self.ctx.count("steps_done")
        return True

    def op_box(self, st):
        mt = self.sut.meshtools
        nbc = mm.count_fields(st["var"])
        bcs = {k: None if st["bcs"][k] is None else st["bcs"][k][:nbc] for k in SIDES}
        x1, y1 = st["x0"] + st["lx"], st["y0"] + st["ly"]
        m = mm.box(st["nx"], st["ny"], st["x0"], x1, st["y0"], y1, st["var"], bcs, st["internal"])
        kw = {"var": list(st["var"]), "internal_bcs": st["internal"]}
        kw.update({"bcs_" + k: None if v is None else list(v) for k, v in bcs.items()})
        if st["var"] == [2, 2, 1, 0, 0] and st["nx"] % 2:
            del kw["var"]
        d = self.sut_call("gen_box", mt.gen_box, st["nx"], st["ny"], st["x0"], x1, st["y0"], y1, **kw)
        for k, (g, x, l) in enumerate(zip(st["grade"], (st["x0"], st["y0"]), (st["lx"], st["ly"]))):
            if g is not None:
                for el in d.elem:
                    el.pos[k] = x + l * graded(g, np.maximum(0.0, (el.pos[k] - x) / l))
                m.pos[:, k] = x + l * graded(g, np.maximum(0.0, (m.pos[:, k] - x) / l))
        self.add(d, m)

    def op_circle(self, st):
        mt = self.sut.meshtools
        ctl = {"n": 0, "at": st.get("fail_at"), "exc": st.get("fail_exc")}
        pos = circle_positions(st)
        if pos is None:
            raise Skip("default functions undefined")
        kw, var, bc = circle_args(st)
        if st["curv"]:
            kw["curvature_fun"] = Callback(CURVATURE[st["curv"]], ctl)
        if st["bl"]:
            kw["bl_fun"] = Callback(BL[st["bl"]], ctl)
        m = mm.circle(st["r"], st["s"], st["ns"], st["no"], *pos, var, bc, st["internal"])
        d = self.sut_call("gen_circle", mt.gen_circle, st["r"], st["s"], st["ns"], st["no"], ctl=ctl, **kw)
        self.add(d, m, {"gtol": 1e-7 if st["bl"] is None else None})

    def op_field(self, st):
        b = st["base"]
        bcs = {k: None if b["bcs"][k] is None else b["bcs"][k][:st["nbc"]] for k in SIDES}
        m = mm.box(b["nx"], b["ny"], b["x0"], b["x0"] + b["lx"], b["y0"], b["y0"] + b["ly"],
                   [2, 1 if st["nbc"] else 0, 0, 0, max(0, st["nbc"] - 1)], bcs, b["internal"])
        if st["nz"]:
            m = mm.extrude(m, zs(st, st["nz"]), None, None, b["internal"])
        m = mm.refine_points(m, st["n"])
        m.var = list(st["var"])
        if st["permuted"]:
            m.elmap = np.array(Rng(st["seed"]).sample(range(1, m.nel + 1), m.nel))
        m = mm.fill(m, st["seed"])
        if m.pos.size > 60000:
            raise Skip("too big")
        self.add(mm.to_hexa(self.sut, m), m)

    def op_fill(self, st):
        r = self.pick(st["a"], lambda r: r[1].nel > 0 and any(r[1].var[1:]) and r[1].uniform)
        m = mm.fill(r[1], st["seed"])
        for el, data in zip(r[0].elem, m.data):
            for name, a in data.items():
                getattr(el, name)[...] = a
        self.replace(r, r[0], m)

    @staticmethod
    def flat(r):
        return r[1].ndim == 2 and r[1].n == 2 and r[1].nel > 0 and not any("s" in c for c in r[1].ccurv)

    def op_extrude(self, st):
        d, m = self.pick(st["a"], self.flat)
        if m.nel * st["nz"] > self.max_nel:
            raise Skip("too big")
        z = zs(st, st["nz"])
        bc1, bc2 = (None if st[k] is None else st[k][: m.nbc] for k in ("bc1", "bc2"))
        want = mm.extrude(m, z, bc1, bc2, st["internal"])
        got = self.sut_call("extrude", self.sut.meshtools.extrude, d, z, bc1=bc1, bc2=bc2, internal_bcs=st["internal"])
        self.add(got, want)

    def refine_args(self, st, m):
        """A splitting of the mesh that the documentation covers, or Skip."""
        ns = st["ns"]
        nz = max([1] + [2 ** (abs(st["high"]) + 1), 2 ** (abs(ns - st["high"]) + 1)]
                 + [4 * 2 ** (k - st["high"] if k >= st["high"] else st["high"] - k - 1) for k in range(ns)]) * st["mult"]
        if ns == 0:
            nz = 2 + st["mult"]
        if m.nel * nz > 160:
            raise Skip("too big")
        z = zs(st, nz)
        bc1, bc2 = (None if st[k] is None else st[k][: m.nbc] for k in ("bc1", "bc2"))
        rng = Rng(st["at"])
        cen = m.pos[:, :2].mean(axis=(2, 3, 4))
        last = None
        dirs = [st["dir"], "r", "x", "y"]
        for attempt in range(10):
            dr = dirs[min(len(dirs) - 1, attempt // 3)]
            sign = -1.0 if dr[0] == "-" else 1.0
            kind = dr[-1]
            c0 = cen.mean(axis=0) if kind == "r" and np.abs(cen.mean(axis=0)).max() < 1e-9 else np.zeros(2)
            if kind == "r":
                c0 = cen.mean(axis=0)

            def level(x, y, kind=kind, c0=c0, sign=sign):
                if kind == "x":
                    return sign * x
                if kind == "y":
                    return sign * y
                return sign * math.hypot(x - c0[0], y - c0[1])

            vals = sorted({round(level(*cen[rng.randrange(m.nel)]) + 1e-4 * rng.random(), 9) for _ in range(ns)})
            if len(vals) < ns:
                continue

            def make(c):
                if st["par"] == "list":
                    return lambda x, y, p: float(level(float(np.squeeze(x)), float(np.squeeze(y)))) - float(p)
                return lambda x, y, p: float(level(float(np.squeeze(x)), float(np.squeeze(y)))) - c - p

            funs = [make(c) for c in vals]
            pars = list(vals) if st["par"] == "list" else None
            try:
                want = mm.extrude_refine(m, z, bc1, bc2, funs, pars, st["high"], st["internal"])
                return z, bc1, bc2, funs, pars, want
            except mm.Undefined as e:
                last = e
        raise Skip(f"no splitting found: {last}")

    def op_refine(self, st):
        d, m = self.pick(st["a"], lambda r: self.flat(r) and r[1].nel <= 30)
        z, bc1, bc2, funs, pars, want = self.refine_args(st, m)
        ctl = {"n": 0, "at": st.get("fail_at"), "exc": st.get("fail_exc")}
        cb = [Callback(f, ctl) for f in funs]
        if not cb and st["none"]:
            cb = None
        kw = {} if pars is None else {"funpar": pars}
        got = self.sut_call("extrude_refine", self.sut.meshtools.extrude_refine, d, z, bc1=bc1, bc2=bc2, fun=cb,
                            imesh_high=st["high"], internal_bcs=st["internal"], ctl=ctl, **kw)
        self.add(got, want)

    def select(self, st, m):
        rng = Rng(st["sel"])
        n = max(1, int(round(st["frac"] * m.nel)))
        if st["kind"] == "all":
            return list(range(m.nel))
        if st["kind"] == "half":
            d = rng.randrange(m.ndim)
            c = m.pos[:, d].mean(axis=(1, 2, 3))
            return sorted(np.argsort(c, kind="stable")[:n].tolist())
        return sorted(rng.sample(range(m.nel), n))

    def op_keep(self, st):
        r = self.pick(st["a"], lambda r: r[1].nel > 0)
        sel = self.select(st, r[1])
        if not sel:
            raise Skip("empty")
        want = mm.keep(r[1], sel, st["ext"])
        arg = element_numbers(st, sel)
        before = list(arg)
        d = copy.deepcopy(r[0]) if st["copy"] else r[0]
        self.sut_call("keep_elements", self.sut.meshtools.keep_elements, d, arg, external_bc=st["ext"])
        self.ctx.check(list(arg) == before, "caller-list", "keep_elements changed the caller's list of elements")
        if st["copy"]:
            self.add(d, want)
        else:
            self.replace(r, d, want)

    def merge_into(self, name, a, ma, b, mb, st):
        """Both must be private objects of this world; a is changed."""
        if ma.ndim != mb.ndim or ma.nbc != mb.nbc or ma.n != mb.n:
            raise Skip("different kinds")
        if ma.nel + mb.nel > self.max_merge:
            raise Skip("too big")
        # (every outer face of the one is compared with every outer face of the other)
        outer = [sum(1 for faces in x.lab for t in faces[0][:2 * x.ndim] if t != "E") if x.nbc else 0 for x in (ma, mb)]
        if outer[0] * outer[1] > 3e5 or outer[1] * 2 * ma.ndim * ma.nel > 5e6:
            raise Skip("too many faces")
        tol = st.get("tol")
        t = 1e-2 if tol is None else tol
        ie, ia = st.get("ignore_empty", True), st.get("ignore_all", False)
        if not ia and not mm.merge_defined(ma, mb, t, ie):
            raise Skip("merge not defined")
        if self.exact and not ia and not mm.conforming(mb, ma, mm.merge_pairs(ma, mb, t, ie)):
            raise Skip("faces that do not conform")
        want, n = mm.merge(ma, mb, t, ie, ia)
        want.full = want.full and self.all_connected(want)
        kw = {} if tol is None else {"tol": tol}
        if not ie:
            kw["ignore_empty"] = False
        if ia:
            kw["ignore_all_bcs"] = True
        got = self.sut_call(name, a.merge, b, **kw)
        return want, {"count": (got, n)}

    @staticmethod
    def all_connected(m):
        """Whether every pair of coinciding faces of the model is connected, and no two elements are at one place."""
        cen, sc = m.pos.reshape(m.nel, 3, -1).mean(axis=2), m.scales()
        for (i, f), (j, g) in mm.self_pairs(m, 1e-3):
            if np.sqrt(((cen[i] - cen[j]) ** 2).sum()) <= 1e-2 * min(sc[i], sc[j]):
                return False
            for b in range(m.nbc):
                if m.lab[i][b][f] != "E" or tuple(m.par[i, b, f, :2]) != (j + 1, g + 1):
                    return False
        return True

    def op_cut(self, st):
        d, m = self.pick(st["a"], lambda r: 2 <= r[1].nel <= self.max_merge)
        sel = self.select(st, m)
        rest = [i for i in range(m.nel) if i not in set(sel)]
        if not rest or not sel:
            raise Skip("nothing to cut")
        if st["swap"]:
            sel, rest = rest, sel
        a, b = copy.deepcopy(d), copy.deepcopy(d)
        ma, mb = mm.keep(m, sel, st["ext"]), mm.keep(m, rest, st["ext"])
        self.sut_call("keep_elements", self.sut.meshtools.keep_elements, a, list(sel), external_bc=st["ext"])
        self.sut_call("keep_elements", self.sut.meshtools.keep_elements, b, np.array(rest), external_bc=st["ext"])
        self.verify([a, ma])
        self.verify([b, mb])
        want, info = self.merge_into("merge", a, ma, b, mb, st)
        self.verify([b, mb])
        self.add(a, want, info)

    def op_stack(self, st):
        d, m = self.pick(st["a"], lambda r: 0 < r[1].nel <= self.max_merge // 2)
        k = st["dir"] % m.ndim
        lo, hi = float(m.pos[:, k].min()), float(m.pos[:, k].max())
        f = st["squeeze"]
        size = max(1.0, float(np.abs(m.pos).max()))
        if any(t in ("C", "s") for c in m.ccurv for t in c) and (k < 2 or any("s" in c for c in m.ccurv)):
            f = 1.0
        if f < 1 and m.scales().min() * f < 1e-5 * size or f > 1 and (hi - lo) * f > 100:
            f = 1.0
        off = (lo - f * hi) if st["neg"] else (hi - f * lo)
        if st["gap"]:
            small = min(float(m.scales().min()), f * (hi - lo))
            tol = 1e-2 if st["tol"] is None else st["tol"]
            gap = 0.3 * min(tol, 1e-3) * small if st["gap"] == "in" else 3 * tol * small
            off += -gap if st["neg"] else gap
        mb = m.copy()
        b = copy.deepcopy(d)
        mb.pos[:, k] = f * mb.pos[:, k] + off
        for el in b.elem:
            el.pos[k] = f * el.pos[k] + off
        for i, el in enumerate(b.elem):
            for e in range(12):
                if el.ccurv[e] in ("m", "s"):
                    el.curv[e, k] = f * el.curv[e, k] + off
                    mb.curv[i, e, k] = f * mb.curv[i, e, k] + off
        a = copy.deepcopy(d)
        want, info = self.merge_into("merge", a, m, b, mb, st)
        self.verify([b, mb])
        self.add(a, want, info)

    def op_merge(self, st):
        ra = self.pick(st["a"])
        rb = self.pick(st["b"], lambda r: r is not ra and r[1].ndim == ra[1].ndim and r[1].nbc == ra[1].nbc
                       and r[1].n == ra[1].n)
        want, info = self.merge_into("merge", ra[0], ra[1], rb[0], rb[1], st)
        self.verify(rb)
        self.replace(ra, ra[0], want, info)

    def op_insert(self, st):
        d, m = self.pick(st["a"], lambda r: 0 < r[1].nel <= self.max_merge // 2)
        e, p = self.pick(st["b"], lambda r: 0 < r[1].nel <= self.max_merge // 2 and r[1].ndim == m.ndim and r[1].nbc == m.nbc
                         and r[1].n == m.n and list(r[1].var) == list(m.var))
        if any(t in ("C", "s") for c in p.ccurv for t in c):
            raise Skip("arcs")
        size = max(1.0, float(np.abs(m.pos).max()), float(np.abs(p.pos).max()))
        off = 4.0 * size
        if p.scales().min() < 1e-5 * size or m.scales().min() < 1e-5 * size:
            raise Skip("too thin")
        a, b, mb = copy.deepcopy(d), copy.deepcopy(e), p.copy()
        mb.pos[:, 0] += off
        for i, el in enumerate(b.elem):
            el.pos[0] += off
            for k in range(12):
                if el.ccurv[k] == "m":
                    el.curv[k, 0] += off
                    mb.curv[i, k, 0] += off
        mb.loose_curv = {i: v + np.array([off, 0, 0, 0]) for i, v in mb.loose_curv.items()}
        at = int(round(st["at"] * m.nel))
        n = mb.nel
        self.sut_call("offset_connectivity", a.offset_connectivity, n, at)
        self.sut_call("offset_connectivity", b.offset_connectivity, at)
        a.elem[at:at] = b.elem
        a.nel += n
        a.elmap = np.linspace(1, a.nel, a.nel, dtype=np.int32)
        self.sut_call("update_ncurv", a.update_ncurv)
        want = mm.insert(m, mb, at)
        if st["remove"]:
            self.verify([a, want])
            del a.elem[at:at + n]
            a.nel -= n
            a.elmap = np.linspace(1, a.nel, a.nel, dtype=np.int32)
            self.sut_call("offset_connectivity", a.offset_connectivity, -n, at)
            self.sut_call("update_ncurv", a.update_ncurv)
            want = m.copy()
            want.elmap = np.arange(1, m.nel + 1)
        self.add(a, want)

    def op_delete(self, st):
        r = self.pick(st["a"])
        want, n = mm.delete_internal(r[1])
        got = self.sut_call("delete_internal_bcs", self.sut.meshtools.delete_internal_bcs, r[0])
        self.replace(r, r[0], want, {"count": (got, n)})

    def op_generate(self, st):
        r = self.pick(st["a"], lambda r: r[1].nbc > 0 and r[1].nel <= self.max_merge)
        m = r[1]
        for i in range(m.nel):
            for f in range(m.nface()):
                if len({m.lab[i][b][f] == "" for b in range(m.nbc)}) > 1:
                    raise Skip("conditions present in some fields only")
        tol = 1e-3 if st["tol"] is None else st["tol"]
        pairs = [x for p in mm.self_pairs(m, tol) for x in p if m.lab[x[0]][0][x[1]] == ""]
        if len(set(pairs)) != len(pairs):
            raise Skip("faces that meet several others")
        if self.exact and not mm.conforming(m, m, mm.self_pairs(m, tol)):
            raise Skip("faces that do not conform")
        want, n = mm.generate_internal(m, tol)
        want.full = self.all_connected(want)
        kw = {} if st["tol"] is None else {"tol": tol}
        got = self.sut_call("generate_internal_bcs", self.sut.meshtools.generate_internal_bcs, r[0], **kw)
        self.replace(r, r[0], want, {"count": (got, n)})

    def op_regen(self, st):
        r = self.pick(st["a"], lambda r: r[1].nbc > 0 and r[1].nel <= self.max_merge)
        k = [x is r for x in self.regs].index(True)
        self.op_delete({"a": k})
        cand = [x for x in self.regs if x[1].nbc > 0 and x[1].nel <= self.max_merge]
        self.op_generate({"a": [x is r for x in cand].index(True), "tol": st["tol"]})

    def op_rotate(self, st):
        r = self.pick(st["a"], lambda r: r[1].nel > 0)
        want = mm.rotate(r[1], st["x0"], st["y0"], st["theta"])
        self.sut_call("rotate_2d", self.sut.meshtools.rotate_2d, r[0], st["x0"], st["y0"], st["theta"])
        self.replace(r, r[0], want)

    def op_map(self, st):
        d, m = self.pick(st["a"], lambda r: r[1].ndim == 2 and r[1].nel > 0)
        ctl = {"n": 0, "at": st.get("fail_at"), "exc": st.get("fail_exc")}
        fun = map_function(st, m)
        if any(t not in ("", "m", "C") for c in m.ccurv for t in c):
            raise Skip("curve types")
        cv, bd = (True, True) if st["default"] else (st["curvature"], st["boundary"])
        want = mm.map2d(m, fun, cv, bd)
        kw = {} if st["default"] else {"curvature": cv, "boundary_curvature": bd}
        got = self.sut_call("map2D", self.sut.meshtools.map2D, d, Callback(fun, ctl), ctl=ctl, **kw)
        # arcs that nearly are half circles: the sagitta loses half the digits
        self.add(got, want, {"gtol": 1e-7})

    def op_curve(self, st):
        """The user gives some edges a curvature."""
        r = self.pick(st["a"], lambda r: r[1].nel > 0)
        d, m = r[0], r[1].copy()
        rng = Rng(st["sel"])
        sc = m.scales()
        for _ in range(st["n"]):
            i, e = rng.randrange(m.nel), rng.randrange(4 if m.ndim == 2 else 12)
            a, b = mm.edge_points(m, i, e)
            row = np.zeros(5)
            if st["type"] == "m":
                row[:3] = 0.5 * (a + b)
                row[: m.ndim] += [0.1 * sc[i] * rng.uniform(-1, 1) for _ in range(m.ndim)]
                if rng.chance(0.3):  # parameters that mean nothing
                    row[m.ndim:] += [rng.uniform(-1, 1) for _ in range(5 - m.ndim)]
            elif st["type"] == "C":
                if e > 7:
                    continue
                row[0] = rng.pick(-1, 1) * rng.uniform(*st["round"]) * float(np.sqrt(((b - a) ** 2).sum()))
            else:
                row[:3] = [rng.uniform(-1, 1) for _ in range(3)]
                row[4] = rng.uniform(1, 2)
            m.ccurv[i][e] = st["type"]
            m.curv[i, e] = row
            d.elem[i].ccurv[e] = st["type"]
            d.elem[i].curv[e] = row
        self.sut_call("update_ncurv", d.update_ncurv)
        self.replace(r, d, m)

    # -- files -----------------------------------------------------------
    @staticmethod
    def format_for(fmt, m):
        """A format that can hold the mesh."""
        if m.n > 2:
            fmt = "nek"
        if fmt == "nek":
            if sorted(int(e) for e in m.elmap) != list(range(1, m.nel + 1)) or m.var[0] != m.ndim or not m.uniform:
                if m.n > 2:
                    raise Skip("no format for it")
                fmt = "re2"
        if fmt == "rea" and m.scales().min() < 0.02 * np.abs(m.pos).max():
            fmt = "re2"  # seven digits would not keep these elements
        return fmt

    def op_save(self, st):
        d, m = self.pick(st["a"], lambda r: r[1].nel > 0)
        st = dict(st, fmt=self.format_for(st["fmt"], m))
        d.endian = st["endian"]
        if st["fmt"] == "nek":
            d.wdsz = 8
        n = self.sut.neksuite
        path = self.ctx.path(f"slot{st['slot']}.{st['fmt']}")
        for old in ("re2", "rea", "nek"):
            p = self.ctx.path(f"slot{st['slot']}.{old}")
            if os.path.exists(p):
                os.remove(p)
        fs = SimFS(self.ctx, {"frag": {"seed": 7, "max": 4096}})
        with fs:
            self.sut_call("write" + st["fmt"], getattr(n, "write" + st["fmt"]), path, d)
        self.slots[st["slot"]] = (st["fmt"], m.copy())
        self.ctx.probe("saved")

    def op_crash(self, st):
        """The process dies, perhaps in the middle of a save; only the files survive."""
        n = self.sut.neksuite
        torn = st.get("torn")
        lost = None
        if torn and self.regs:
            r = self.pick(torn["a"], lambda r: r[1].nel > 0)
            torn = dict(torn, fmt=self.format_for(torn["fmt"], r[1]))
            r[0].endian = torn["endian"]
            if torn["fmt"] == "nek":
                r[0].wdsz = 8
            path = self.ctx.path(f"slot{torn['slot']}.{torn['fmt']}")
            for old in ("re2", "rea", "nek"):
                p = self.ctx.path(f"slot{torn['slot']}.{old}")
                if p != path and os.path.exists(p):
                    os.remove(p)
            self.slots.pop(torn["slot"], None)

            def write():
                getattr(n, "write" + torn["fmt"])(path, r[0])

            before = get(path)
            dry = SimFS(iosim._Quiet(self.ctx), {})
            with dry:
                call(write)
            if before is None:
                os.remove(path)
            else:
                put(path, before)
            fs = SimFS(self.ctx, {"faults": [{"kind": "kill", "op": int(torn["opf"] * max(1, dry.ops))}]})
            with fs:
                call(write)
            self.ctx.probe("killed_in_save")
            lost = (path, torn["fmt"], before, get(path))
        self.regs = []
        self.ctx.fault("crash")
        for slot in sorted(self.slots):
            fmt, m = self.slots[slot]
            path = self.ctx.path(f"slot{slot}.{fmt}")
            d = self.sut_call("read" + fmt, getattr(n, "read" + fmt), path)
            m = reloaded(m.copy(), fmt, d)
            gtol = None
            if fmt == "rea":
                gtol = 1e-6 * max(1e-3, float(max(np.abs(m.pos).max(), np.abs(m.curv).max(initial=0))))
            self.verify([d, m], {"gtol": gtol, "rtol": 1e-6, "reload": fmt})
            mm.adopt(d, m)
            d.lr1 = list(d.lr1)  # a field read from a file has a tuple, which mesh operations refuse
            self.regs.append([d, m])
            self.ctx.probe("reloaded")

    # -- refusals and audits ---------------------------------------------
    def op_refuse(self, st):
        mt = self.sut.meshtools
        what = st["what"]
        if what == "box_size":
            out = call(mt.gen_box, 2, 2, 1.0, 1.0 - st["a"] % 2, 0.0, 1.0)
            regs = []
        elif what in ("extrude3d",):
            r = self.pick(st["a"], lambda r: r[1].ndim == 3)
            out = call(mt.extrude, r[0], [0.0, 1.0])
        elif what == "extrude_lr1":
            r = self.pick(st["a"], self.flat)
            d = copy.deepcopy(r[0])
            d.lr1 = [3, 3, 1]
            out = call(mt.extrude, d, [0.0, 1.0])
        elif what in ("extrude_p", "refine_p"):
            r = self.pick(st["a"], lambda r: self.flat(r) and r[1].nbc > 0)
            b1, b2 = ["P"] * r[1].nbc, ["W"] * r[1].nbc
            if st["a"] % 2:
                b1, b2 = b2, b1
            if what == "extrude_p":
                out = call(mt.extrude, r[0], [0.0, 1.0], bc1=b1, bc2=b2)
            else:
                out = call(mt.extrude_refine, r[0], np.linspace(0, 1, 5), bc1=b1, bc2=b2, fun=[lambda x, y, p: -1.0])
        elif what == "refine_nz":
            r = self.pick(st["a"], self.flat)
            out = call(mt.extrude_refine, r[0], np.linspace(0, 1, 4 + 2 * (st["a"] % 2)), fun=[lambda x, y, p: -1.0])
        elif what == "refine_par":
            r = self.pick(st["a"], self.flat)
            out = call(mt.extrude_refine, r[0], np.linspace(0, 1, 5), fun=[lambda x, y, p: -1.0], funpar=[0.0, 1.0])
        elif what == "merge_dim":
            r = self.pick(st["a"], lambda r: r[1].ndim == 3)
            q = self.pick(st["a"], lambda r: r[1].ndim == 2)
            out = call(r[0].merge, q[0])
            self.verify(q)
        elif what == "keep_range":
            r = self.pick(st["a"])
            out = call(mt.keep_elements, r[0], [0, r[1].nel + st["a"] % 3])
        else:
            r = self.pick(st["a"], lambda r: r[1].nel > 0 and r[1].nbc > 0)
            d = copy.deepcopy(r[0])
            d.elem[st["a"] % len(d.elem)].pos[:, 0, 0, 0] = d.elem[st["a"] % len(d.elem)].pos[:, 0, 0, -1]
            out = call(mt.generate_internal_bcs, d)
        self.ctx.log("refuse", what, out.brief())
        self.ctx.check(not out.ok, "not-refused", lambda: f"{what}: {out!r}")
        self.ctx.fault("refused")
        if what != "box_size":
            self.verify(r, {"after_refusal": what})

    def op_audit(self, st):
        d, m = self.pick(st["a"])
        got = self.sut_call("check_connectivity", d.check_connectivity)
        self.ctx.check(got is True, "audit", lambda: f"check_connectivity returned {got!r}")
        self.verify([d, m])


def reloaded(m, fmt, d):
    """What a saved mesh is after it has been read."""
    if fmt == "nek":
        m.nbc, m.full = 0, False
        m.lab = [[] for _ in range(m.nel)]
        m.par = np.zeros((m.nel, 0, 6, 5))
        m.ccurv, m.curv = [[""] * 12 for _ in range(m.nel)], np.zeros((m.nel, 12, 5))
        return m
    m.data, m.uniform = [None] * m.nel, True
    if m.nbc == 0 and d.nbc == 1:
        m.nbc = 1
        m.full = False
        m.lab = [[[""] * 6] for _ in range(m.nel)]
        m.par = np.zeros((m.nel, 1, 6, 5))
    m.elmap = np.arange(1, m.nel + 1)
    m.var = [m.ndim, 0, 0, 0, 0]
    if fmt == "re2":
        m, n = mm.delete_internal(m)
    return m
