"""C14: mesh operations leave their inputs alone even when they fail midway."""

import copy

import numpy as np

from .. import hist, meshmodel as mm
from ..core import call
from ..forkeval import describe, fork_eval, freeze, outcome
from ..tracer import gen_line, interrupted, recorder, resolve_line

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("A scenario builds meshes with a short history of operations (all kinds of curved sides, fields and links) and "
        "then makes one to three calls that must not touch their inputs, each of them repeated after a run in which the "
        "caller's function raised at one invocation, the call was refused, or an interrupt or allocation failure "
        "arrived at one program line or bytecode instruction.  Inputs are compared byte for byte before and after "
        "every call, and the repeated call with the same call made in a pristine copy of the process.  It is "
        "non-trivial if a call ran to its end or a fault fired in it.")
REAL = ["pymech.meshtools, pymech.core (code under test)", "numpy", "process state (forked copies)"]
STUB = ["the caller's functions (which fail on request)",
        "asynchronous exceptions (raised by a trace function at a chosen program point)"]
ASSUMPTIONS = ["the documented attributes of HexaData and Elem are a mesh's state",
               "interrupts arrive between bytecode instructions, as CPython delivers them",
               "of the in-place operations only the second mesh and the lists are inputs"]
STATE = "distinct (operation, fault, outcome) tuples"

SETUP = dict(hist.WEIGHTS, crash=0, save=0, refuse=0, callback=0, audit=0, curve=3, refine=1, extrude=1.5)
TARGETS = {"extrude": 4, "refine": 5, "map": 4, "merge": 4, "connectivity": 2, "present": 1.5, "keep": 1, "box": 0.7,
           "circle": 1, "mid": 1.5}


def gen_target(rng):
    k = rng.weighted(*[(w, n) for n, w in TARGETS.items()])
    t = {"kind": k, "a": rng.randrange(64), "b": rng.randrange(64)}
    if k == "extrude":
        t["st"] = hist.gen_extrude(rng)
    elif k in ("refine", "mid"):
        t["st"] = hist.gen_refine(rng)
        if k == "refine" and rng.chance(0.3):
            t["wild"] = rng.pick("two", "all", "edge")  # splittings that are refused half-way
    elif k == "map":
        t["st"] = hist.gen_step(rng, {"map": 1})
    elif k == "merge":
        t["st"] = hist.gen_step(rng, {"stack": 1})
        t["other"] = rng.pick("stack", "stack", "register", "dim")
    elif k == "keep":
        t["st"] = hist.gen_step(rng, {"keep": 1})
    elif k == "box":
        t["st"] = hist.gen_box(rng)
    elif k == "circle":
        t["st"] = hist.gen_circle(rng)
    if k in ("extrude", "refine") and rng.chance(0.15):
        t["refuse"] = rng.pick("p1", "p2", "nz", "par", "lr1", "dim", "var", "short_bc")
    f = rng.weighted((2, "none"), (3, "line"), (3, "callback"))
    if f == "callback" and k not in ("refine", "map", "circle", "mid"):
        f = rng.pick("none", "line", "line")
    t["fault"] = f
    if f == "line":
        t["line"] = gen_line(rng, rng.pick("KeyboardInterrupt", "MemoryError", "SystemExit"))
    elif f == "callback":
        t["at"] = round(rng.random(), 6)
        t["exc"] = rng.pick("CallbackError", "KeyboardInterrupt", "MemoryError", "ZeroDivisionError")
    return t


def gen(rng, tier, i):
    steps = hist.gen_history(rng, rng.weighted((2, 1), (3, 2), (3, 3), (2, rng.randint(4, 6))), SETUP)
    return {"steps": steps, "targets": [gen_target(rng) for _ in range(rng.weighted((3, 1), (2, 2), (1, 3)))]}


def shrink(scn):
    if len(scn["targets"]) > 1:
        for i in range(len(scn["targets"])):
            yield dict(scn, targets=scn["targets"][:i] + scn["targets"][i + 1:])
    for s in hist.shrink_history(scn["steps"]):
        yield dict(scn, steps=s)
    for i, t in enumerate(scn["targets"]):
        if t["fault"] != "none":
            yield dict(scn, targets=scn["targets"][:i] + [dict(t, fault="none")] + scn["targets"][i + 1:])
        if "line" in t and t["fault"] == "line":
            for k, v in (("o", 0.0), ("exc", "KeyboardInterrupt")):
                if k in t["line"] and t["line"][k] != v:
                    yield dict(scn, targets=scn["targets"][:i] + [dict(t, line=dict(t["line"], **{k: v}))]
                               + scn["targets"][i + 1:])
        if "st" in t:
            for s in hist.shrink_step(t["st"]):
                yield dict(scn, targets=scn["targets"][:i] + [dict(t, st=s)] + scn["targets"][i + 1:])
        for k in ("a", "b"):
            if t[k]:
                yield dict(scn, targets=scn["targets"][:i] + [dict(t, **{k: 0})] + scn["targets"][i + 1:])


class Target:
    """A call, the inputs it must leave alone, and the objects it may change."""

    def __init__(self, w, t):
        self.inputs = {}
        self.ctl = {"n": 0}
        self.fresh = lambda: None  # renew what the call may change
        st, mt = t.get("st", {}), w.sut.meshtools
        kind, ref = t["kind"], t.get("refuse")
        kw = {}
        if kind in ("extrude", "refine", "mid"):
            r = w.pick(t["a"], w.flat2) if ref != "dim" else w.pick(t["a"])
            d, m = r[0], r[1]
            if ref == "lr1":
                d = copy.deepcopy(d)
                d.lr1 = [3, 3, 1]
            elif ref == "var":
                d = copy.deepcopy(d)
                d.var = [0] + list(d.var[1:])
            bc1, bc2 = (None if st[k] is None else st[k][: m.nbc] for k in ("bc1", "bc2"))
            if ref in ("p1", "p2"):
                bc1, bc2 = ["P"] * m.nbc, ["W"] * m.nbc
                if ref == "p2":
                    bc1, bc2 = bc2, bc1
            if ref == "short_bc" and bc1:
                bc1 = bc1[:-1]
            if kind == "extrude":
                if m.nel * st["nz"] > 200:
                    raise hist.Skip("too big")
                z = hist.zs(st, st["nz"])
                kw = {"bc1": bc1, "bc2": bc2, "internal_bcs": st["internal"]}
                self.call = lambda: mt.extrude(d, z, **kw)
                self.inputs = {"mesh": d, "z": z, "bc1": bc1, "bc2": bc2}
                return
            if m.nel > 30 or m.ndim != 2 and ref != "dim" or m.n > 2 and kind == "refine":
                raise hist.Skip("too big")
            funs = pars = None
            wild = t.get("wild")
            if kind == "mid" or wild or ref:
                cx, cy = m.pos[:, 0].mean(), m.pos[:, 1].mean()
                size = float(np.abs(m.pos[:, :2]).max()) + 0.1
                z = hist.zs(st, 8 if m.nel <= 16 else 4)
                if wild == "two":
                    funs = [lambda x, y, p: float(x) + float(y) - cx - cy - p]
                elif wild == "all" or kind == "mid" and st["high"]:
                    lim = [m.pos[:, 0].max(), m.pos[:, 0].min()]
                    funs = [lambda x, y, p: float(x) - 0.5 * (lim[0] + lim[1]) - p]
                elif wild == "edge":
                    funs = [lambda x, y, p: (float(x) - cx) * (float(y) - cy) - p]
                else:
                    xs = sorted({round(float(v), 9) for v in m.pos[:, 0].ravel()})
                    c = 0.5 * (xs[0] + xs[1]) if len(xs) > 1 else 0.0
                    funs = [lambda x, y, p: float(x) - c - p]
                pars = [0.0 * size] if st["par"] == "list" else None
                if ref == "par":
                    pars = [0.0, 1.0]
                if ref == "nz":
                    z = hist.zs(st, 3)
            else:
                z, bc1, bc2, funs, pars, _ = w.refine_args(st, m)
            cb = [hist.Callback(f, self.ctl) for f in funs]
            if kind == "mid":
                b1 = bc1 if bc1 is not None else ["P"] * m.nbc
                b2 = bc2 if bc2 is not None else ["P"] * m.nbc
                # only the elements that the line divides in two
                sel = [i for i in range(m.nel) if self.divided(m, i, funs[0])]
                if not sel:
                    raise hist.Skip("no element is divided")
                d = copy.deepcopy(d)
                if call(mt.keep_elements, d, sel, external_bc="con").ok is False:
                    raise hist.Skip("keep failed")
                self.call = lambda: mt.extrude_mid(d, z, b1, b2, cb[0], 0.0, st["internal"])
                self.inputs = {"mesh": d, "z": z, "bc1": b1, "bc2": b2}
                return
            kw = {"bc1": bc1, "bc2": bc2, "fun": cb or None, "imesh_high": min(st["high"], max(len(cb), 0)),
                  "internal_bcs": st["internal"]}
            if pars is not None:
                kw["funpar"] = pars
            self.call = lambda: mt.extrude_refine(d, z, **kw)
            self.inputs = {"mesh": d, "z": z, "bc1": bc1, "bc2": bc2, "funpar": pars, "fun": kw["fun"]}
        elif kind == "map":
            r = w.pick(t["a"], lambda r: r[1].ndim == 2 and r[1].nel > 0)
            d = r[0]
            fun = hist.Callback(hist.map_function(st, r[1]), self.ctl)
            if not st["default"]:
                kw = {"curvature": st["curvature"], "boundary_curvature": st["boundary"]}
            self.call = lambda: mt.map2D(d, fun, **kw)
            self.inputs = {"mesh": d}
        elif kind == "merge":
            r = w.pick(t["a"], lambda r: r[1].nel > 0)
            d, m = r[0], r[1]
            if t["other"] == "stack":
                k = st["dir"] % m.ndim
                b = copy.deepcopy(d)
                delta = float(m.pos[:, k].max() - m.pos[:, k].min())
                for el in b.elem:
                    el.pos[k] += delta
            elif t["other"] == "dim":
                b = w.pick(t["b"], lambda q: q[1].ndim != m.ndim)[0]
            else:
                b = w.pick(t["b"], lambda q: q[1].ndim == m.ndim and q[1].nbc == m.nbc and q is not r)[0]
            if d.nel + b.nel > 160:
                raise hist.Skip("too big")
            if st["tol"] is not None:
                kw["tol"] = st["tol"]
            kw["ignore_empty"] = st["ignore_empty"]
            kw["ignore_all_bcs"] = st["ignore_all"]
            box = [copy.deepcopy(d)]

            def fresh():
                box[0] = copy.deepcopy(d)

            self.fresh = fresh

            def merge():
                n = box[0].merge(b, **kw)
                return n, box[0]

            self.call = merge
            self.inputs = {"merged mesh": b, "bystander": d}
        elif kind in ("connectivity", "present"):
            r = w.pick(t["a"], lambda r: r[1].nel <= 120)
            d = r[0]
            if t["b"] % 3 == 0 and d.nel and d.nbc:  # a damaged mesh: the check complains
                d = copy.deepcopy(d)
                el = d.elem[t["b"] % d.nel]
                el.bcs[t["b"] % d.nbc, t["a"] % (2 * d.ndim)][0] = ("", "E", "P")[t["a"] % 3]
            self.call = d.check_connectivity if kind == "connectivity" else d.check_bcs_present
            if kind == "connectivity" and t["a"] % 4 == 0:
                self.call = lambda: d.check_connectivity(tol=1e-2)
            self.inputs = {"mesh": d}
        elif kind == "keep":
            r = w.pick(t["a"], lambda r: r[1].nel > 0)
            d = r[0]
            sel = w.select(st, r[1])
            arg = hist.element_numbers(st, sel)
            box = [copy.deepcopy(d)]

            def fresh():
                box[0] = copy.deepcopy(d)

            self.fresh = fresh

            def keep():
                mt.keep_elements(box[0], arg, external_bc=st["ext"])
                return box[0]

            self.call = keep
            self.inputs = {"elements": arg, "bystander": d}
        elif kind == "box":
            nbc = mm.count_fields(st["var"])
            bcs = {"bcs_" + k: None if st["bcs"][k] is None else list(st["bcs"][k][:nbc]) for k in hist.SIDES}
            var = list(st["var"])
            self.call = lambda: mt.gen_box(st["nx"], st["ny"], st["x0"], st["x0"] + st["lx"], st["y0"],
                                           st["y0"] + st["ly"], var=var, internal_bcs=st["internal"], **bcs)
            self.inputs = dict(bcs, var=var)
        elif kind == "circle":
            if hist.circle_positions(st) is None:
                raise hist.Skip("default functions undefined")
            args = hist.circle_args(st)[0]
            if st["curv"]:
                kw["curvature_fun"] = hist.Callback(hist.CURVATURE[st["curv"]], self.ctl)
            if st["bl"]:
                kw["bl_fun"] = hist.Callback(hist.BL[st["bl"]], self.ctl)
            self.call = lambda: mt.gen_circle(st["r"], st["s"], st["ns"], st["no"], **args, **kw)
            self.inputs = {x: args[x] for x in ("var", "bc") if x in args}

    @staticmethod
    def divided(m, i, fun):
        v = [fun(m.pos[i, 0, 0, iy, ix], m.pos[i, 1, 0, iy, ix], 0.0) for iy in range(2) for ix in range(2)]
        return sum(x <= 0 for x in v) == 2

    def arm(self, at=None, exc=None):
        self.ctl.clear()
        self.ctl.update(n=0, at=at, exc=exc)


def run(sut, scn, ctx):
    w = hist.World(sut, ctx, lambda *a: None)
    w.soft = True
    w.flat2 = lambda r: r[1].ndim == 2 and r[1].nel > 0
    for st in scn["steps"]:
        w.do(st)
    for k, t in enumerate(scn["targets"]):
        try:
            tg = Target(w, t)
        except (hist.Skip, mm.Undefined) as e:
            ctx.count("targets_not_applicable")
            ctx.log("skip", e)
            continue
        one(ctx, tg, t)


def one(ctx, tg, t):
    kind = t["kind"]
    what = kind if "refuse" not in t else f"refused {kind} ({t['refuse']})"
    before = {k: freeze(v) for k, v in tg.inputs.items()}

    def compare(when):
        for k, v in tg.inputs.items():
            now = freeze(v)
            ctx.check(now == before[k], "modified",
                      lambda: f"{what}: the caller's {k} changed: {describe(before[k], now)} ({when})")

    def pristine():
        tg.arm()
        out = outcome(tg.call)
        n = tg.ctl["n"]
        at = None
        if t["fault"] == "line":
            tg.fresh()
            tg.arm()
            tr = recorder(t["line"])
            with tr:
                call(tg.call)
            at = resolve_line(t["line"], tr)
        return out, n, at

    want, calls, at = fork_eval(pristine)
    fault = t["fault"]
    if fault == "callback" and calls == 0:
        fault = "none"
    if fault != "none":
        tg.fresh()
        if fault == "callback":
            tg.arm(min(calls - 1, int(t["at"] * calls)), t["exc"])
            out = call(tg.call)
            if tg.ctl.get("fired"):
                ctx.fault("callback_raised")
                ctx.nontrivial = True
        else:
            tg.arm()
            tr = interrupted(t["line"], at)
            with tr:
                out = call(tg.call)
            if tr.fired:
                ctx.fault("line_interrupt")
                ctx.nontrivial = True
        ctx.steps += 1
        ctx.log("faulted", kind, fault, out.brief())
        ctx.state(kind, fault, out.brief())
        compare(f"by a call with a {fault} fault that {out.brief()}")
        out.value = None
    for again in ("", "repeated "):
        tg.fresh()
        tg.arm()
        got = outcome(tg.call)
        ctx.steps += 1
        ctx.log(again + "call", kind, got[0], got[1] if got[0] == "raised" else "")
        ctx.state(kind, got[0], t.get("refuse", ""), again)
        if got[0] == "raised":
            ctx.fault("refused")
        compare(f"by a {again}call that {'returned' if got[0] == 'ok' else 'raised ' + got[1]}")
        ctx.check(got == want, "different",
                  lambda: f"{what}: the {again}call {'after a ' + fault + ' fault ' if fault != 'none' else ''}"
                          f"{'gave' if got[0] == 'ok' else 'raised'} something else than at first: "
                          f"{describe(want[1], got[1]) if want[0] == got[0] else (want[0], got[0])}")
    ctx.nontrivial = True
    ctx.probe("target_" + kind)
