"""Single calls into pymech as data: generation, set-up and execution (for C10)."""

import os

import numpy as np

from . import hist, iosim, meshmodel as mm
from .core import Rng
from .forkeval import freeze
from .props import c09

IO = ("readnek", "header", "writenek", "readre2", "writere2", "readrea", "writerea", "readma2", "readdns", "readplane",
      "dataset")
MESH = ("box", "circle", "extrude", "refine", "map", "merge", "connectivity", "present", "keep", "generate", "delete",
        "rotate", "shared_re2", "shared_rea", "shared_nek", "report", "report_field")
SHARING = ("extrude", "refine", "map", "merge", "connectivity", "present", "shared_re2", "shared_rea", "shared_nek", "report")
HEAVY = ("refine", "merge", "circle", "extrude")  # many thousands of lines each


# --------------------------------------------------------------------------- generation
def gen_base(rng, dim=None):
    """A mesh to work on."""
    dim = dim or rng.weighted((3, 2), (2, 3))
    st = hist.gen_box(rng) if rng.chance(0.7) else hist.gen_circle(rng)
    st["internal"] = rng.chance(0.8)
    for k in ("nx", "ny", "ns", "no"):
        if k in st:
            st[k] = min(st[k], 3 if dim == 2 else 2)
    if st["op"] == "circle":
        st["bl"] = "lin"
        if st["curv"] == "one":
            st["curv"] = "lin"
        st["default"] = ""
    b = {"st": st, "dim": dim, "curve": rng.seed32() if rng.chance(0.3) else None,
         "scale": rng.weighted((3, 1.0), (1, 1e-4), (1, 1e4))}
    if dim == 3:
        b["ext"] = dict(hist.gen_extrude(rng), nz=rng.randint(1, 2))
    return b


def gen_op(rng, kinds=None):
    k = rng.pick(*kinds) if kinds else (rng.pick(*IO) if rng.chance(0.55) else rng.pick(*MESH))
    if k in HEAVY and rng.chance(0.5):
        k = rng.pick(*kinds) if kinds else rng.pick(*MESH)
    op = {"op": k}
    if k in IO:
        op["spec"] = gen_spec(rng, k)
        op["variant"] = rng.randrange(3)
        if k == "readnek" and rng.chance(0.4):
            op["opts"] = {"dtype": rng.pick("float32", "float64"), "skip": [v for v in ("y", "ux", "uz", "pressure", "t", "s01")
                                                                           if rng.chance(0.3)]}
        return op
    if k in ("box", "circle"):
        op["st"] = hist.gen_box(rng) if k == "box" else hist.gen_circle(rng)
        if k == "circle" and op["st"]["curv"] == "one":
            op["st"]["curv"] = "lin"
        return op
    if k == "report_field":
        op["spec"] = gen_spec(rng, "readnek")
        return op
    op["base"] = gen_base(rng, 2 if k in ("extrude", "refine", "map") else None)
    if k == "extrude":
        op["st"] = hist.gen_extrude(rng)
    elif k == "refine":
        op["base"] = dict(op["base"], st=dict(hist.gen_box(rng), nx=rng.randint(1, 2), ny=1))
        op["st"] = dict(hist.gen_refine(rng), ns=1, mult=1)
        op["st"]["high"] = rng.randint(0, 1)
    elif k == "map":
        op["st"] = hist.gen_step(rng, {"map": 1})
    elif k == "merge":
        op["st"] = hist.gen_step(rng, {"stack": 1})
    elif k == "keep":
        op["st"] = hist.gen_step(rng, {"keep": 1})
    elif k == "rotate":
        op["st"] = hist.gen_step(rng, {"rotate": 1})
    if k in SHARING and k != "refine":
        op["shared"] = rng.randrange(64) if rng.chance(0.6) else None
    return op


def similar(rng, op):
    """The same call with one thing changed."""
    new = gen_op(rng, [op["op"]])
    if new["op"] != op["op"]:
        return dict(op)
    out = dict(op)
    where = rng.pick(*[k for k in ("spec", "st", "base", "opts", "variant", "shared") if k in op and k in new])
    if where in ("spec", "st"):
        # (what the others have to agree with stays)
        keys = [k for k in FREE if k in op[where] and k in new[where]]
        if keys:
            k = rng.pick(*keys)
            out[where] = dict(op[where], **{k: new[where][k]})
    elif where == "base":
        k = rng.pick("curve", "scale", "st")
        b = dict(op["base"])
        if k == "st":
            keys = [x for x in FREE if x in b["st"] and x in new["base"]["st"]]
            x = rng.pick(*keys)
            b["st"] = dict(b["st"], **{x: new["base"]["st"][x]})
        else:
            b[k] = new["base"][k]
        out["base"] = b
    else:
        out[where] = new[where]
    return out


FREE = ("seed", "endian", "wdsz", "time", "istep", "mode", "elmap", "dtype", "order", "grid", "geo", "curv", "fill", "intern",
        "fltype", "r", "s", "bl", "x0", "y0", "lx", "ly", "internal", "z0", "lz", "zmode", "zseed", "curvature", "boundary",
        "theta", "ext", "ignore_empty", "ignore_all", "at", "dir", "f")


def gen_spec(rng, kind):
    from . import gens

    if kind in ("readnek", "header", "writenek"):
        spec = dict(gens.gen_field(rng, small=True), readonly=False)
    elif kind in ("readre2", "writere2"):
        spec = dict(gens.gen_mesh(rng, small=True, fmt="re2"), readonly=False)
    elif kind in ("readrea", "writerea"):
        spec = dict(gens.gen_mesh(rng, small=True, fmt="rea"), readonly=False)
    elif kind == "readma2":
        spec = gens.gen_ma2(rng)
    elif kind == "readdns":
        spec = gens.gen_dns(rng)
    elif kind == "readplane":
        spec = gens.gen_plane(rng)
    else:
        spec = gens.gen_boxfield(rng, small=True)
    if "stale_own" in spec:
        spec["stale_own"] = False
    return spec


# --------------------------------------------------------------------------- set-up
def base_model(b):
    st = b["st"]
    if st["op"] == "box":
        nbc = mm.count_fields(st["var"])
        bcs = {k: None if st["bcs"][k] is None else st["bcs"][k][:nbc] for k in hist.SIDES}
        m = mm.box(st["nx"], st["ny"], st["x0"], st["x0"] + st["lx"], st["y0"], st["y0"] + st["ly"], st["var"], bcs,
                   st["internal"])
    else:
        pos = hist.circle_positions(st)
        if pos is None:
            raise hist.Skip("no disc")
        m = mm.circle(st["r"], st["s"], st["ns"], st["no"], *pos, st["var"], st["bc"], st["internal"])
    if b["curve"] is not None:
        r = Rng(b["curve"])
        sc = m.scales()
        for _ in range(2):
            i, e = r.randrange(m.nel), r.randrange(4)
            p, q = mm.edge_points(m, i, e)
            m.ccurv[i][e] = "m"
            m.curv[i, e] = 0
            m.curv[i, e, :3] = 0.5 * (p + q)
            m.curv[i, e, 0] += 0.05 * sc[i]
    m.pos *= b["scale"]
    m.curv *= b["scale"]
    if b["dim"] == 3:
        e = b["ext"]
        bc1, bc2 = (None if e[k] is None else e[k][: m.nbc] for k in ("bc1", "bc2"))
        m = mm.extrude(m, hist.zs(e, e["nz"]), bc1, bc2, e["internal"])
    return m


class Op:
    """fn() makes the call; inputs: what it was given; path: the file it reads or writes."""

    def __init__(self, kind):
        self.kind = kind
        self.inputs = []
        self.fn = None
        self.path = None
        self.writes = False
        self.ctl = {"n": 0}
        self.size = 1000

    def picture(self, out):
        """What the call gave, as comparable data."""
        if not out.ok:
            return ("raised", out.etype)
        if self.writes:
            return ("ok", freeze(out.value), iosim.get(self.path))
        return ("ok", freeze(out.value))


def clean(op):
    if op.writes and os.path.exists(op.path):
        os.remove(op.path)


def setup(sut, ctx, op, idx, shared):
    """Build the inputs and files of the call.  shared: [(object, model)] that may be used but not changed."""
    k = op["op"]
    o = Op(k)
    mt, n = sut.meshtools, sut.neksuite
    if k in IO:
        spec, m = c09.model(k, op["spec"], op["variant"])
        name = c09.NAMES[k]
        d = os.path.join(ctx.scratch, f"t{idx}")
        os.makedirs(d, exist_ok=True)
        o.path = os.path.join(d, name)
        if k.startswith("write"):
            from . import gens

            obj = gens.hexa_field(sut, spec, m) if k == "writenek" else gens.hexa_mesh(sut, spec, m)
            o.writes = True
            o.inputs = [obj]
            w = getattr(n, k)
            o.fn = lambda: w(o.path, obj)
            return o
        full, _ = c09.encode(k, m)
        o.size = len(full)
        iosim.put(o.path, full)
        if "opts" in op:
            skip = list(op["opts"]["skip"])
            o.inputs = [skip]
            o.fn = lambda: n.readnek(o.path, dtype=op["opts"]["dtype"], skip_vars=tuple(skip))
        else:
            o.fn = c09.function(sut, k, o.path, None)
        return o
    if k == "box":
        st = op["st"]
        nbc = mm.count_fields(st["var"])
        kw = {"bcs_" + s: None if st["bcs"][s] is None else list(st["bcs"][s][:nbc]) for s in hist.SIDES}
        kw["internal_bcs"] = st["internal"]
        if st["var"] != [2, 2, 1, 0, 0] or st["nx"] % 2:
            kw["var"] = list(st["var"])
        o.inputs = [v for v in kw.values() if isinstance(v, list)]
        o.fn = lambda: mt.gen_box(st["nx"], st["ny"], st["x0"], st["x0"] + st["lx"], st["y0"], st["y0"] + st["ly"], **kw)
        return o
    if k == "circle":
        st = op["st"]
        if hist.circle_positions(st) is None:
            raise hist.Skip("no disc")
        kw = hist.circle_args(st)[0]
        o.inputs = [kw[x] for x in ("var", "bc") if x in kw]
        if st["curv"]:
            kw["curvature_fun"] = hist.Callback(hist.CURVATURE[st["curv"]], o.ctl)
        if st["bl"]:
            kw["bl_fun"] = hist.Callback(hist.BL[st["bl"]], o.ctl)
        o.fn = lambda: mt.gen_circle(st["r"], st["s"], st["ns"], st["no"], **kw)
        return o
    if k == "report_field":
        from . import gens

        spec, m = c09.model("readnek", op["spec"], 0)
        d = gens.hexa_field(sut, spec, m)
        o.inputs = [d]
        o.fn = lambda: report(d)
        return o
    use = [s for s in shared if op.get("shared") is not None
           and (s[1].ndim == 2 or k not in ("extrude", "refine", "map"))]
    if use:
        d, m = use[op["shared"] % len(use)]
    else:
        m = base_model(op["base"])
        d = mm.to_hexa(sut, m)
        o.inputs = [d]
    st = op.get("st", {})
    if k in ("extrude", "refine"):
        bc1, bc2 = (None if st[x] is None else list(st[x][: m.nbc]) for x in ("bc1", "bc2"))
        if k == "extrude":
            z = hist.zs(st, st["nz"])
            o.fn = lambda: mt.extrude(d, z, bc1=bc1, bc2=bc2, internal_bcs=st["internal"])
        else:
            w = hist.World(sut, ctx, None)
            try:
                z, b1, b2, funs, pars, _ = w.refine_args(st, m)
            except mm.Undefined as e:
                raise hist.Skip(str(e))
            cb = [hist.Callback(f, o.ctl) for f in funs]
            kw = {} if pars is None else {"funpar": pars}
            o.fn = lambda: mt.extrude_refine(d, z, bc1=bc1, bc2=bc2, fun=cb, imesh_high=st["high"],
                                             internal_bcs=st["internal"], **kw)
            if pars is not None:
                o.inputs.append(pars)
        o.inputs += [x for x in (z, bc1, bc2) if x is not None]
    elif k == "map":
        fun = hist.Callback(hist.map_function(st, m), o.ctl)
        o.fn = lambda: mt.map2D(d, fun, curvature=st["curvature"], boundary_curvature=st["boundary"])
    elif k == "merge":
        own = mm.to_hexa(sut, mm.shift(m, np.array([float(np.ptp(m.pos[:, 0])), 0.0, 0.0]) if m.nel else np.zeros(3)))
        o.inputs.append(own)

        def merge():
            c = own.merge(d, ignore_empty=st["ignore_empty"], ignore_all_bcs=st["ignore_all"])
            return c, own

        o.fn = merge
    elif k in ("connectivity", "present"):
        o.fn = d.check_connectivity if k == "connectivity" else d.check_bcs_present
    elif k == "report":
        o.fn = lambda: report(d)
    elif k.startswith("shared_"):
        o.writes = True
        fmt = {"shared_re2": "re2", "shared_rea": "rea", "shared_nek": "nek"}[k]
        os.makedirs(os.path.join(ctx.scratch, f"t{idx}"), exist_ok=True)
        o.path = os.path.join(ctx.scratch, f"t{idx}", {"nek": "o0.f00001"}.get(fmt, "o." + fmt))
        w = getattr(n, "write" + fmt)
        if fmt == "nek" and m.nel == 0:
            raise hist.Skip("empty")
        o.fn = lambda: w(o.path, d)
    else:
        if k == "keep":
            sel = hist.element_numbers(st, hist.World(sut, ctx, None).select(st, m))
            o.inputs.append(sel)
            do = lambda: mt.keep_elements(d, sel, external_bc=st["ext"])  # noqa: E731
        elif k == "generate":
            do = lambda: (mt.delete_internal_bcs(d), mt.generate_internal_bcs(d))  # noqa: E731
        elif k == "delete":
            do = lambda: mt.delete_internal_bcs(d)  # noqa: E731
        else:
            do = lambda: mt.rotate_2d(d, st["x0"], st["y0"], st["theta"])  # noqa: E731
        o.fn = lambda: (do(), d)
    return o


def report(d):
    """What a mesh or field says about itself."""
    lims = d.lims
    out = [{v: getattr(lims, v) for v in ("pos", "vel", "pres", "temp", "scal")}, repr(d), d.get_points()]
    for el in d.elem[:12]:
        out.append((el.centroid, el.smallest_edge(), [el.face_center(f) for f in range(2 * d.ndim)], repr(el)))
    return out


# --------------------------------------------------------------------------- modification in place
def scramble(v, rng, depth=0):
    """Change every mutable part of v in place."""
    if hasattr(v, "elem") and hasattr(v, "elmap"):
        for el in v.elem:
            scramble(el, rng, depth + 1)
        for k in ("var", "lr1"):
            scramble(getattr(v, k), rng, depth + 1)
        if isinstance(v.elmap, np.ndarray):
            scramble(v.elmap, rng, depth + 1)
        v.elem.reverse()
        return
    if hasattr(v, "ccurv") and hasattr(v, "bcs"):
        for k in ("pos", "curv", "vel", "pres", "temp", "scal", "bcs"):
            scramble(getattr(v, k), rng, depth + 1)
        scramble(v.ccurv, rng, depth + 1)
        return
    if isinstance(v, np.ndarray):
        if not v.size or not v.flags.writeable:
            return
        if v.dtype.names:
            for name in v.dtype.names:
                if v[name].dtype.kind in "US":
                    v[name] = "XY"
                else:
                    v[name] = 1 + (v[name] == 1) * 2
        elif v.dtype.hasobject:
            v[...] = None
        elif v.dtype.kind in "US":
            v[...] = "XY"
        elif v.dtype.kind == "b":
            v[...] = ~v
        else:
            with np.errstate(all="ignore"):
                v[...] = np.where(v == 3, 5, 3)
        return
    if isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, (list, np.ndarray)) or hasattr(x, "pos"):
                scramble(x, rng, depth + 1)
            elif isinstance(x, str):
                v[i] = "XY"
            elif isinstance(x, (int, float)):
                v[i] = x + 7
        return
    if isinstance(v, tuple):
        for x in v:
            scramble(x, rng, depth + 1)
        return
    if type(v).__module__.startswith("xarray"):
        for a in list(v.data_vars.values()) + list(v.coords.values()):
            try:
                x = a.values
                if a.name not in v.indexes:
                    scramble(x, rng, depth + 1)
            except (ValueError, TypeError):
                pass


def parts(v):
    """Objects inside a result that must not share state with each other."""
    if hasattr(v, "elem") and hasattr(v, "elmap"):
        return list(v.elem)
    return []
