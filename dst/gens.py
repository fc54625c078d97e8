"""Scenario data: small JSON specs, the plain models they stand for, and the pymech objects."""

import sys

import numpy as np


class Model:
    pass


# --------------------------------------------------------------------------- values
SPECIAL = [0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, -5e-324, 1e-40, 1.7e308, -1.7e308,
           3.4e38, 3.5e38, 1e39, 1.0000000596, 16777217.0, 1e-45, np.pi, 0.1]


def values(seed, mode, shape, dtype="float64"):
    g = np.random.Generator(np.random.PCG64(seed))
    n = int(np.prod(shape))
    if mode == "bits":  # arbitrary finite bit patterns of moderate exponent
        a = g.standard_normal(n) * 10.0 ** g.integers(-12, 12, n)
    elif mode == "special":
        a = g.standard_normal(n)
        k = g.random(n) < 0.3
        a[k] = np.array(SPECIAL)[g.integers(0, len(SPECIAL), int(k.sum()))]
    elif mode == "index":  # every value says where it belongs
        a = np.arange(1, n + 1, dtype=float) + g.integers(0, 1000) * 1e5
    elif mode == "const":
        a = np.full(n, float(g.integers(-3, 4)))
    else:
        a = g.standard_normal(n)
    with np.errstate(all="ignore"):
        return a.reshape(shape).astype(dtype)


def permutation(kind, n):
    if isinstance(kind, dict) and "zero" in kind:  # a map that does not tell the order of the elements
        if kind["zero"] == "all":
            return np.zeros(n, dtype=np.int64)
        g = np.random.Generator(np.random.PCG64(kind["zero"]))
        em = g.permutation(n).astype(np.int64) + 1
        em[g.integers(0, n, g.integers(1, n + 1))] = 0
        return em
    if isinstance(kind, dict) and "part" in kind:  # one file of several: some of the elements only
        g = np.random.Generator(np.random.PCG64(kind["part"]))
        return g.permutation(n)[:g.integers(1, n + 1)].astype(np.int64) + 1
    if isinstance(kind, dict):
        g = np.random.Generator(np.random.PCG64(kind["perm"]))
        return g.permutation(n).astype(np.int64) + 1
    if kind == "rev":
        return np.arange(n, 0, -1, dtype=np.int64)
    if kind == "rot":
        return np.roll(np.arange(1, n + 1, dtype=np.int64), 1)
    return np.arange(1, n + 1, dtype=np.int64)


# --------------------------------------------------------------------------- fields
def gen_field(rng, big=False, small=False, box=False):
    ndim = rng.weighted((1, 2), (1.3, 3))
    if small:
        nel = rng.randint(1, 4)
        hi = 3
    elif big:
        nel = rng.weighted((3, rng.randint(150, 900)), (1, rng.randint(1000, 5000)), (0.15, rng.randint(32700, 70000)))
        hi = 3 if nel < 1000 else 2
    else:
        nel = rng.weighted((1, 1), (1, 2), (3, rng.randint(3, 9)), (1, rng.randint(10, 40)))
        hi = 5
    lo = 2
    if rng.chance(0.4):
        lx = rng.randint(lo, hi)
        lr1 = [lx, lx, lx]
    else:
        lr1 = [rng.randint(lo, hi) for _ in range(3)]
    if ndim == 2:
        lr1[2] = 1
        if rng.chance(0.1):
            lr1[rng.randrange(2)] = 1
    if rng.chance(0.05) and not big:
        lr1[rng.pick(0, 0, 1)] = rng.pick(rng.randint(8, 14), rng.randint(10, 40))
    while True:
        var = [rng.pick(0, ndim, ndim), rng.pick(0, ndim, ndim), rng.pick(0, 1), rng.pick(0, 1),
               rng.weighted((3, 0), (2, 1), (2, rng.randint(2, 5)), (0.4, rng.randint(9, 12)),
                            (0.25, 99))]
        if rng.chance(0.5):
            var[0] = ndim
        if any(var):
            break
    if nel >= 1000:
        var[4] = min(var[4], 1)
    if nel > 30000:
        lr1 = [2, 2, 1]
        ndim = 2
        var = [2, 0, var[2], 0, min(var[4], 1)]
    if var[4] == 99:
        nel = min(nel, 3)
        lr1 = [2, 2, 2 if ndim == 3 else 1]
    return {
        "ndim": ndim, "nel": nel, "lr1": lr1, "var": var,
        "wdsz": rng.pick(4, 8), "endian": rng.pick("little", "big"),
        "dtype": rng.weighted((9, "float64"), (3, "float32"), (0.5, "float16"), (0.5, "longdouble")),
        "time": rng.weighted((2, rng.uniform(-10, 1000)), (1, 0.0), (1, 1e-300), (1, -1.5e250),
                             (1, 0.1), (1, 99999.99999999999), (1, rng.uniform(0, 1) * 1e-7)),
        "istep": rng.weighted((2, rng.randint(0, 99999)), (1, 0), (1, 999999999), (1, -1), (0.3, 2147483647),
                              (0.3, -123456789)),
        "elmap": rng.weighted((2, "id"), (1, "rev"), (1, "rot"), (3, {"perm": rng.seed32()}),
                              (0.7, {"part": rng.seed32()})),
        "elmap_dtype": rng.weighted((3, "int32"), (1, "int64")),
        "seed": rng.seed32(),
        "mode": rng.weighted((3, "normal"), (2, "bits"), (2, "special"), (2, "index"), (0.5, "const")),
        "seq": rng.pick("list", "tuple"),
        "junk_z": ndim == 2 and rng.chance(0.3),
        "fortran": rng.chance(0.15),
        "layout": rng.weighted((12, None), (1, "strided"), (1, "swapped"), (1, "turned"), (1, "mixed")),
        "odd_endian": rng.weighted((8, None), (1, rng.pick("native", "=", "", "LITTLE"))),
        "readonly": rng.chance(0.1),
    }


def _endian(spec):
    """Data of unknown byte order are written in that of the machine."""
    return sys.byteorder if spec.get("odd_endian") is not None else spec["endian"]


def _freeze(d):
    for el in d.elem:
        for a in (el.pos, el.vel, el.pres, el.temp, el.scal, el.curv, el.bcs):
            a.setflags(write=False)


def build_field(spec):
    """The plain model of a field."""
    m = Model()
    m.ndim, m.nel = spec["ndim"], spec["nel"]
    m.lr1, m.var = tuple(spec["lr1"]), tuple(spec["var"])
    m.wdsz, m.endian = spec["wdsz"], _endian(spec)
    m.time, m.istep = float(spec["time"]), int(spec["istep"])
    m.elmap = permutation(spec["elmap"], m.nel)
    m.dtype = spec["dtype"]
    shape = m.lr1[::-1]
    for k, (name, n) in enumerate((("pos", m.var[0]), ("vel", m.var[1]), ("pres", m.var[2]),
                                   ("temp", m.var[3]), ("scal", m.var[4]))):
        setattr(m, name, values([spec["seed"], k], spec["mode"], (m.nel, n) + shape, m.dtype))
    if is_part(m):  # the elements of the other files
        rest = np.setdiff1d(np.arange(m.nel), m.elmap - 1)
        for name in FIELD_PARTS:
            getattr(m, name)[rest] = 0
    return m


def is_part(m):
    """Whether the file holds some of the elements only (one file of several)."""
    return len(m.elmap) < m.nel


def relaid(a, how):
    """An array with the same shape and values, but another arrangement or byte order in memory."""
    if how == "strided":
        wide = np.full(a.shape[:-1] + (2 * a.shape[-1],), 9.5, a.dtype)
        wide[..., ::2] = a
        return wide[..., ::2]
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder())
    if how == "turned":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return a


def hexa_field(sut, spec, m):
    """The pymech object of a field model."""
    seq = list if spec.get("seq", "list") == "list" else tuple
    d = sut.core.HexaData(m.ndim, m.nel, seq(m.lr1), seq(m.var), 0, m.dtype)
    d.time, d.istep, d.wdsz, d.endian = m.time, m.istep, m.wdsz, m.endian
    d.elmap = m.elmap.astype(spec.get("elmap_dtype", "int32"))
    for i, el in enumerate(d.elem):
        el.pos[: m.var[0]] = m.pos[i]
        if spec.get("junk_z"):
            el.pos[2] = 7.5 + i
        el.vel[: m.var[1]] = m.vel[i]
        el.pres[...] = m.pres[i]
        el.temp[...] = m.temp[i]
        el.scal[...] = m.scal[i]
        if spec.get("fortran"):
            el.pos = np.asfortranarray(el.pos)
            el.vel = np.asfortranarray(el.vel)
            el.pres = np.asfortranarray(el.pres)
        kind = spec.get("layout")
        if kind:  # the same values, held differently
            for k, name in enumerate(FIELD_PARTS):
                how = ("strided", "swapped", "turned", None)[(i + k) % 4] if kind == "mixed" else kind
                setattr(el, name, relaid(getattr(el, name), how))
    if spec.get("odd_endian") is not None:
        d.endian = spec["odd_endian"]
    if spec.get("readonly"):
        _freeze(d)
        d.elmap.setflags(write=False)
    return d


FIELD_PARTS = ("pos", "vel", "pres", "temp", "scal")


# --------------------------------------------------------------------------- meshes for the file formats
LABELS = ["W", "v", "O", "SYM", "P", "E", "ON", "mv", "f", "t", "I", "A", "axi", "msi", "vl", "o", "EXT", "Ex", "E2", "PW", "Per", "p", "e"]


TINY = [-1.25e-120, 1.5e-200, -3.0e-105, 2.5e120, -1.75e101, 1e-99, -1.0e99]


def gen_mesh(rng, big=False, small=False, fmt="re2"):
    ndim = rng.weighted((1, 2), (1.3, 3))
    if big:
        nel = rng.weighted((3, rng.randint(1000, 1060)), (1, 999), (1, 1000), (1, 1001),
                           (0.4 if fmt == "re2" else 0, rng.randint(32700, 70000)))
    elif small:
        nel = rng.randint(1, 3)
    else:
        nel = rng.weighted((1, 1), (1, 2), (3, rng.randint(3, 12)), (1, rng.randint(13, 40)),
                           (0.3, rng.randint(95, 130)))
    nbc = rng.weighted((1, 0), (3, 1), (2, 2), (1, 3), (0.5, 4))
    if big and fmt == "rea":
        nbc = min(nbc, 2)
    if nel > 30000:
        nbc = 1
    return {
        "ndim": ndim, "nel": nel, "nbc": nbc, "endian": rng.pick("little", "big"),
        "odd_endian": rng.weighted((8, None), (1, rng.pick("native", "=", "", "LITTLE"))),
        "readonly": rng.chance(0.1),
        "dtype": rng.weighted((5, "float64"), (1, "float32")) if fmt == "re2" else "float64",
        "seed": rng.seed32(),
        "geo": rng.weighted((2, "normal"), (2, "bits"), (1, "grid")),
        "curv": rng.weighted((1, 0.0), (2, 0.15), (1, 0.6), (0.5, 1.0)) if not big else rng.pick(0.0, 0.02),
        "fill": rng.weighted((2, 1.0), (2, 0.5), (1, 0.1), (1, 0.0)) if not big else rng.pick(1.0, 0.3),
        "intern": rng.weighted((1, 0.0), (2, 0.5), (1, 0.95)),
        "stale_ncurv": rng.chance(0.15),
        "blank": rng.chance(0.2),
        "tiny": rng.chance(0.15) and fmt == "rea",
        "layout": rng.weighted((12, None), (1, "strided"), (1, "swapped"), (1, "turned")),
        "stale_own": rng.chance(0.1) and fmt == "re2",
    }


def build_mesh(spec, fmt="re2"):
    m = Model()
    ndim, nel, nbc = spec["ndim"], spec["nel"], spec["nbc"]
    m.ndim, m.nel, m.nbc, m.endian = ndim, nel, nbc, _endian(spec)
    m.dtype = spec.get("dtype", "float64")
    g = np.random.Generator(np.random.PCG64([spec["seed"], 77]))
    lz = ndim - 1
    if spec["geo"] == "grid":
        m.pos = np.zeros((nel, 3, lz, 2, 2))
        for i in range(nel):
            m.pos[i, 0, :, :, 0], m.pos[i, 0, :, :, 1] = i, i + 1
            m.pos[i, 1, :, 0, :], m.pos[i, 1, :, 1, :] = 0, 1
            if lz == 2:
                m.pos[i, 2, 1] = 1
    else:
        m.pos = values([spec["seed"], 1], "normal" if spec["geo"] == "normal" else "bits",
                       (nel, 3, lz, 2, 2))
        if ndim == 2:
            m.pos[:, 2] = 0
    m.ccurv = [[""] * 12 for _ in range(nel)]
    m.curv = np.zeros((nel, 12, 5))
    hit = g.random((nel, 12)) < spec["curv"]
    if ndim == 2:
        hit[:, 4:] = False
    for i, k in zip(*np.nonzero(hit)):
        t = "mCs"[g.integers(0, 3)] if g.random() < 0.9 else "efgC"[g.integers(0, 4)]
        m.ccurv[i][k] = t
        n = {"m": 3, "C": 1, "s": 4}.get(t, 5)
        m.curv[i, k, :n] = g.standard_normal(n) * 10.0 ** g.integers(-3, 4, n)
        if g.random() < 0.1:
            m.curv[i, k, n:] = g.standard_normal(5 - n)
        if g.random() < 0.05 and fmt == "rea":
            m.curv[i, k, 0] = -1.25e-120
        if spec.get("blank") and g.random() < 0.4:
            m.curv[i, k] = 0  # such as the midpoint of a side around the origin
    tiny = fmt == "rea" and spec.get("tiny", False)
    if tiny:
        k = g.random(m.pos.shape) < 0.1
        if ndim == 2:
            k[:, 2] = False
        m.pos[k] = np.array(TINY)[g.integers(0, len(TINY), int(k.sum()))]
    m.label = [[[""] * 6 for _ in range(nbc)] for _ in range(nel)]
    m.bcpar = np.zeros((nel, nbc, 6, 5))
    nf = 2 * ndim
    r = g.random((nel, nbc, nf, 2))
    for i in range(nel):
        for b in range(nbc):
            for f in range(nf):
                if r[i, b, f, 0] >= spec["fill"]:
                    continue
                if r[i, b, f, 1] < spec["intern"]:
                    lab = "E"
                else:
                    lab = LABELS[g.integers(0, len(LABELS))]
                m.label[i][b][f] = lab
                if lab in ("E", "P"):
                    m.bcpar[i, b, f, :2] = g.integers(1, nel + 1), g.integers(1, nf + 1)
                    if g.random() < 0.1:
                        m.bcpar[i, b, f, 2:] = g.standard_normal(3)
                elif g.random() < 0.5:
                    m.bcpar[i, b, f] = g.standard_normal(5) * 10.0 ** g.integers(-5, 6, 5)
                    if tiny and g.random() < 0.5:
                        m.bcpar[i, b, f, g.integers(0, 5)] = TINY[g.integers(0, len(TINY))]
    if m.dtype == "float32":
        for a in ("pos", "curv", "bcpar"):
            setattr(m, a, getattr(m, a).astype(np.float32).astype(np.float64))
    m.wdsz = 8
    return m


def hexa_mesh(sut, spec, m):
    d = sut.core.HexaData(m.ndim, m.nel, [2, 2, m.ndim - 1], [m.ndim, 0, 0, 0, 0], m.nbc, m.dtype)
    d.endian = m.endian
    for i, el in enumerate(d.elem):
        el.pos[...] = m.pos[i]
        el.curv[...] = m.curv[i]
        el.ccurv = list(m.ccurv[i])
        for b in range(m.nbc):
            for f in range(2 * m.ndim):
                lab = m.label[i][b][f]
                if lab:
                    own = (i + 1, f + 1) if not spec.get("stale_own") else (0, 0)
                    el.bcs[b, f] = (lab,) + own + tuple(m.bcpar[i, b, f])
        if spec.get("layout"):
            el.pos, el.curv = relaid(el.pos, spec["layout"]), relaid(el.curv, spec["layout"])
    d.ncurv = sum(t != "" for c in m.ccurv for t in c)
    if spec.get("stale_ncurv"):
        d.ncurv += 1
    if spec.get("odd_endian") is not None:
        d.endian = spec["odd_endian"]
    if spec.get("readonly"):
        _freeze(d)
    return d


# --------------------------------------------------------------------------- comparisons
def same(a, b):
    """Equal shapes and exactly equal values (NaN equals NaN, signs of zeros count)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        eq = (a == b) & (np.signbit(a) == np.signbit(b))
        return bool(np.all(eq | ((a != a) & (b != b))))


def first_diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    with np.errstate(all="ignore"):
        bad = ~(((a == b) & (np.signbit(a) == np.signbit(b))) | ((a != a) & (b != b)))
    idx = tuple(int(x[0]) for x in np.nonzero(bad))
    if not idx and a.ndim:
        return "no difference"
    return f"at {idx}: got {a[idx]!r}, expected {b[idx]!r} ({int(bad.sum())} of {bad.size} differ)"


def round_time(t):
    return float("%.13E" % t)


def expected_read(m, name, n, dtype, wdsz=None):
    """What a reader must return for a block of the model: rounded to the file's precision, then to
    the requested type."""
    a = getattr(m, name)[:, :n]
    with np.errstate(all="ignore"):
        a = a.astype(np.float32 if (wdsz or m.wdsz) == 4 else np.float64)
        return a.astype(dtype)


def diff_field(data, m, dtype="float64", skipped=(), zero_map=None, time=None):
    """None if the object is what reading the model's complete file must give, else a description.
    `skipped` is a set of (part, component) that must be zero."""
    if type(data).__name__ != "HexaData":
        return f"returned {type(data).__name__}"
    for name, want in (("ndim", m.ndim), ("nel", m.nel), ("wdsz", m.wdsz), ("istep", m.istep),
                       ("endian", m.endian), ("time", round_time(m.time) if time is None else time)):
        got = getattr(data, name)
        if got != want:
            return f"{name} is {got!r}, expected {want!r}"
    if tuple(int(x) for x in data.lr1) != tuple(m.lr1):
        return f"lr1 is {data.lr1}, expected {m.lr1}"
    if tuple(int(x) for x in data.var) != tuple(m.var):
        return f"var is {data.var}, expected {m.var}"
    if len(data.elem) != m.nel:
        return f"{len(data.elem)} elements, expected {m.nel}"
    want_map = m.elmap if zero_map is None else zero_map
    if [int(x) for x in data.elmap] != [int(x) for x in want_map]:
        return f"elmap is {list(data.elmap)[:8]}..., expected {list(want_map)[:8]}..."
    for name, n in zip(FIELD_PARTS, m.var):
        want = expected_read(m, name, n, dtype)
        for s in skipped:
            if s[0] == name:
                want[:, s[1]] = 0
        got = np.array([getattr(el, name) for el in data.elem]) if m.nel else np.zeros((0,))
        if str(got.dtype) != str(np.dtype(dtype)):
            return f"{name} has type {got.dtype}, expected {dtype}"
        if name in ("pos", "vel"):
            if got.shape[1] != 3:
                return f"{name} has {got.shape[1]} components"
            if np.any(got[:, n:] != 0):
                return f"{name} has values in components that the file does not hold"
            got = got[:, :n]
        if not same(got, want):
            return f"{name} differs {first_diff(got, want)}"
    return None


# --------------------------------------------------------------------------- snapshots
DOCUMENTED = ("ndim", "nel", "ncurv", "nbc", "var", "lr1", "time", "istep", "wdsz", "endian")
ELEM_ARRAYS = ("pos", "curv", "vel", "pres", "temp", "scal", "bcs")


def snapshot(d):
    """A deep picture of the documented state of a mesh or field."""
    meta = []
    for k in DOCUMENTED:
        if not hasattr(d, k):
            meta.append((k, "", "absent"))
            continue
        v = getattr(d, k)
        meta.append((k, type(v).__name__ if k in ("var", "lr1") else "", tuple(int(x) for x in v)
                     if k in ("var", "lr1") else repr(v)))
    elems = []
    for el in d.elem:
        arrs = []
        for k in ELEM_ARRAYS:
            a = getattr(el, k)
            arrs.append((k, str(a.dtype), a.shape, a.tobytes() if a.dtype.names is None
                         else repr(a.tolist())))
        elems.append((tuple(arrs), tuple(el.ccurv)))
    em = np.asarray(d.elmap)
    return (tuple(meta), str(em.dtype), tuple(int(x) for x in em), tuple(elems))


def snap_diff(a, b):
    if a == b:
        return None
    for x, y in zip(a[0], b[0]):
        if x != y:
            return f"{x[0]} changed from {x[2]} to {y[2]}"
    if a[1:3] != b[1:3]:
        return f"elmap changed from {a[2][:8]} to {b[2][:8]}"
    if len(a[3]) != len(b[3]):
        return f"number of elements changed from {len(a[3])} to {len(b[3])}"
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        if x[1] != y[1]:
            return f"ccurv of element {i} changed from {x[1]} to {y[1]}"
        for p, q in zip(x[0], y[0]):
            if p != q:
                return f"{p[0]} of element {i} changed"
    return "changed"


# --------------------------------------------------------------------------- meshes read back
def diff_mesh(d, m, rtol=0.0, drop_internal=False, own=True, torn=False, ncurv=True, endian=True):
    """None if the mesh object is what reading the model's complete file must give.

    rtol           relative accuracy of the format (0: bit exact)
    drop_internal  the format leaves out 'E' conditions
    torn           trailing fields of boundary conditions may be missing as a whole
    """
    if type(d).__name__ != "HexaData":
        return f"returned {type(d).__name__}"
    for name, want in (("ndim", m.ndim), ("nel", m.nel)):
        if getattr(d, name, None) != want:
            return f"{name} is {getattr(d, name, None)}, expected {want}"
    if [int(x) for x in d.lr1] != [2, 2, m.ndim - 1]:
        return f"lr1 is {d.lr1}"
    if [int(x) for x in d.var] != [m.ndim, 0, 0, 0, 0]:
        return f"var is {d.var}"
    if endian and d.endian != m.endian:
        return f"endian is {d.endian}, expected {m.endian}"
    if len(d.elem) != m.nel:
        return f"{len(d.elem)} elements"
    if [int(x) for x in d.elmap] != list(range(1, m.nel + 1)):
        return f"elmap is {list(d.elmap)[:9]}"
    want_ncurv = sum(t != "" for c in m.ccurv for t in c)
    if ncurv and d.ncurv != want_ncurv:
        return f"ncurv is {d.ncurv}, expected {want_ncurv}"

    def close(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if rtol == 0:
            return same(a, b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(b)))

    pos = np.array([el.pos for el in d.elem])
    if not close(pos, m.pos):
        return f"vertices differ {first_diff(pos, m.pos)}"
    for i, el in enumerate(d.elem):
        if list(el.ccurv) != list(m.ccurv[i]):
            return f"curve types of element {i} are {el.ccurv}, expected {m.ccurv[i]}"
        k = [j for j in range(12) if m.ccurv[i][j] != ""]
        if not close(el.curv[k], m.curv[i][k]):
            return f"curves of element {i} differ {first_diff(el.curv[k], m.curv[i][k])}"
        rest = [j for j in range(12) if m.ccurv[i][j] == ""]
        if np.any(el.curv[rest] != 0):
            return f"element {i} has parameters on straight sides"
    nb = d.nbc
    if any(el.bcs.shape != (nb, 6) for el in d.elem):
        return f"condition arrays do not match nbc = {nb}"
    # how many of the fields returned must hold conditions (the others must be empty)
    full = []
    if nb == m.nbc:
        full.append(nb)
    elif m.nbc == 0 and nb == 1:
        full.append(0)
    elif torn and nb < m.nbc:
        full.append(nb)
    if torn and nb == 1 and m.nbc >= 1:
        full.append(0)  # the readers may allocate the first field before they know it is there
    if not full:
        return f"{nb} fields of boundary conditions, expected {m.nbc}"
    rows = [el.bcs.tolist() for el in d.elem]
    res = None
    for k in full:
        res = _diff_conditions(rows, m, nb, k, drop_internal, own, close)
        if res is None:
            return None
    return res


def _diff_conditions(rows, m, nb, full, drop_internal, own, close):
    for i in range(m.nel):
        for b in range(nb):
            for f in range(6):
                got = rows[i][b][f]
                lab = m.label[i][b][f] if (b < full and f < 2 * m.ndim) else ""
                if drop_internal and lab == "E":
                    lab = ""
                if got[0] != lab:
                    return f"element {i} face {f} field {b}: condition {got[0]!r}, expected {lab!r}"
                if lab == "":
                    continue
                if own and (got[1], got[2]) != (i + 1, f + 1):
                    return f"element {i} face {f} field {b}: own numbers {got[1:3]}"
                if not close(got[3:], m.bcpar[i, b, f]):
                    return (f"element {i} face {f} field {b} ({lab}): parameters {got[3:]}, expected "
                            f"{m.bcpar[i, b, f].tolist()}")
    return None


# --------------------------------------------------------------------------- map and SIMSON files
def gen_ma2(rng):
    return {"nel": rng.weighted((1, 1), (3, rng.randint(2, 20)), (1, rng.randint(50, 200))),
            "nvert": rng.pick(4, 8), "endian": rng.pick("little", "big"), "seed": rng.seed32()}


def build_ma2(spec):
    m = Model()
    m.nel, m.nvert, m.endian = spec["nel"], spec["nvert"], spec["endian"]
    g = np.random.Generator(np.random.PCG64([spec["seed"], 5]))
    m.procmap = g.integers(0, m.nel, m.nel)
    m.cell = g.integers(1, 2**31 - 1 if g.random() < 0.3 else m.nel * m.nvert + 1, (m.nel, m.nvert))
    return m


def gen_dns(rng):
    nx = rng.pick(2, 4, 4, 6, 8)
    nz = rng.pick(1, 1, 2, 4, 4, 6, 8)
    return {"nscal": rng.weighted((2, 0), (2, 1), (1, 2), (1, 3)), "endian": rng.pick("little", "big"),
            "lr1": [nx, rng.randint(2, 9), nz],
            "fltype": rng.pick(-1, -2, 3, 6, 7, 8, 9, 20, -20, 1, 2, -3), "seed": rng.seed32()}


def build_dns(spec):
    m = Model()
    g = np.random.Generator(np.random.PCG64([spec["seed"], 6]))
    m.endian, m.nscal, m.lr1, m.fltype = spec["endian"], spec["nscal"], list(spec["lr1"]), spec["fltype"]
    m.re = float(g.uniform(100, 5000))
    m.box = (float(g.uniform(1, 30)), float(g.uniform(1, 30)))
    m.time = float(g.uniform(0, 1e4))
    m.pr, m.mm = g.uniform(0.1, 1, m.nscal), g.uniform(0, 1, m.nscal)
    m.dstar = float(g.uniform(0.1, 2))
    m.extra = {-1: 1, -2: 2, 6: 4, 7: 4, 8: 4, 9: 4}.get(m.fltype, 0)
    m.extra = [float(x) for x in g.standard_normal(m.extra)]
    nx, ny, nz = m.lr1
    m.coef = g.standard_normal((3 + m.nscal, nz, ny, nx))
    m.coef[:, 0, :, 1] = 0.0  # the mean is real
    return m


def gen_plane(rng):
    ndim = rng.weighted((1, 1), (3, 2), (2, 3))
    return {"endian": rng.pick("little", "big"), "nn": [rng.randint(1, 7) for _ in range(ndim)],
            "seed": rng.seed32()}


def build_plane(spec):
    m = Model()
    g = np.random.Generator(np.random.PCG64([spec["seed"], 7]))
    m.endian, m.nn = spec["endian"], list(spec["nn"])
    n = len(m.nn)
    m.coords = [g.standard_normal(m.nn) for _ in range(n)]
    m.data = g.standard_normal(m.nn)
    return m


# --------------------------------------------------------------------------- Cartesian boxes of fields
def gen_boxfield(rng, small=False):
    ndim = rng.weighted((1, 2), (1, 3))
    hi = 2 if small else 3
    n = [rng.randint(1, hi) for _ in range(3)]
    if not small and rng.chance(0.1):  # long and thin
        k = rng.randrange(ndim)
        n = [1, 1, 1]
        n[k] = rng.randint(4, 14)
    lr1 = [rng.randint(2, 4) for _ in range(3)]
    if ndim == 2:
        n[2] = lr1[2] = 1
    var = [ndim, rng.pick(0, ndim, ndim), rng.pick(0, 1), rng.pick(0, 1), rng.pick(0, 0, 1, 3, 11)]
    nel = n[0] * n[1] * n[2]
    return {
        "n": n, "lr1": lr1, "var": var, "ndim": ndim, "nel": nel, "wdsz": rng.pick(4, 8, 8),
        "endian": rng.pick("little", "big"), "dtype": "float64",
        "time": rng.weighted((4, round(rng.uniform(0, 50), 3)), (1, 0.0), (1, -1.5), (1, rng.uniform(1e-9, 1e-6)),
                             (1, rng.uniform(1e3, 1e12))), "istep": rng.randint(0, 1000),
        "elmap": rng.weighted((1, "id"), (1, "rev"), (3, {"perm": rng.seed32()})),
        "order": rng.weighted((1, "id"), (3, {"perm": rng.seed32()})),
        "seed": rng.seed32(), "grid": rng.seed32(), "mode": rng.weighted((4, "normal"), (2, "index"), (1, "special")),
        "calm": rng.weighted((3, None), (1, rng.seed32())),
    }


def build_boxfield(spec):
    """A field on a box whose elements are numbered in the order spec["order"]; also the global arrays
    that a dataset of it must hold: m.axes = (x, y, z), m.glob = {name: (z, y, x) array}."""
    m = build_field(spec)
    if spec.get("calm"):  # nothing there, in some elements
        g = np.random.Generator(np.random.PCG64([spec["calm"], 13]))
        for a in (m.vel, m.pres, m.temp, m.scal):
            a[g.random(a.shape[:2]) < g.random()] = 0
    n, lr1 = spec["n"], spec["lr1"]
    g = np.random.Generator(np.random.PCG64([spec["grid"], 11]))
    real = np.float32 if m.wdsz == 4 else np.float64
    axreal = np.float32 if spec.get("axes32") else real
    scale = spec.get("scale", 1.0)
    g2 = np.random.Generator(np.random.PCG64([spec.get("inner", spec["grid"]), 12]))
    ax = []
    for d in range(3):
        if d >= m.ndim:
            ax.append(np.zeros((1, 1)))
            continue
        ends = np.cumsum(np.concatenate(([g.uniform(-2, 2)], g.uniform(0.2, 1.5, n[d]))))
        inner = np.cumsum(np.concatenate(([0.0], g2.uniform(0.3, 1.0, lr1[d] - 1))))
        inner /= inner[-1]
        if spec.get("even"):  # the unit cube, cut evenly
            ends = np.linspace(0, 1, n[d] + 1)
        a = ends[:-1, None] + inner[None, :] * np.diff(ends)[:, None]
        a[1:, 0] = a[:-1, -1]
        ax.append((a * scale).astype(axreal).astype(np.float64))
    m.axes = [a.ravel() for a in ax]
    place = permutation(spec["order"], m.nel) - 1
    names = ["ux", "uy", "uz"][: m.var[1]] + ["pressure"] * m.var[2] + ["temperature"] * m.var[3]
    names += ["s%02d" % (k + 1) for k in range(m.var[4])]
    shape = tuple(n[d] * lr1[d] for d in (2, 1, 0))
    m.glob = {k: np.zeros(shape) for k in names}
    for k in ("ux", "uy", "uz"):
        m.glob.setdefault(k, np.zeros(shape))
    for i in range(m.nel):
        p = int(place[i])
        ix, iy, iz = p % n[0], (p // n[0]) % n[1], p // (n[0] * n[1])
        loc = np.meshgrid(ax[2][iz], ax[1][iy], ax[0][ix], indexing="ij")
        for d in range(m.ndim):
            m.pos[i, d] = loc[2 - d]
        sl = (slice(iz * lr1[2], (iz + 1) * lr1[2]), slice(iy * lr1[1], (iy + 1) * lr1[1]),
              slice(ix * lr1[0], (ix + 1) * lr1[0]))
        cols = [m.vel[i, c] for c in range(m.var[1])] + list(m.pres[i]) \
            + list(m.temp[i]) + [m.scal[i, c] for c in range(m.var[4])]
        for k, a in zip(names, cols):
            m.glob[k][sl] = a.astype(real)
    return m


def diff_dataset(ds, m, it=None, extra=(), drop=()):
    """None if the dataset (at time index `it`, if it has a time axis) is what the file holds; variables
    `extra` that other files have are missing, variables `drop` were not asked for."""
    for d, k in enumerate(("x", "y", "z")):
        got = np.asarray(ds.coords[k].values)
        if not same(got + 0.0, m.axes[d] + 0.0):
            return f"coordinate {k} differs {first_diff(got, m.axes[d])}"
    t = np.asarray(ds.coords["time"].values)
    t = float(t if it is None else t[it])
    if t != round_time(m.time):
        return f"time is {t}, expected {round_time(m.time)}"
    want = dict(m.glob)
    zz, yy, xx = np.meshgrid(m.axes[2], m.axes[1], m.axes[0], indexing="ij")
    want.update(xmesh=xx, ymesh=yy, zmesh=zz)
    for k in extra:
        if k not in want:
            want[k] = np.full(xx.shape, np.nan)
    for k in drop:
        want.pop(k, None)
    if set(want) != set(ds.data_vars):
        return f"variables are {sorted(map(str, ds.data_vars))}, expected {sorted(want)}"
    for k, a in want.items():
        v = ds[k]
        if it is not None:
            v = v.isel(time=it)
        v = np.asarray(v.transpose("z", "y", "x").values)
        if not same(v + 0.0, a + 0.0):
            return f"{k} differs {first_diff(v, a)}"
    return None
