"""Executable reference model of meshes and of the operations on them.

A model mesh is plain data; every operation is written from its documentation, over whole arrays and
geometric coincidence, and shares no code with pymech.  Element order, labels, links and curved sides
are exact; coordinates are those of the documented formulas (compared up to rounding)."""

import math

import numpy as np

# vertices (iz, iy, ix) of the faces and edges of an element, in Nek's numbering (from zero)
FACES = [
    ((0, 0, 0), (0, 0, 1), (1, 0, 0), (1, 0, 1)),
    ((0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1)),
    ((0, 1, 0), (0, 1, 1), (1, 1, 0), (1, 1, 1)),
    ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0)),
    ((0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1)),
    ((1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1)),
]
EDGES = [
    ((0, 0, 0), (0, 0, 1)), ((0, 0, 1), (0, 1, 1)), ((0, 1, 1), (0, 1, 0)), ((0, 1, 0), (0, 0, 0)),
    ((1, 0, 0), (1, 0, 1)), ((1, 0, 1), (1, 1, 1)), ((1, 1, 1), (1, 1, 0)), ((1, 1, 0), (1, 0, 0)),
    ((0, 0, 0), (1, 0, 0)), ((0, 0, 1), (1, 0, 1)), ((0, 1, 1), (1, 1, 1)), ((0, 1, 0), (1, 1, 0)),
]


class Mesh:
    def __init__(self, ndim, nel, nbc, var, n=2):
        self.ndim, self.nel, self.nbc, self.var = ndim, nel, nbc, list(var)
        self.n = n  # points along each direction of an element
        self.pos = np.zeros((nel, 3, n if ndim == 3 else 1, n, n))
        self.data = [None] * nel  # values of the fields of each element by name, if they are known
        self.ccurv = [[""] * 12 for _ in range(nel)]
        self.curv = np.zeros((nel, 12, 5))
        self.lab = [[[""] * 6 for _ in range(nbc)] for _ in range(nel)]
        self.par = np.zeros((nel, nbc, 6, 5))
        self.elmap = np.arange(1, nel + 1)
        # elements whose curve types the documentation leaves open: the midpoints their edges must have,
        # (12, 4), the fourth number being the tolerance
        self.loose_curv = {}
        self.full = True  # every pair of coinciding faces is connected
        self.uniform = True  # every element has the fields the mesh declares

    def copy(self):
        m = Mesh(self.ndim, 0, self.nbc, self.var, self.n)
        m.nel = self.nel
        m.data = list(self.data)
        m.pos, m.curv, m.par = self.pos.copy(), self.curv.copy(), self.par.copy()
        m.ccurv = [list(c) for c in self.ccurv]
        m.lab = [[list(f) for f in b] for b in self.lab]
        m.elmap = self.elmap.copy()
        m.loose_curv = dict(self.loose_curv)
        m.full, m.uniform = self.full, self.uniform
        return m

    @property
    def lr1(self):
        return [self.n, self.n, self.n if self.ndim == 3 else 1]

    @property
    def ncurv(self):
        return sum(t != "" for c in self.ccurv for t in c)

    def nface(self):
        return 2 * self.ndim

    def face_points(self):
        """(nel, nface, 4, 3); in two dimensions each vertex counts twice."""
        p = np.empty((self.nel, self.nface(), 4, 3))
        for f in range(self.nface()):
            for k, (iz, iy, ix) in enumerate(FACES[f]):
                p[:, f, k] = self.pos[:, :, -iz, -iy, -ix]
        return p

    def face_centers(self):
        return self.face_points().mean(axis=2)

    def scales(self):
        """Length of the smallest edge of each element."""
        n = 4 if self.ndim == 2 else 12
        out = np.full(self.nel, np.inf)
        for (a, b) in EDGES[:n]:
            d = self.pos[:, :, -a[0], -a[1], -a[2]] - self.pos[:, :, -b[0], -b[1], -b[2]]
            out = np.minimum(out, np.sqrt((d**2).sum(axis=1)))
        return out

    def links(self):
        """Set of (field, element, face, label, linked element, linked face), from zero."""
        return [(b, i, f, self.lab[i][b][f], int(self.par[i, b, f, 0]) - 1, int(self.par[i, b, f, 1]) - 1)
                for i in range(self.nel) for b in range(self.nbc) for f in range(self.nface())
                if self.lab[i][b][f] in ("E", "P")]

    def set_link(self, b, i, f, label, j, g):
        self.lab[i][b][f] = label
        self.par[i, b, f, :2] = j + 1, g + 1


# --------------------------------------------------------------------------- coincidence of faces
def coinciding(pts_a, pts_b, sc_a, sc_b, tol):
    """Pairs ((i, f), (j, g)) of faces whose centres are closer than tol * smallest edge."""
    ca = pts_a.mean(axis=2).reshape(-1, 3)
    cb = pts_b.mean(axis=2).reshape(-1, 3)
    fa, fb = pts_a.shape[1], pts_b.shape[1]
    if not len(ca) or not len(cb):
        return []
    sa, sb = np.repeat(sc_a, fa), np.repeat(sc_b, fb)
    out = []
    order = np.argsort(cb[:, 0], kind="stable")
    xs = cb[order, 0]
    reach = tol * sa
    lo = np.searchsorted(xs, ca[:, 0] - reach, "left")
    hi = np.searchsorted(xs, ca[:, 0] + reach, "right")
    for k in range(len(ca)):
        if hi[k] <= lo[k]:
            continue
        cand = order[lo[k]:hi[k]]
        d = np.sqrt(((cb[cand] - ca[k]) ** 2).sum(axis=1))
        for c in cand[d <= tol * np.minimum(sa[k], sb[cand])]:
            out.append(((k // fa, k % fa), (int(c) // fb, int(c) % fb)))
    return out


def conforming(a, b, pairs, tol=1e-6):
    """Whether every pair of faces coincides vertex by vertex, and in curvature (in two dimensions)."""
    pa, pb, sa, sb = a.face_points(), b.face_points(), a.scales(), b.scales()
    for (i, f), (j, g) in pairs:
        d = np.sqrt(((pa[i, f][:, None] - pb[j, g][None]) ** 2).sum(axis=2))
        worst = max(d.min(axis=0).max(), d.min(axis=1).max())
        if a.ndim == 2:
            worst = max(worst, float(np.abs(midpoint(a, i, f) - midpoint(b, j, g)).max()))
        if worst > tol * min(sa[i], sb[j]):
            return False
    return True


def self_pairs(m, tol):
    p, s = m.face_points(), m.scales()
    return [(a, b) for a, b in coinciding(p, p, s, s, tol) if a[0] < b[0]]


# --------------------------------------------------------------------------- generators
def count_fields(var):
    return (var[1] > 0) + (var[3] > 0) + var[4]


def box(nx, ny, x0, x1, y0, y1, var, bcs, internal):
    """bcs: {"xmin": list or None, ...}; element number i + nx * j."""
    nbc = count_fields(var)
    m = Mesh(2, nx * ny, nbc, var)
    m.full = internal
    gx = x0 + (x1 - x0) * np.arange(nx + 1) / nx
    gy = y0 + (y1 - y0) * np.arange(ny + 1) / ny
    sides = {3: "xmin", 1: "xmax", 0: "ymin", 2: "ymax"}
    step = {0: (0, -1), 1: (1, 0), 2: (0, 1), 3: (-1, 0)}
    opposite = {0: 2, 1: 3, 2: 0, 3: 1}
    for j in range(ny):
        for i in range(nx):
            e = i + nx * j
            m.pos[e, 0, 0] = [[gx[i], gx[i + 1]]] * 2
            m.pos[e, 1, 0] = [[gy[j]] * 2, [gy[j + 1]] * 2]
            for f in range(4):
                a, c = i + step[f][0], j + step[f][1]
                inside = 0 <= a < nx and 0 <= c < ny
                other = (a % nx) + nx * (c % ny)
                for b in range(nbc):
                    if inside:
                        if internal:
                            m.set_link(b, e, f, "E", other, opposite[f])
                        continue
                    names = bcs[sides[f]]
                    lab = "P" if names is None else names[b]
                    m.lab[e][b][f] = lab
                    if lab == "P":
                        m.set_link(b, e, f, "P", other, opposite[f])
    return m


def circle(r, s, ns, no, eta, gamma, var, bc, internal):
    """eta: the no+1 radial positions in [0, 1]; gamma: the relative curvature at each."""
    nbc = len(bc)
    quarter = Mesh(2, ns * no, nbc, var)
    side = s * r * math.sqrt(2)  # of the square
    half = 0.5 * side
    corner = np.empty((ns + 1, no + 1, 2))
    for j in range(ns + 1):
        al = 0.5 * math.pi * (j / ns - 0.5)
        be = math.atan(2 * j / ns - 1)
        for i in range(no + 1):
            circ = half / math.cos(al) + eta[i] * (r - half / math.cos(al))
            line = (half + eta[i] * (r / math.sqrt(2) - half)) / math.cos(be)
            rad = gamma[i] * circ + (1 - gamma[i]) * line
            ang = gamma[i] * al + (1 - gamma[i]) * be
            corner[j, i] = rad * math.cos(ang), rad * math.sin(ang)
    for j in range(ns):
        for i in range(no):
            e = i + no * j
            for iy in range(2):
                for ix in range(2):
                    quarter.pos[e, :2, 0, iy, ix] = corner[j + iy, i + ix]
            if i == no - 1:
                quarter.ccurv[e][1] = "C"
                quarter.curv[e, 1, 0] = r
                for b in range(nbc):
                    quarter.lab[e][b][1] = bc[b]
    sq = box(ns, ns, -half, half, -half, half, [2, 2, 1, 0, 0], dict.fromkeys(("xmin", "xmax", "ymin", "ymax"),
             [""] * 9), False)
    m = Mesh(2, ns * ns, nbc, var)
    m.pos = sq.pos
    for k in range(4):
        q = rotate(quarter, 0.0, 0.0, k * 0.5 * math.pi)
        m = append(m, q)
    if internal:
        connect(m, self_pairs(m, 1e-2))
    m.full = internal
    return m


def append(a, b):
    m = a.copy()
    n = a.nel
    m.nel = n + b.nel
    m.pos = np.concatenate((a.pos, b.pos))
    m.data = a.data + b.data
    m.curv = np.concatenate((a.curv, b.curv))
    m.ccurv += [list(c) for c in b.ccurv]
    m.lab += [[list(f) for f in x] for x in b.lab]
    par = b.par.copy()
    for (fb, i, f, _, _, _) in b.links():
        par[i, fb, f, 0] += n
    m.par = np.concatenate((a.par, par))
    m.elmap = np.concatenate((a.elmap, b.elmap + n))
    m.loose_curv.update({n + e: v for e, v in b.loose_curv.items()})
    m.full = a.full and b.full
    m.uniform = a.uniform and b.uniform and list(a.var) == list(b.var)
    return m


def insert(a, b, k):
    """a with the elements of b before its element k, counted from zero."""
    m = append(a, b)
    order = list(range(k)) + list(range(a.nel, m.nel)) + list(range(k, a.nel))
    place = {old: new for new, old in enumerate(order)}
    links = m.links()
    out = m.copy()
    out.data = [m.data[i] for i in order]
    out.pos, out.curv, out.par = m.pos[order].copy(), m.curv[order].copy(), m.par[order].copy()
    out.ccurv = [list(m.ccurv[i]) for i in order]
    out.lab = [[list(f) for f in m.lab[i]] for i in order]
    out.loose_curv = {place[i]: v for i, v in m.loose_curv.items()}
    out.elmap = np.arange(1, m.nel + 1)
    for (fb, i, f, lab, j, g) in links:
        out.set_link(fb, place[i], f, lab, place[j], g)
    return out


def connect(m, pairs):
    for (i, f), (j, g) in pairs:
        for b in range(m.nbc):
            m.set_link(b, i, f, "E", j, g)
            m.set_link(b, j, g, "E", i, f)


# --------------------------------------------------------------------------- transformations
def rotate(m, x0, y0, theta):
    m = m.copy()
    c, s = math.cos(theta), math.sin(theta)

    def turn(x, y):
        return x0 + c * (x - x0) - s * (y - y0), y0 + s * (x - x0) + c * (y - y0)

    m.pos[:, 0], m.pos[:, 1] = turn(m.pos[:, 0].copy(), m.pos[:, 1].copy())
    for i in range(m.nel):
        for k in range(12):
            if m.ccurv[i][k] in ("m", "s"):
                m.curv[i, k, 0], m.curv[i, k, 1] = turn(m.curv[i, k, 0], m.curv[i, k, 1])
    return m


def shift(m, d):
    m = m.copy()
    for k in range(3):
        m.pos[:, k] += d[k]
    for i in range(m.nel):
        for e in range(12):
            if m.ccurv[i][e] in ("m", "s"):
                m.curv[i, e, :3] += d
    return m


def edge_points(m, i, k):
    (a, b) = EDGES[k]
    return (m.pos[i, :, -a[0], -a[1], -a[2]], m.pos[i, :, -b[0], -b[1], -b[2]])


def arc_midpoint(a, b, rad):
    """Midpoint of the arc of this radius from a to b; a positive one lies on the right."""
    half = 0.5 * math.hypot(b[0] - a[0], b[1] - a[1])
    sag = math.copysign(abs(rad) - math.sqrt(max(0.0, rad * rad - half * half)), rad)
    n = np.array([b[1] - a[1], a[0] - b[0], 0.0]) / (2 * half)  # outward for a counter-clockwise element
    return 0.5 * (a + b) + sag * n


def midpoint(m, i, k):
    """Midpoint of a straight edge, a midpoint edge or a circular arc (in the x-y plane)."""
    t = m.ccurv[i][k]
    if t == "m":
        return m.curv[i, k, :3].copy()
    a, b = edge_points(m, i, k)
    if t == "C":
        return arc_midpoint(a, b, m.curv[i, k, 0])
    return 0.5 * (a + b)


def map2d(m, fun, curvature, boundary):
    new = m.copy()
    for i in range(m.nel):
        for iy in range(m.n):
            for ix in range(m.n):
                new.pos[i, :2, 0, iy, ix] = fun(*m.pos[i, :2, 0, iy, ix])
        for k in range(4):
            ext = m.nbc > 0 and m.lab[i][0][k] not in ("", "E")
            if curvature or m.ccurv[i][k] != "" or (boundary and ext):
                x = midpoint(m, i, k)
                new.ccurv[i][k] = "m"
                new.curv[i, k, :2] = fun(x[0], x[1])
                if m.ccurv[i][k] != "m":
                    new.curv[i, k, 2:] = 0.0
    return new


# --------------------------------------------------------------------------- subsets and conditions
def delete_internal(m):
    m = m.copy()
    n = 0
    for i in range(m.nel):
        for b in range(m.nbc):
            for f in range(6):
                if m.lab[i][b][f] == "E":
                    m.lab[i][b][f] = ""
                    m.par[i, b, f] = 0
                    n += 1
    if n:
        m.full = False
    return m, n


def generate_internal(m, tol):
    """Connects the coinciding faces without a condition; returns the number of conditions pairs made."""
    m = m.copy()
    pairs = [p for p in self_pairs(m, tol)
             if m.lab[p[0][0]][0][p[0][1]] == "" and m.lab[p[1][0]][0][p[1][1]] == ""]
    connect(m, pairs)
    return m, len(pairs) * m.nbc


def keep(m, elems, external):
    elems = sorted(int(e) for e in elems)
    new_of = {e: k for k, e in enumerate(elems)}
    out = Mesh(m.ndim, 0, m.nbc, m.var, m.n)
    out.nel = len(elems)
    out.data = [m.data[e] for e in elems]
    out.pos, out.curv, out.par = m.pos[elems].copy(), m.curv[elems].copy(), m.par[elems].copy()
    out.ccurv = [list(m.ccurv[e]) for e in elems]
    out.lab = [[list(f) for f in m.lab[e]] for e in elems]
    out.elmap = np.array([new_of[e - 1] + 1 for e in m.elmap if e - 1 in new_of], dtype=int)
    out.loose_curv = {new_of[e]: v for e, v in m.loose_curv.items() if e in new_of}
    out.full, out.uniform = m.full, m.uniform
    for (b, i, f, lab, j, g) in m.links():
        if i not in new_of:
            continue
        k = new_of[i]
        if j in new_of:
            out.par[k, b, f, 0] = new_of[j] + 1
        else:
            out.lab[k][b][f] = external
            out.par[k, b, f, :2] = 0
    return out


def merge_pairs(a, b, tol, ignore_empty=True):
    """Pairs of external faces that merging b into a must connect, b's elements first."""
    def ext(m, x):
        lab = m.lab[x[0]][0][x[1]]
        return lab != "E" and not (ignore_empty and lab == "")

    if a.nbc == 0 or b.nbc == 0:
        return []
    pairs = coinciding(b.face_points(), a.face_points(), b.scales(), a.scales(), tol)
    return [(x, y) for x, y in pairs if ext(b, x) and ext(a, y)]


def merge_defined(a, b, tol, ignore_empty):
    """False if the documentation does not say what the merge must give: a periodic face meeting a face
    that is not, or a face meeting several."""
    pairs = merge_pairs(a, b, tol, ignore_empty)
    left, right = [p[0] for p in pairs], [p[1] for p in pairs]
    if len(set(left)) != len(left) or len(set(right)) != len(right):
        return False
    sa, sb = set(right), set(left)
    for x, y in pairs:
        if len({b.lab[x[0]][f][x[1]] == "P" for f in range(b.nbc)}) > 1:
            return False
        for f in range(b.nbc):
            p, q = b.lab[x[0]][f][x[1]] == "P", a.lab[y[0]][f][y[1]] == "P"
            if p != q:
                return False
            if p:
                # partners that are being connected themselves in the same merge
                if (int(b.par[x[0], f, x[1], 0]) - 1, int(b.par[x[0], f, x[1], 1]) - 1) in sb:
                    return False
                if (int(a.par[y[0], f, y[1], 0]) - 1, int(a.par[y[0], f, y[1], 1]) - 1) in sa:
                    return False
    return True


def merge(a, b, tol, ignore_empty, ignore_all):
    m = append(a, b)
    n = a.nel
    if ignore_all:
        m.full = False
        return m, 0
    pairs = merge_pairs(a, b, tol, ignore_empty)
    pairs = [((i + n, f), (j, g)) for (i, f), (j, g) in pairs]
    for (i, f), (j, g) in pairs:
        for b_ in range(m.nbc):
            if m.lab[i][b_][f] == "P" and m.lab[j][b_][g] == "P":
                ip, fp = (int(v) - 1 for v in m.par[i, b_, f, :2])
                jp, gp = (int(v) - 1 for v in m.par[j, b_, g, :2])
                m.set_link(b_, ip, fp, "P", jp, gp)
                m.set_link(b_, jp, gp, "P", ip, fp)
    connect(m, pairs)
    return m, len(pairs)


# --------------------------------------------------------------------------- extrusion
def extrude(m, z, bc1, bc2, internal):
    z = [float(v) for v in z]
    nz, n2, nbc = len(z) - 1, m.nel, m.nbc
    bc1 = ["P"] * nbc if bc1 is None else bc1
    bc2 = ["P"] * nbc if bc2 is None else bc2
    base = m if internal else delete_internal(m)[0]
    out = Mesh(3, n2 * nz, nbc, [3, 0, 0, 0, 0])
    out.full = m.full and internal
    em = []
    for k in range(nz):
        em += [e + k * n2 for e in m.elmap]
        for i in range(n2):
            e = i + n2 * k
            for s in range(2):
                out.pos[e, :2, s] = m.pos[i, :2, 0]
                out.pos[e, 2, s] = z[k + s]
                for c in range(4):
                    out.ccurv[e][c + 4 * s] = m.ccurv[i][c]
                    out.curv[e, c + 4 * s] = m.curv[i, c]
                    if m.ccurv[i][c] == "m":
                        out.curv[e, c + 4 * s, 2] = z[k + s]
            if i in m.loose_curv:
                raise ValueError("curve types must have been adopted before an extrusion")
            for b in range(nbc):
                for f in range(4):
                    out.lab[e][b][f] = base.lab[i][b][f]
                    out.par[e, b, f] = base.par[i, b, f]
                    if base.lab[i][b][f] in ("E", "P"):
                        out.par[e, b, f, 0] += k * n2
                for f, kk, name in ((4, k - 1, bc1), (5, k + 1, bc2)):
                    if 0 <= kk < nz:
                        if internal:
                            out.set_link(b, e, f, "E", i + n2 * kk, 9 - f)
                    else:
                        out.lab[e][b][f] = name[b]
                        if name[b] == "P":
                            out.set_link(b, e, f, "P", i + n2 * (kk % nz), 9 - f)
    out.elmap = np.array(em, dtype=int)
    return out


def fill(m, seed):
    """The user gives all the fields of a mesh values."""
    m = m.copy()
    g = np.random.Generator(np.random.PCG64([seed, 11]))
    lx, ly, lz = m.lr1
    for i in range(m.nel):
        m.data[i] = {}
        for name, k in (("vel", 3 if m.var[1] else 0), ("pres", m.var[2]), ("temp", m.var[3]), ("scal", m.var[4])):
            if k:
                a = g.standard_normal((k, lz, ly, lx))
                if name == "vel":
                    a[m.var[1]:] = 0.0
                m.data[i][name] = a
    return m


def refine_points(m, n):
    """The mesh with n points per direction in each (straight) element."""
    out = Mesh(m.ndim, 0, m.nbc, m.var, n)
    out.nel = m.nel
    u = 0.5 - 0.5 * np.cos(np.pi * np.arange(n) / (n - 1))
    w = np.stack((1 - u, u), axis=1)  # (n, 2)
    p = np.einsum("ecijk,xk->ecijx", m.pos, w)
    p = np.einsum("ecijx,yj->eciyx", p, w)
    out.pos = np.einsum("eciyx,zi->eczyx", p, w) if m.ndim == 3 else p
    for k in ("par", "lab", "elmap", "full"):
        setattr(out, k, getattr(m, k))
    out.ccurv, out.curv = [[""] * 12 for _ in range(m.nel)], np.zeros((m.nel, 12, 5))
    out.data = [None] * m.nel
    return out


class Undefined(Exception):
    """The documentation does not say what this call must give."""


def zone(m, i, fun, par):
    """'int', 'mid' or 'ext', and the two low and high edges of a mid element."""
    val = np.array([[float(fun(m.pos[i, 0, 0, iy, ix], m.pos[i, 1, 0, iy, ix], par)) for ix in range(2)]
                    for iy in range(2)])
    if np.any(np.abs(val) < 1e-9):
        raise Undefined("the splitting line passes through a vertex")
    if val.max() <= 0:
        return "int", val
    if val.min() > 0:
        return "ext", val
    return "mid", val


def low_edge(val):
    """The edge (0..3) of a mid element whose two vertices are low, or None."""
    for k in range(4):
        (a, b) = EDGES[k]
        if val[a[1:]] <= 0 and val[b[1:]] <= 0:
            (c, d) = EDGES[(k + 2) % 4]
            if val[c[1:]] > 0 and val[d[1:]] > 0:
                return k
    return None


def piece_midpoints(m, i, lo, lat, at_low, at_high, val, pos):
    """The midpoints (and tolerances) of the twelve edges of a piece of the curved element i that an
    intermediate layer divides.  lo: its edge on the low side; lat: the divided edges; at_low, at_high: where the
    low and the high vertices of the piece are (bottom, top); pos: its coordinates."""
    hi = (lo + 2) % 4
    size = max(1.0, float(np.abs(m.pos[i]).max()), float(np.abs(m.curv[i, :4, :3]).max()))
    tol = 1e-6 * size

    def xy(v):
        return m.pos[i, :2, 0, v[1], v[2]]

    # along the divided edges: the middle, and the quarter points
    half = {}
    for e in lat:
        ends = EDGES[e]
        mid = midpoint(m, i, e)[:2]
        a, b = xy(ends[0]), xy(ends[1])
        low_first = val[ends[0][1:]] <= 0
        quarter = {}
        for name, first in (("low", low_first), ("high", not low_first)):
            p, q = (a, mid) if first else (mid, b)
            t = m.ccurv[i][e]
            x = 0.5 * (p + q)
            if t == "C":
                x = arc_midpoint(np.append(p, 0.0), np.append(q, 0.0), m.curv[i, e, 0])[:2]
            elif t == "m":
                # a quarter of the distance of the midpoint from the straight line, at right angles to it
                d = b - a
                n = np.array([d[1], -d[0]]) / np.dot(d, d)
                x = x + 0.25 * np.dot(mid - a, n) * np.array([d[1], -d[0]])
            quarter[name] = x
        half[e] = mid, quarter
    # across: the low side, the middle and the high side
    across = {}
    mlo, mhi = midpoint(m, i, lo)[:2], midpoint(m, i, hi)[:2]
    clo = 0.5 * (xy(EDGES[lo][0]) + xy(EDGES[lo][1]))
    chi = 0.5 * (xy(EDGES[hi][0]) + xy(EDGES[hi][1]))
    p, q = half[lat[0]][0], half[lat[1]][0]
    c = 0.5 * (p + q)
    across[0], across[2] = (mlo, tol), (mhi, tol)
    x = c + 0.5 * (mlo - clo + mhi - chi)
    t = (m.ccurv[i][lo], m.ccurv[i][hi])
    slack = tol
    if "m" not in t and "C" in t:
        # the arc through the three points
        chord = q - p
        h = 0.5 * math.hypot(*chord)
        n = np.array([chord[1], -chord[0]]) / (2 * h)
        u, w = float(np.dot(x - c, chord / (2 * h))), float(np.dot(x - c, n))
        if abs(w) < 1e-3 * h:
            slack = 2e-3 * h  # all but straight
        else:
            k = (u * u + w * w - h * h) / (2 * w)  # the centre is c + k n
            r = math.hypot(h, k)
            if (w > 0 and k > 0) or (w < 0 and k < 0):
                slack = math.inf  # more than half a circle
            x = c + (k + math.copysign(r, w)) * n
    across[1] = (x, slack)
    where = {}
    for iy in range(2):
        for ix in range(2):
            for s in range(2):
                where[(s, iy, ix)] = (at_low if val[iy, ix] <= 0 else at_high)[s]
    line = {}
    for e in lat:
        for v in EDGES[e]:
            line[v[1:]] = e
    out = np.zeros((12, 4))
    for k, (a, b) in enumerate(EDGES):
        pa, pb = (pos[:, v[0], v[1], v[2]] for v in (a, b))
        out[k, 2] = 0.5 * (pa[2] + pb[2])
        u, w = sorted((where[a], where[b]))
        if line[a[1:]] != line[b[1:]]:
            out[k, :2], out[k, 3] = across[u]
        elif u == w:
            out[k, :2], out[k, 3] = 0.5 * (pa[:2] + pb[:2]), tol
        else:
            mid, quarter = half[line[a[1:]]]
            out[k, :2] = mid if (u, w) == (0, 2) else quarter["low" if u == 0 else "high"]
            out[k, 3] = tol
    return out


def extrude_mid(m, z, bc1, bc2, fun, par, internal):
    """Six pieces per element and four layers.  The connectivity inside the result is that of its
    coinciding faces."""
    z = [float(v) for v in z]
    nz, n2, nbc = len(z) - 1, m.nel, m.nbc
    base = m if internal else delete_internal(m)[0]
    out = Mesh(3, 6 * n2 * (nz // 4), nbc, [3, 0, 0, 0, 0])
    out.full = m.full and internal
    # like that of as many copies of the mesh
    out.elmap = np.concatenate([m.elmap + n2 * k for k in range(6 * (nz // 4))]).astype(int)
    # the four levels of z at which each piece has its (bottom, top), at its low and its high points
    low_z = [(0, 1), (0, 1), (1, 2), (2, 3), (3, 4), (3, 4)]
    high_z = [(0, 1), (0, 2), (1, 2), (2, 3), (2, 4), (3, 4)]
    # where the low and high points of each piece lie: 0 low side, 1 middle, 2 high side (bottom, top)
    low_at = [(0, 0), (1, 1), (0, 0), (0, 0), (1, 1), (0, 0)]
    high_at = [(1, 1), (2, 2), (1, 2), (2, 1), (2, 2), (1, 1)]
    nel = 0
    for k in range(0, nz, 4):
        for i in range(n2):
            _, val = zone(m, i, fun, par)
            lo = low_edge(val)
            if lo is None:
                raise Undefined("not two points on each side")
            hi = (lo + 2) % 4
            lat = [(lo + 1) % 4, (lo + 3) % 4]
            mids = {}
            for e in lat:
                (a, b) = EDGES[e]
                x = midpoint(m, i, e)
                mids[a[1:]] = x
                mids[b[1:]] = x
            curved = any(t != "" for t in m.ccurv[i])
            for p in range(6):
                e = nel + p
                for iy in range(2):
                    for ix in range(2):
                        low = val[iy, ix] <= 0
                        at = (low_at if low else high_at)[p]
                        zz = (low_z if low else high_z)[p]
                        # the vertex on the other end of the lateral edge
                        other = None
                        for l in lat:
                            ends = [v[1:] for v in EDGES[l]]
                            if (iy, ix) in ends:
                                other = ends[1 - ends.index((iy, ix))]
                        here, there = m.pos[i, :, 0, iy, ix], m.pos[i, :, 0, other[0], other[1]]
                        where = {1: mids[(iy, ix)], 0: here if low else there, 2: there if low else here}
                        for s in range(2):
                            out.pos[e, :2, s, iy, ix] = where[at[s]][:2]
                            out.pos[e, 2, s, iy, ix] = z[k + zz[s]]
                if curved:
                    out.loose_curv[e] = piece_midpoints(m, i, lo, lat, low_at[p], high_at[p], val, out.pos[e])
                for b in range(nbc):
                    for f in lat:
                        out.lab[e][b][f] = base.lab[i][b][f]
                        out.par[e, b, f] = base.par[i, b, f]
                        if base.lab[i][b][f] in ("E", "P"):
                            j = int(base.par[i, b, f, 0]) - 1
                            out.par[e, b, f, 0] = 6 * (j + n2 * (k // 4)) + p + 1
                    # the outer sides
                    if p in (1, 4):
                        if base.lab[i][b][hi] in ("E", "P"):
                            raise Undefined("mid elements adjacent through a high side")
                        out.lab[e][b][hi] = base.lab[i][b][hi]
                        out.par[e, b, hi] = base.par[i, b, hi]
                    else:
                        if base.lab[i][b][lo] in ("E", "P"):
                            raise Undefined("mid elements adjacent through a low side")
                        out.lab[e][b][lo] = base.lab[i][b][lo]
                        out.par[e, b, lo] = base.par[i, b, lo]
                    # the ends
                    for f, at_end, name, other in ((4, k == 0, bc1, nz - 4), (5, k == nz - 4, bc2, 0)):
                        if p in ((0, 1), (5, 4))[f - 4] and at_end:
                            out.lab[e][b][f] = name[b]
                            if name[b] == "P":
                                q = {0: 5, 1: 4, 5: 0, 4: 1}[p]
                                out.set_link(b, e, f, "P", 6 * (i + n2 * (other // 4)) + q, 9 - f)
            nel += 6
    if internal:
        for (i, f), (j, g) in self_pairs(out, 1e-6):
            if (i // 6) % n2 != (j // 6) % n2:
                continue  # sides of different elements are as they were
            for b in range(nbc):
                if out.lab[i][b][f] == "" and out.lab[j][b][g] == "":
                    out.set_link(b, i, f, "E", j, g)
                    out.set_link(b, j, g, "E", i, f)
    return out


def extrude_refine(m, z, bc1, bc2, funs, pars, high, internal):
    nbc = m.nbc
    bc1 = ["P"] * nbc if bc1 is None else bc1
    bc2 = ["P"] * nbc if bc2 is None else bc2
    if not funs:
        return extrude(m, z, bc1, bc2, internal)
    pars = [0.0] * len(funs) if pars is None else pars
    rest = m if internal else delete_internal(m)[0]
    tag = "con" if internal else ""
    parts = []
    for k, fun in enumerate(funs):
        sel = {"int": [], "mid": [], "ext": []}
        for i in range(rest.nel):
            sel[zone(rest, i, fun, pars[k])[0]].append(i)
        inner, mid = keep(rest, sel["int"], tag), keep(rest, sel["mid"], tag)
        for part in (inner, mid):
            parts.append(part)
        rest = keep(rest, sel["ext"], tag)
    done = []
    ns = len(funs)
    for k in range(ns):
        z_int = z[:: 2 ** abs(k - high)]
        done.append(extrude(parts[2 * k], z_int, bc1, bc2, internal))
        if k < high:
            # the finer side is the outer one
            done.append(extrude_mid(parts[2 * k + 1], z[:: 2 ** abs(k - high + 1)], bc1, bc2,
                                    lambda x, y, p, f=funs[k]: -f(x, y, p), pars[k], internal))
        else:
            done.append(extrude_mid(parts[2 * k + 1], z_int, bc1, bc2, funs[k], pars[k], internal))
    out = extrude(rest, z[:: 2 ** abs(ns - high)], bc1, bc2, internal)
    for part in done:
        if not merge_defined(out, part, 1e-2, True):
            raise Undefined("merge of the parts")
        if merge_pairs(out, part, 1e-2, True) != merge_pairs(out, part, 3e-4, True):
            raise Undefined("faces that nearly touch")
        out, _ = merge(out, part, 1e-2, True, not internal)
    out.full = m.full and internal
    if internal and any(lab == "con" for el in out.lab for b in el for lab in b):
        raise Undefined("parts that do not meet (a splitting line between periodic partners)")
    return out


# --------------------------------------------------------------------------- from and to pymech
def diff(d, m, gtol, rtol=0.0, curv_exact=False):
    """None if the mesh object is what the model says, else a description.  gtol: absolute tolerance on
    coordinates and curved-side data; rtol: relative accuracy of condition parameters."""
    for name, want in (("ndim", m.ndim), ("nel", m.nel), ("nbc", m.nbc)):
        if getattr(d, name) != want:
            return "size", f"{name} is {getattr(d, name)}, expected {want}"
    if list(map(int, d.lr1)) != m.lr1:
        return "size", f"lr1 is {d.lr1}, expected {m.lr1}"
    if list(map(int, d.var)) != m.var:
        return "size", f"var is {d.var}, expected {m.var}"
    if len(d.elem) != m.nel:
        return "size", f"there are {len(d.elem)} elements, expected {m.nel}"
    if [int(x) for x in d.elmap] != [int(x) for x in m.elmap]:
        return "elmap", f"the element map is {[int(x) for x in d.elmap][:12]}, expected {list(m.elmap)[:12]}"
    real_ncurv = 0
    for i, el in enumerate(d.elem):
        if el.pos.shape != m.pos[i].shape:
            return "size", f"element {i} has coordinates of shape {el.pos.shape}"
        if not np.all(np.abs(el.pos - m.pos[i]) <= gtol):
            k = np.unravel_index(np.argmax(np.abs(el.pos - m.pos[i])), el.pos.shape)
            return "geometry", (f"element {i}: coordinate {tuple(map(int, k))} is {el.pos[k]!r}, "
                                f"expected {m.pos[i][k]!r}")
        for name, a in (m.data[i] or {}).items():
            got = getattr(el, name)
            if got.shape != a.shape or not np.array_equal(got, a):
                return "data", f"the values of {name} of element {i} have changed"
        real_ncurv += sum(t != "" for t in el.ccurv)
        if i in m.loose_curv:
            bad = diff_midpoints(el, m.loose_curv[i], gtol)
            if bad:
                return "curvature", f"element {i}, a piece of a divided element: {bad}"
            continue
        if list(el.ccurv) != m.ccurv[i]:
            return "curvature", f"element {i} has curve types {el.ccurv}, expected {m.ccurv[i]}"
        for k in range(12):
            if m.ccurv[i][k] != "" and not np.all(np.abs(el.curv[k] - m.curv[i, k]) <= gtol):
                return "curvature", (f"element {i} edge {k} ({m.ccurv[i][k]}): {el.curv[k].tolist()}, expected "
                                     f"{m.curv[i, k].tolist()}")
    if d.ncurv != real_ncurv:
        return "ncurv", f"the mesh records {d.ncurv} curved sides and has {real_ncurv}"
    for i, el in enumerate(d.elem):
        if el.bcs.shape != (m.nbc, 6):
            return "size", f"element {i} has conditions of shape {el.bcs.shape}"
        rows = el.bcs.tolist()
        for b in range(m.nbc):
            for f in range(6):
                got, lab = rows[b][f], (m.lab[i][b][f] if f < m.nface() else "")
                if got[0] != lab:
                    return "label", (f"element {i} face {f} field {b}: condition {got[0]!r}, "
                                     f"expected {lab!r}")
                if lab == "":
                    continue
                if (got[1], got[2]) != (i + 1, f + 1):
                    return "own", f"element {i} face {f} field {b} ({lab}): own numbers {got[1:3]}"
                want = m.par[i, b, f]
                if lab in ("E", "P"):
                    if tuple(got[3:5]) != tuple(want[:2]):
                        return "link", (f"element {i} face {f} field {b} ({lab}): connected to element "
                                        f"{got[3]} face {got[4]}, expected {want[0]} face {want[1]}")
                    continue
                if not np.all(np.abs(np.array(got[3:]) - want) <= rtol * np.abs(want)):
                    return "parameters", (f"element {i} face {f} field {b} ({lab}): parameters {got[3:]}, "
                                          f"expected {want.tolist()}")
    return None


def diff_midpoints(el, want, gtol):
    """Whether the edges of an element, whatever their curve types, have these midpoints."""
    for k in range(12):
        t, row = el.ccurv[k], el.curv[k]
        if t not in ("", "m", "C"):
            return f"edge {k} has curve type {t!r}"
        a, b = (el.pos[:, v[0], v[1], v[2]] for v in EDGES[k])
        tol = want[k, 3] + gtol
        if t == "m":
            got = row[:3]
        elif t == "C":
            if not math.isfinite(row[0]) or abs(row[0]) < 0.5 * math.hypot(*(b - a)[:2]) * (1 - 1e-9):
                if math.isinf(tol):
                    continue
                return f"edge {k} is an arc of radius {row[0]!r}"
            if abs(a[2] - b[2]) > gtol:
                return f"edge {k} is an arc outside the plane"
            got = arc_midpoint(a, b, row[0])
        else:
            got = 0.5 * (a + b)
        if not np.all(np.abs(got - want[k, :3]) <= tol):
            return f"edge {k} ({t!r}) has its midpoint at {got.tolist()}, expected {want[k, :3].tolist()}"
    return None


def adopt_curvature(d, m):
    """Take the curved sides the documentation leaves open from the object."""
    for i in m.loose_curv:
        m.ccurv[i] = list(d.elem[i].ccurv)
        m.curv[i] = d.elem[i].curv
    m.loose_curv = {}


def adopt(d, m):
    """Take coordinates and curved sides from the object (after a comparison that allowed rounding)."""
    for i, el in enumerate(d.elem):
        m.pos[i] = el.pos
        m.curv[i] = el.curv
        m.ccurv[i] = list(el.ccurv)
        for b in range(m.nbc):
            for f in range(6):
                if m.lab[i][b][f] not in ("", "E", "P"):
                    m.par[i, b, f] = [el.bcs[b, f][3 + k] for k in range(5)]
    m.loose_curv = {}


def to_hexa(sut, m):
    """A pymech object of a model mesh (for starting points)."""
    d = sut.core.HexaData(m.ndim, m.nel, m.lr1, list(m.var), m.nbc)
    for i, el in enumerate(d.elem):
        el.pos[...] = m.pos[i]
        for name, a in (m.data[i] or {}).items():
            getattr(el, name)[...] = a
        el.curv[...] = m.curv[i]
        el.ccurv = list(m.ccurv[i])
        for b in range(m.nbc):
            for f in range(m.nface()):
                if m.lab[i][b][f]:
                    el.bcs[b, f] = (m.lab[i][b][f], i + 1, f + 1) + tuple(m.par[i, b, f])
    d.ncurv = m.ncurv
    d.elmap = m.elmap.astype(np.int32)
    return d


# --------------------------------------------------------------------------- closure of the connectivity
def closure(d, pairs_tol=None, full=False, tol=1e-3):
    """Independent judgement of the connectivity of a mesh object: None or (class, text)."""
    dim, nf = d.ndim, 2 * d.ndim
    m = Mesh(dim, 0, d.nbc, [0] * 5, int(d.lr1[0]))
    m.nel = len(d.elem)
    if d.nel != m.nel:
        return "size", f"nel is {d.nel} but there are {m.nel} elements"
    if m.nel == 0:
        return None
    m.pos = np.array([el.pos for el in d.elem])
    pts, sc = m.face_points(), m.scales()
    cen = pts.mean(axis=2)
    rows = [el.bcs.tolist() for el in d.elem]
    for i in range(m.nel):
        for b in range(d.nbc):
            for f in range(nf):
                r = rows[i][b][f]
                if r[0] == "":
                    continue
                if (r[1], r[2]) != (i + 1, f + 1):
                    return "own", f"face {f} of element {i} field {b} ({r[0]}) carries own numbers {r[1:3]}"
                if r[0] not in ("E", "P"):
                    continue
                if r[3] != int(r[3]) or r[4] != int(r[4]):
                    return "link", f"face {f} of element {i} field {b} ({r[0]}) points at {r[3:5]}"
                j, g = int(r[3]) - 1, int(r[4]) - 1
                if not (0 <= j < m.nel and 0 <= g < nf):
                    return "link", (f"face {f} of element {i} field {b} ({r[0]}) points at face {g} of element "
                                    f"{j}, which does not exist")
                back = rows[j][b][g]
                if back[0] != r[0] or back[3] != i + 1 or back[4] != f + 1:
                    return "link", (f"face {f} of element {i} field {b} ({r[0]}) points at face {g} of element {j}, "
                                    f"which is {back[0]!r} and points at face {back[4] - 1} of element "
                                    f"{back[3] - 1}")
                if r[0] == "E":
                    dist = float(np.sqrt(((cen[i, f] - cen[j, g]) ** 2).sum()))
                    if dist > tol * min(sc[i], sc[j]):
                        return "apart", (f"face {f} of element {i} and face {g} of element {j} are connected "
                                         f"but {dist:.3e} apart")
                    # the vertices must coincide too
                    dd = np.sqrt(((pts[i, f][:, None] - pts[j, g][None]) ** 2).sum(axis=2))
                    if max(dd.min(axis=0).max(), dd.min(axis=1).max()) > tol * min(sc[i], sc[j]):
                        return "apart", (f"face {f} of element {i} and face {g} of element {j} are connected "
                                         "but their vertices differ")
    if full and d.nbc:
        for (x, y) in self_pairs(m, tol):
            dd = np.sqrt(((pts[x][:, None] - pts[y][None]) ** 2).sum(axis=2))
            if max(dd.min(axis=0).max(), dd.min(axis=1).max()) > tol * min(sc[x[0]], sc[y[0]]):
                continue  # only the centres coincide
            for b in range(d.nbc):
                r = rows[x[0]][b][x[1]]
                if r[0] != "E" or (r[3], r[4]) != (y[0] + 1, y[1] + 1):
                    return "unconnected", (f"face {x[1]} of element {x[0]} and face {y[1]} of element {y[0]} coincide "
                                           f"but field {b} has condition {r[0]!r}, connected to {r[3:5]}")
    return None
