"""Independent reference codecs for the file formats, written from the Nek5000 and SIMSON sources'
conventions and sharing no code with pymech.

The models are plain numpy containers (see gens.py).  Encoders also return the layout of the file
(section name, start, end) so that faults can be placed in every part of it.  Decoders are strict:
anything but a complete, exactly sized file is a FormatError.
"""

import struct

import numpy as np


class FormatError(Exception):
    pass


def _need(cond, what):
    if not cond:
        raise FormatError(what)


TAG = np.float32(6.54321)


def _tag(endian):
    return struct.pack("<f" if endian == "little" else ">f", 6.54321)


def _tag_endian(b):
    if b == _tag("little"):
        return "little"
    if b == _tag("big"):
        return "big"
    raise FormatError(f"bad byte-order tag {b!r}")


class Layout:
    def __init__(self):
        self.parts = []
        self.sections = []
        self.pos = 0

    def add(self, name, data):
        if len(data):
            self.sections.append((name, self.pos, self.pos + len(data)))
            self.parts.append(bytes(data))
            self.pos += len(data)

    def bytes(self):
        return b"".join(self.parts)


# --------------------------------------------------------------------------- field files
def fld_variables(var):
    s = ""
    if var[0]:
        s += "X"
    if var[1]:
        s += "U"
    if var[2]:
        s += "P"
    if var[3]:
        s += "T"
    if var[4]:
        s += "S%02d" % var[4]
    return s


def fld_header(m, trailer=""):
    text = "#std %1d %2d %2d %2d %10d %10d %20s %9d %6d %6d %s%s" % (
        m.wdsz, m.lr1[0], m.lr1[1], m.lr1[2], m.nel, len(m.elmap), "%.13E" % m.time, m.istep,
        getattr(m, "fid", 0), getattr(m, "nfiles", 1),
        fld_variables(m.var), trailer,
    )
    _need(len(text) <= 132, "header too long")
    return text.ljust(132).encode("ascii")


def field_blocks(m):
    """Section name and array (elements first) of every quantity, in file order; the scalars are
    separate sections, one after the other."""
    out = []
    for name, key, n in (("pos", "X", m.var[0]), ("vel", "U", m.var[1]),
                         ("pres", "P", m.var[2]), ("temp", "T", m.var[3])):
        if n:
            out.append((key, getattr(m, name)[:, :n]))
    for i in range(m.var[4]):
        out.append(("S%02d" % (i + 1), m.scal[:, i:i + 1]))
    return out


def encode_fld(m, trailer="", extrema=True, storage_map=None):
    """`storage_map` is the element map as stored; by default the model's."""
    e = "<" if m.endian == "little" else ">"
    lay = Layout()
    lay.add("header", fld_header(m, trailer))
    lay.add("tag", _tag(m.endian))
    elmap = np.asarray(m.elmap if storage_map is None else storage_map)
    lay.add("elmap", elmap.astype(e + "i4").tobytes())
    order = np.asarray(m.elmap, dtype=np.int64) - 1
    if (elmap == 0).any():
        order = np.arange(len(elmap))
    ft = e + ("f4" if m.wdsz == 4 else "f8")
    blocks = field_blocks(m)
    with np.errstate(all="ignore"):
        for key, a in blocks:
            lay.add(key, np.ascontiguousarray(a[order]).astype(ft).tobytes())
        if m.ndim == 3 and extrema:
            for key, a in blocks:
                lay.add("ext" + key, _extrema(a[order]).astype(e + "f4").tobytes())
    return lay.bytes(), lay.sections


def _extrema(a):
    n, k = a.shape[:2]
    flat = a.reshape(n, k, -1)
    out = np.empty((n, k, 2), dtype=a.dtype)
    out[:, :, 0] = np.min(flat, axis=2)
    out[:, :, 1] = np.max(flat, axis=2)
    return out


def fld_size(m, extrema=True):
    npts = m.lr1[0] * m.lr1[1] * m.lr1[2]
    ncomp = sum(m.var)
    nelf = len(m.elmap)
    size = 136 + 4 * nelf + m.wdsz * npts * ncomp * nelf
    if m.ndim == 3 and extrema:
        size += 8 * ncomp * nelf
    return size


class Decoded:
    pass


def decode_fld(data):
    """Strict decoder of a single-file field; returns metadata and per-block arrays by element."""
    _need(len(data) >= 136, f"only {len(data)} bytes")
    h = data[:132].decode("ascii")
    _need(h.startswith("#std "), "no #std")
    w = h.split()
    _need(len(w) >= 12, "short header")
    d = Decoded()
    d.wdsz = int(w[1])
    _need(d.wdsz in (4, 8), "word size")
    d.lr1 = (int(w[2]), int(w[3]), int(w[4]))
    d.nel, nelf = int(w[5]), int(w[6])
    _need(0 <= nelf <= d.nel, "more elements in the file than in the field")
    d.time, d.istep = float(w[7]), int(w[8])
    _need((int(w[9]), int(w[10])) == (0, 1), "file numbers")
    d.variables = w[11]
    v = d.variables
    d.ndim = 3 if d.lr1[2] > 1 else 2
    var = [0] * 5
    for i, c in enumerate("XUPT"):
        if v.startswith(c):
            var[i] = d.ndim if i < 2 else 1
            v = v[1:]
    if v.startswith("S"):
        _need(len(v) == 3 and v[1:].isdigit(), "scalar count " + v)
        var[4] = int(v[1:])
        v = ""
    _need(v == "", "variables " + d.variables)
    d.var = tuple(var)
    d.endian = _tag_endian(data[132:136])
    e = "<" if d.endian == "little" else ">"
    p = 136
    _need(len(data) >= p + 4 * nelf, "torn element map")
    d.elmap = np.frombuffer(data, e + "i4", nelf, p).astype(np.int64)
    p += 4 * nelf
    if (d.elmap == 0).any():  # not filled in: the elements are in the order of their numbers
        order = np.arange(nelf)
    else:
        _need(len(np.unique(d.elmap)) == nelf and np.isin(d.elmap, np.arange(1, d.nel + 1)).all(),
              "element map is not a permutation")
        order = d.elmap - 1
    npts = d.lr1[0] * d.lr1[1] * d.lr1[2]
    ft = e + ("f4" if d.wdsz == 4 else "f8")
    keys = [("X", var[0]), ("U", var[1]), ("P", var[2]), ("T", var[3])]
    keys += [("S%02d" % (i + 1), 1) for i in range(var[4])]
    d.blocks, d.ext = {}, {}
    for key, n in keys:
        if not n:
            continue
        cnt = nelf * n * npts
        _need(len(data) >= p + cnt * d.wdsz, "torn data of " + key)
        a = np.frombuffer(data, ft, cnt, p).reshape((nelf, n) + d.lr1[::-1])
        b = np.zeros((d.nel,) + a.shape[1:], a.dtype.newbyteorder("="))
        b[order] = a
        d.blocks[key] = b
        p += cnt * d.wdsz
    if d.ndim == 3:
        for key, n in keys:
            if not n:
                continue
            cnt = nelf * n * 2
            _need(len(data) >= p + cnt * 4, "torn extrema of " + key)
            a = np.frombuffer(data, e + "f4", cnt, p).reshape((nelf, n, 2))
            b = np.zeros((d.nel, n, 2), np.float32)
            b[order] = a
            d.ext[key] = b
            p += cnt * 4
    _need(len(data) == p, f"{len(data) - p} extra bytes")
    return d


# --------------------------------------------------------------------------- binary meshes
# the corners in file order: (iz, iy, ix)
CORNERS2 = [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)]
CORNERS3 = CORNERS2 + [(1, 0, 0), (1, 0, 1), (1, 1, 1), (1, 1, 0)]


def corners(ndim):
    return CORNERS2 if ndim == 2 else CORNERS3


def curves_of(m):
    """(element, edge, type, five parameters) of every curved side, zero indexed, in file order."""
    return [(i, k, m.ccurv[i][k], m.curv[i, k])
            for i in range(m.nel) for k in range(12) if m.ccurv[i][k] != ""]


def conditions_of(m, ibc, internal=False):
    return [(i, f, m.label[i][ibc][f], m.bcpar[i, ibc, f])
            for i in range(m.nel) for f in range(2 * m.ndim)
            if m.label[i][ibc][f] != "" and (internal or m.label[i][ibc][f] != "E")]


def encode_re2(m):
    e = "<" if m.endian == "little" else ">"
    lay = Layout()
    lay.add("header", ("#v002%9d%3d%9d this is the hdr" % (m.nel, m.ndim, m.nel)).ljust(80).encode())
    lay.add("tag", _tag(m.endian))
    cs = corners(m.ndim)
    geo = np.zeros((m.nel, 1 + m.ndim * len(cs)))
    for d in range(m.ndim):
        for k, (z, y, x) in enumerate(cs):
            geo[:, 1 + d * len(cs) + k] = m.pos[:, d, z, y, x]
    lay.add("geom", geo.astype(e + "f8").tobytes())
    cv = curves_of(m)
    lay.add("ncurv", struct.pack(e + "d", len(cv)))
    lay.add("curv", b"".join(
        struct.pack(e + "7d", i + 1, k + 1, *[float(x) for x in p]) + t.encode().ljust(8, b"\0")
        for i, k, t, p in cv))
    for ibc in range(m.nbc):
        bc = conditions_of(m, ibc)
        lay.add(f"nbc{ibc}", struct.pack(e + "d", len(bc)))
        lay.add(f"bc{ibc}", b"".join(
            struct.pack(e + "7d", i + 1, f + 1, *[float(x) for x in p]) + t.encode().ljust(8)
            for i, f, t, p in bc))
    return lay.bytes(), lay.sections


def decode_re2(data, nbc):
    """Strict: the file must hold exactly `nbc` fields of boundary conditions."""
    _need(len(data) >= 92, "too short")
    h = data[:80].decode("ascii")
    _need(h[:5] == "#v002", "version " + h[:5])
    d = Decoded()
    d.nel, d.ndim, nelv = int(h[5:14]), int(h[14:17]), int(h[17:26])
    _need(d.ndim in (2, 3) and nelv == d.nel, "header numbers")
    d.endian = _tag_endian(data[80:84])
    e = "<" if d.endian == "little" else ">"
    p = 84
    cs = corners(d.ndim)
    n = 1 + d.ndim * len(cs)
    _need(len(data) >= p + 8 * n * d.nel, "torn geometry")
    geo = np.frombuffer(data, e + "f8", n * d.nel, p).reshape(d.nel, n)
    p += 8 * n * d.nel
    d.pos = np.zeros((d.nel, 3, d.ndim - 1, 2, 2))
    for dim in range(d.ndim):
        for k, (z, y, x) in enumerate(cs):
            d.pos[:, dim, z, y, x] = geo[:, 1 + dim * len(cs) + k]

    def count(what):
        nonlocal p
        _need(len(data) >= p + 8, "torn count of " + what)
        x = struct.unpack_from(e + "d", data, p)[0]
        p += 8
        _need(x == int(x) and x >= 0, f"count of {what}: {x}")
        return int(x)

    def records(k, what):
        nonlocal p
        _need(len(data) >= p + 64 * k, "torn " + what)
        out = []
        for j in range(k):
            v = struct.unpack_from(e + "7d", data, p)
            out.append((v[0], v[1], v[2:7], data[p + 56:p + 64]))
            p += 64
        return out

    d.curves = []
    for a, b, par, t in records(count("curves"), "curves"):
        _need(a == int(a) and 1 <= a <= d.nel and b == int(b) and 1 <= b <= 12, f"curve of {a} {b}")
        d.curves.append((int(a) - 1, int(b) - 1, t[:1].decode("ascii"), par))
    d.fields = []
    for ibc in range(nbc):
        f = []
        for a, b, par, t in records(count(f"conditions {ibc}"), f"conditions {ibc}"):
            _need(a == int(a) and 1 <= a <= d.nel and b == int(b) and 1 <= b <= 2 * d.ndim,
                  f"condition of {a} {b}")
            # Nek5000 keeps the first three characters
            f.append((int(a) - 1, int(b) - 1, t[:3].decode("ascii").rstrip(" \0"), par))
        d.fields.append(f)
    _need(len(data) == p, f"{len(data) - p} extra bytes")
    return d


# --------------------------------------------------------------------------- text meshes
def _g(x):
    return "%14.6e" % x


def rea_conditions_line(m, i, f, lab, par, iel_f):
    if m.nel < 1000:
        return " %-3s%3d%3d" % (lab, iel_f[0], iel_f[1]) + "".join(_g(x) for x in par)
    if m.nel < 1000000:
        return " %-3s%6d" % (lab, iel_f[0]) + "".join(_g(x) for x in par)
    return " %-3s%11d%1d" % (lab, iel_f[0], iel_f[1]) + "".join("%18.11e" % x for x in par)


def encode_rea(m, style=None):
    """A .rea file as Nek5000's own tools lay it out.  `style` varies what readers must skip."""
    st = {"npar": 103, "nscal": 4, "nlogic": 13, "tail": True}
    st.update(style or {})
    lay = Layout()

    def add(name, lines):
        lay.add(name, "".join(x + "\n" for x in lines).encode("ascii"))

    add("head", ["****** PARAMETERS *****", "   2.610000     NEKTON VERSION",
                 "   %d DIMENSIONAL RUN" % m.ndim, "         %3d PARAMETERS FOLLOW" % st["npar"]])
    add("params", ["  %.6E     p%03d" % (0.25 * i, i + 1) for i in range(st["npar"])])
    add("scalars", ["    %4d  Lines of passive scalar data follows2 CONDUCT; 2RHOCP" % st["nscal"]]
        + ["   1.00000        1.00000        1.00000        1.00000        1.00000"] * st["nscal"])
    add("logic", ["    %4d  LOGICAL SWITCHES FOLLOW" % st["nlogic"]]
        + ["  T     IFFLOW"] * st["nlogic"])
    add("fac", ["   5.00000       5.00000      -2.50000      -2.50000     XFAC,YFAC,XZERO,YZERO"])
    add("meshhead", [" **MESH DATA** 6 lines are X,Y,Z;X,Y,Z. Columns corners 1-4;5-8",
                     "  %10d  %1d  %10d           NEL,NDIM,NELV" % (m.nel, m.ndim, m.nel)])
    g = []
    for i in range(m.nel):
        g.append("            ELEMENT %11d [    1a]    GROUP     0" % (i + 1))
        for z in range(m.ndim - 1):
            for d in range(m.ndim):
                g.append("".join(" " + _g(m.pos[i, d, z, y, x]) for y, x in ((0, 0), (0, 1), (1, 1), (1, 0))))
    add("geom", g)
    cv = curves_of(m)
    add("ncurv", ["  ***** CURVED SIDE DATA *****",
                  "  %10d Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE" % len(cv)])
    fmt = "%3d%3d" if m.nel < 1000 else ("%2d%6d" if m.nel < 1000000 else "%2d%10d")
    add("curv", [fmt % (k + 1, i + 1) + "".join(_g(x) for x in p) + " " + t for i, k, t, p in cv])
    add("bchead", ["  ***** BOUNDARY CONDITIONS *****"]
        + (["  ***** NO FLUID   BOUNDARY CONDITIONS *****"] if m.nbc == 0 or st.get("solid") else []))
    for ibc in range(m.nbc):
        if ibc == 0 and not st.get("solid"):
            h = "  ***** FLUID   BOUNDARY CONDITIONS *****"
        elif ibc + bool(st.get("solid")) == 1:
            h = "  ***** THERMAL BOUNDARY CONDITIONS *****"
        else:
            h = "  ***** PASSIVE SCALAR %4d  BOUNDARY CONDITIONS *****" % (ibc - 1 + bool(st.get("solid")))
        add(f"bch{ibc}", [h])
        lines = []
        for i in range(m.nel):
            for f in range(2 * m.ndim):
                lab = m.label[i][ibc][f]
                par = m.bcpar[i, ibc, f]
                if lab == "":
                    lab, par = "E", np.zeros(5)
                lines.append(rea_conditions_line(m, i, f, lab, par, (i + 1, f + 1)))
        add(f"bc{ibc}", lines)
    tail = []
    if m.nbc < 2 and not (m.nbc and st.get("solid")):
        tail.append("  ***** NO THERMAL BOUNDARY CONDITIONS *****")
    if st["tail"]:
        tail += ["    0 PRESOLVE/RESTART OPTIONS  *****", "    7         INITIAL CONDITIONS *****"]
        tail += [" C Default"] * 7
        tail += ["  ***** DRIVE FORCE DATA ***** BODY FORCE, FLOW, Q",
                 "    4                 Lines of Drive force data follow"] + [" C"] * 4
    add("tail", tail)
    return lay.bytes(), lay.sections


def _fix(line, a, b, what):
    s = line[a:b]
    _need(len(s) == b - a, f"{what}: line too short: {line!r}")
    try:
        return float(s)
    except ValueError:
        raise FormatError(f"{what}: {s!r} in {line!r}")


def _int(line, a, b, what):
    x = _fix(line, a, b, what)
    _need(x == int(x), what)
    return int(x)


def decode_rea(data, sample=None):
    """Fixed-column decoder in the style of Nek5000's rdmesh, rdcurve and rdbdry.  With `sample`
    (a predicate on element numbers) only those elements are kept; the rest is still scanned."""
    text = data.decode("ascii")
    _need(text.endswith("\n"), "last line not terminated")
    lines = text.split("\n")
    lines.pop()
    pos = 0

    def nxt(what):
        nonlocal pos
        _need(pos < len(lines), "file ends before " + what)
        pos += 1
        return lines[pos - 1]

    def first(what):
        w = nxt(what).split()
        _need(w and w[0].lstrip("-").isdigit(), what)
        return int(w[0])

    d = Decoded()
    nxt("title")
    nxt("version")
    d.ndim = first("dimension")
    for what in ("parameters", "passive scalar data", "logical switches"):
        for _ in range(first(what)):
            nxt(what)
    nxt("factors")
    nxt("mesh data")
    w = nxt("element count").split()
    d.nel = int(w[0])
    _need(int(w[1]) == d.ndim and int(w[2]) == d.nel, "element count line")
    d.pos = np.zeros((d.nel, 3, d.ndim - 1, 2, 2))
    for i in range(d.nel):
        nxt("element header")
        for z in range(d.ndim - 1):
            for dim in range(d.ndim):
                ln = nxt("vertices")
                w = ln.split()
                _need(len(w) == 4, f"vertices of element {i + 1}: {ln!r}")
                v = [float(x) for x in w]
                for x, (iy, ix) in zip(v, ((0, 0), (0, 1), (1, 1), (1, 0))):
                    d.pos[i, dim, z, iy, ix] = x
    _need("CURVED" in nxt("curve header"), "curve header")
    ncurv = first("curve count")
    c0, c1 = (3, 6) if d.nel < 1000 else ((2, 8) if d.nel < 1000000 else (2, 12))
    d.curves = []
    for _ in range(ncurv):
        ln = nxt("curves")
        k, i = _int(ln, 0, c0, "edge"), _int(ln, c0, c1, "element")
        par = [_fix(ln, c1 + 14 * j, c1 + 14 * (j + 1), "curve parameter") for j in range(5)]
        # format (...,5g14.6,1x,a1)
        t = ln[c1 + 71:c1 + 72]
        _need(t.strip() != "" and ln[c1 + 70:c1 + 71] == " ", f"curve type in {ln!r}")
        d.curves.append((i - 1, k - 1, t, tuple(par)))
    _need("BOUNDARY" in nxt("conditions header"), "conditions header")
    d.fields = []
    while pos < len(lines):
        ln = lines[pos]
        if "BOUNDARY" not in ln:
            break
        pos += 1
        if "NO" in ln.split():
            continue
        f = []
        for i in range(d.nel):
            for k in range(2 * d.ndim):
                ln = nxt("conditions")
                _need(ln[:1] == " ", f"condition line {ln!r}")
                lab = ln[1:4].strip()
                if d.nel < 1000:
                    own = (_int(ln, 4, 7, "own element"), _int(ln, 7, 10, "own face"))
                    a, wd = 10, 14
                elif d.nel < 1000000:
                    own = (_int(ln, 4, 10, "own element"), None)
                    a, wd = 10, 14
                else:
                    own = (_int(ln, 4, 15, "own element"), _int(ln, 15, 16, "own face"))
                    a, wd = 16, 18
                par = tuple(_fix(ln, a + wd * j, a + wd * (j + 1), "parameter") for j in range(5))
                f.append((i, k, lab, own, par))
        d.fields.append(f)
    rest = lines[pos:]
    _need(len(rest) > 0, "nothing after the boundary conditions")
    d.complete = _rea_tail_complete(rest)
    return d


def _rea_tail_complete(rest):
    """The sections after the boundary conditions are all there, with as many lines as they say."""
    k = 0

    def find(word):
        nonlocal k
        while k < len(rest) and word not in rest[k].upper():
            k += 1
        k += 1
        return k - 1 if k <= len(rest) else None

    for word in ("PRESOLVE", "INITIAL COND"):
        i = find(word)
        if i is None or not rest[i].split()[0].isdigit():
            return False
    k += int(rest[k - 1].split()[0])
    for word in ("DRIVE FORCE", "VARIABLE PROPERTY", "HISTORY", "OUTPUT FIELD"):
        i = find(word)
        if i is None or k >= len(rest) or not rest[k].split()[0].isdigit():
            return False
        k += 1 + int(rest[k].split()[0])
    i = find("OBJECT SPEC")
    return i is not None and len(rest) >= k + 4 and all(
        ln.split()[:1] and ln.split()[0].isdigit() for ln in rest[k:k + 4])


# --------------------------------------------------------------------------- map files
def encode_ma2(m):
    """m: nel, nvert, endian, procmap (nel,), cell (nel, nvert)."""
    e = "<" if m.endian == "little" else ">"
    lay = Layout()
    npts = m.nel * m.nvert
    depth = max(0, int(np.ceil(np.log2(m.nel)))) if m.nel > 1 else 0
    head = "#v001%12d%12d%12d%12d%12d%12d%12d" % (m.nel, m.nel, depth, 2**depth, npts,
                                                  int(m.cell.max()), 0)
    lay.add("header", head.ljust(132).encode())
    lay.add("tag", _tag(m.endian))
    rec = np.concatenate((m.procmap[:, None], m.cell), axis=1)
    lay.add("data", rec.astype(e + "i4").tobytes())
    return lay.bytes(), lay.sections


# --------------------------------------------------------------------------- SIMSON files
def encode_dns(m):
    """m: endian, nscal, re, box (x, z), time, pr, mm, lr1, fltype, dstar, extra, prof
    (3+nscal, ny) mean profiles, coef (3+nscal, nz, ny, nx) raw records (x interleaved re, im)."""
    e = "<" if m.endian == "little" else ">"
    lay = Layout()

    def rec(name, payload):
        lay.add(name, struct.pack(e + "i", len(payload)) + payload + struct.pack(e + "i", len(payload)))

    d = lambda *x: struct.pack(e + "%dd" % len(x), *x)  # noqa: E731
    i4 = lambda *x: struct.pack(e + "%di" % len(x), *x)  # noqa: E731
    sc = b"".join(d(a, b) for a, b in zip(m.pr, m.mm))
    rec("head", d(m.re) + i4(0) + d(m.box[0], m.box[1]) + d(m.time) + d(0.0) + sc)
    rec("size", i4(*m.lr1) + i4(0))
    rec("flow", i4(m.fltype) + d(m.dstar))
    if m.extra:
        rec("extra", d(*m.extra))
    elif abs(m.fltype) == 20:
        rec("extra", d(*([0.5] * m.nscal)))
    for c in range(3 + m.nscal):
        for z in range(m.lr1[2]):
            for y in range(m.lr1[1]):
                rec(f"c{c}", np.asarray(m.coef[c, z, y]).astype(e + "f8").tobytes())
    return lay.bytes(), lay.sections


def encode_plane(m):
    """m: endian, nn, coords list of arrays (one per dimension, or for 1D a single one), data."""
    e = "<" if m.endian == "little" else ">"
    lay = Layout()

    def rec(name, payload):
        lay.add(name, struct.pack(e + "i", len(payload)) + payload + struct.pack(e + "i", len(payload)))

    rec("size", struct.pack(e + "%di" % len(m.nn), *m.nn))
    for i, x in enumerate(m.coords):
        rec(f"x{i}", np.asfortranarray(x).ravel(order="F").astype(e + "f8").tobytes())
    rec("data", np.asarray(m.data).ravel(order="F").astype(e + "f8").tobytes())
    return lay.bytes(), lay.sections
