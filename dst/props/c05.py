"""C05: a text mesh write that reports success has stored the mesh."""


import numpy as np

from .. import gens, iosim, plans, refnek
from .c01 import judge_write, shrink_attempts
from .c04 import shrink_mesh

RUNS = {"quick": 2000, "thorough": 50000}
RULE = ("A scenario is a mesh (dimensions, below and above the element counts at which the columns change, "
        "curved sides, fields of conditions), what is at the path beforehand, and one to four successive "
        ".rea writes each with its buffer size, fragmentation and fault (full disk, write error, failing "
        "close or open, kill, interrupt).  It is non-trivial if a write was fragmented or a fault fired.")
REAL = ["pymech.neksuite.mesh.writerea, readrea; pymech.core.HexaData (code under test)",
        "CPython's TextIOWrapper/BufferedWriter/BufferedReader, numpy",
        "a real file in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO): partial transfers, injected errors, death", "builtins.open / io.open"]
ASSUMPTIONS = ["writes go through Python file objects obtained from open(), or are caught by the file "
               "size limit of the operating system", "the reference decoder (refnek.py) states the format",
               "numbers have exponents of at most two digits where Nek5000's columns leave no room for three"]

RTOL = 1e-6


def gen(rng, tier, i):
    if i == 0:
        return {"huge": HUGE, "seed": rng.seed32(), "wall": 840, "mem_gb": 14}
    if i == 1 or i % 5000 == 1:
        # six digits in the columns of the element numbers
        return {"huge": rng.randint(100_003, 125_000), "seed": rng.seed32(), "wall": 300, "mem_gb": 8}
    mesh = gens.gen_mesh(rng, big=rng.chance(0.03), fmt="rea")
    mesh["order"] = rng.weighted((4, None), (1, [rng.randint(2, 4) for _ in range(3)]))
    return {"mesh": mesh,
            "prior": rng.weighted((2, "none"), (1, "empty"), (1, "short"), (3, "long"), (1, "valid"),
                                  (1, "torn")),
            "path": rng.pick("str", "str", "path", "relative"),
            "attempts": [plans.gen_write_plan(rng)
                         for _ in range(rng.weighted((3, 1), (2, 2), (1, 3), (0.5, 4)))]}


def shrink(scn):
    if scn.get("huge"):
        return
    yield from shrink_attempts(scn)
    for f in shrink_mesh(scn["mesh"]):
        yield dict(scn, mesh=f)
    if scn.get("prior", "none") != "none":
        yield dict(scn, prior="none")
    if scn.get("path") != "str":
        yield dict(scn, path="str")


def hexa(sut, spec, m):
    d = gens.hexa_mesh(sut, spec, m)
    if spec.get("order"):
        # a spectral element mesh: its corners are what a .rea file holds
        lr1 = list(spec["order"])
        if m.ndim == 2:
            lr1[2] = 1
        e = sut.core.HexaData(m.ndim, m.nel, lr1, [m.ndim, 0, 0, 0, 0], m.nbc, m.dtype)
        e.endian, e.ncurv = d.endian, d.ncurv
        for a, b in zip(e.elem, d.elem):
            a.pos[...] = 777.25
            ends = np.ix_(range(3), [0] if m.ndim == 2 else [0, -1], [0, -1], [0, -1])
            a.pos[ends] = b.pos
            a.curv, a.ccurv, a.bcs = b.curv, b.ccurv, b.bcs
        return e
    return d


def run(sut, scn, ctx):
    if scn.get("huge"):
        return run_huge(sut, scn, ctx)
    spec = scn["mesh"]
    m = gens.build_mesh(spec, "rea")
    d = hexa(sut, spec, m)
    full, _ = refnek.encode_rea(m)
    path = ctx.path("mesh.rea")
    arg = iosim.spelled(path, scn.get("path"))
    # the parts that carry no mesh data are up to the writer, so the layout is taken from a dry run
    out = iosim.call(sut.neksuite.writerea, arg, d)
    ctx.check(out.ok, "spurious-failure", lambda: f"writerea {out!r} without any fault")
    data = iosim.get(path)
    sections = [("whole", 0, len(data))] + line_sections(data)
    iosim.set_prior(path, scn["prior"], full)
    ctx.log("mesh", spec["ndim"], spec["nel"], spec["nbc"], len(data))
    for plan in scn["attempts"]:
        att = iosim.attempt(ctx, lambda: sut.neksuite.writerea(arg, d), plan, len(data), sections)
        judge_write(ctx, att, plan, "writerea")
        kinds = sorted(set(att.fired) | ({"line"} if att.line_fired else set()))
        ctx.state("write", kinds, att.out.brief(), spec["ndim"], spec["nbc"], spec["nel"] >= 1000,
                  [plans.section_at(plans.resolve_pos(f["pos"], len(data), sections), sections[1:])
                   for f in plan.get("faults", ()) if "pos" in f])
        if att.out.ok:
            check_file(ctx, sut, path, m)
        ctx.count("acknowledged" if att.out.ok else "failed_or_killed")


def line_sections(data):
    """Starts of the sections, found by their asterisks."""
    out, pos = [], 0
    for ln in data.split(b"\n"):
        if b"**" in ln:
            if out:
                out[-1] = (out[-1][0], out[-1][1], pos)
            out.append((ln.decode("ascii", "replace").strip(" *")[:18], pos, len(data)))
        pos += len(ln) + 1
    return out


def near(a, b, rtol=RTOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rtol * np.abs(b)))


def check_file(ctx, sut, path, m):
    data = iosim.get(path)
    ctx.check(data is not None, "lost-data", "success reported but there is no file")
    try:
        dec = refnek.decode_rea(data)
    except (refnek.FormatError, ValueError, IndexError) as e:
        ctx.check(False, "lost-data", f"success reported but the file is not a complete .rea file: {e}")
    check_decoded(ctx, dec, m)
    ctx.check(dec.complete, "lost-data", "success reported but the end of the file is missing")
    out = iosim.call(sut.neksuite.readrea, path)
    ctx.check(out.ok, "unreadable", lambda: f"the reader refuses the file just written: {out!r}")
    diff = gens.diff_mesh(out.value, m, rtol=RTOL, endian=False)
    ctx.check(diff is None, "wrong-read-back", lambda: "reading back: " + diff)
    ctx.probe("verified_files")


def check_decoded(ctx, dec, m):
    for k in ("nel", "ndim"):
        ctx.check(getattr(dec, k) == getattr(m, k), "wrong-metadata",
                  lambda: f"{k} in the file is {getattr(dec, k)!r}, expected {getattr(m, k)!r}")
    ctx.check(near(dec.pos, m.pos), "wrong-data", lambda: "vertices in the file differ "
              + gens.first_diff(dec.pos, m.pos))
    want = refnek.curves_of(m)
    ctx.check(len(dec.curves) == len(want), "wrong-data",
              lambda: f"{len(dec.curves)} curved sides in the file, expected {len(want)}")
    for g, w in zip(sorted(dec.curves), sorted(want, key=lambda r: r[:2])):
        ctx.check(g[:3] == w[:3] and near(g[3], w[3]), "wrong-data",
                  lambda: f"curved sides: the file has {g}, expected {w[:3]} {w[3].tolist()}")
    ctx.check(len(dec.fields) == m.nbc, "wrong-data",
              lambda: f"{len(dec.fields)} fields of conditions in the file, expected {m.nbc}")
    for b, f in enumerate(dec.fields):
        for i, k, lab, own, par in f:
            w = m.label[i][b][k]
            if w == "":
                # what re2torea writes for a face without a condition, or a blank
                ctx.check(lab == "" or (lab == "E" and not any(par)), "wrong-data",
                          lambda: f"element {i} face {k} field {b}: the file has {lab!r} {par}, "
                          "expected no condition")
                continue
            ctx.check(lab == w and own[0] == i + 1 and own[1] in (None, k + 1)
                      and near(par, m.bcpar[i, b, k]), "wrong-data",
                      lambda: f"element {i} face {k} field {b}: the file has {lab!r} {own} {par}, "
                      f"expected {w!r} {m.bcpar[i, b, k].tolist()}")


# ------------------------------------------------------------------ a million elements
HUGE = 1_000_000


def huge_mesh(sut, seed, n):
    """A 2D mesh of n elements, all but a few of which are one and the same object."""
    spec = {"ndim": 2, "nel": 16, "nbc": 1, "endian": "little", "dtype": "float64", "seed": seed,
            "geo": "normal", "curv": 0.3, "fill": 0.9, "intern": 0.3}
    m = gens.build_mesh(spec, "rea")
    m.bcpar[0, 0, 0, :2], m.label[0][0][0] = (n - 1, 3), "E"
    m.bcpar[15, 0, 3, :2], m.label[15][0][3] = (99_999, 2), "P"
    d = gens.hexa_mesh(sut, spec, m)
    plain = sut.core.HexaData(2, 1, [2, 2, 1], [2, 0, 0, 0, 0], 1).elem[0]
    plain.pos[0, 0], plain.pos[1, 0] = [[0, 1], [0, 1]], [[0, 0], [1, 1]]
    where = [0, 1, 2, 998, 999, 1000, 9999, 99_998, 99_999, 100_000, 100_001, n // 2 * 2 - n // 4, n - 10,
             n - 3, n - 2, n - 1]
    where = sorted(set(where))
    d.elem = [plain] * n
    d.nel = n
    src = gens.hexa_mesh(sut, spec, m).elem
    for j, w in enumerate(where):
        for row in src[j].bcs[0]:
            if row[0] != "":
                row[1] = w + 1
        d.elem[w] = src[j]
    return spec, m, d, where


def run_huge(sut, scn, ctx):
    n = scn["huge"]
    spec, m, d, where = huge_mesh(sut, scn["seed"], n)
    path = ctx.path("mesh.rea")
    from ..simfs import SimFS

    with SimFS(ctx, {"frag": {"seed": 1, "max": 1 << 22}, "bufsize": 1 << 20}):
        out = iosim.call(sut.neksuite.writerea, path, d)
    ctx.check(out.ok, "spurious-failure", lambda: f"writerea {out!r} without any fault")
    place = {w: j for j, w in enumerate(where)}
    with open(path, "r", encoding="ascii") as f:
        try:
            scan_huge(ctx, f, m, place, n)
        except (refnek.FormatError, ValueError, IndexError) as e:
            ctx.check(False, "lost-data", f"the file is not a complete .rea file: {e}")
    out = iosim.call(sut.neksuite.readrea, path)
    ctx.check(out.ok, "unreadable", lambda: f"the reader refuses the file just written: {out!r}")
    check_huge_read(ctx, out.value, m, where, n)
    ctx.nontrivial = True
    ctx.probe("million_elements" if n >= 1_000_000 else "hundred_thousand_elements")


def check_huge_read(ctx, r, m, where, n):
    ctx.check(r.nel == n and r.nbc == 1 and r.ndim == 2, "wrong-read-back", "sizes")
    for j, w in enumerate(where):
        el = r.elem[w]
        ctx.check(near(el.pos, m.pos[j]), "wrong-read-back", lambda: f"vertices of element {w}")
        ctx.check(list(el.ccurv) == m.ccurv[j] and near(el.curv[[t != "" for t in m.ccurv[j]]],
                  m.curv[j][[t != "" for t in m.ccurv[j]]]), "wrong-read-back",
                  lambda: f"curves of element {w}: {el.ccurv} {el.curv[:4]}")
        for k in range(4):
            row = el.bcs[0, k].tolist()
            lab = m.label[j][0][k]
            ok = row[0] == lab and (lab == "" or (row[1:3] == (w + 1, k + 1)
                                                  and near(row[3:], m.bcpar[j, 0, k])))
            ctx.check(ok, "wrong-read-back", lambda: f"condition of element {w} face {k}: {row}")
    ctx.check(int(r.ncurv) == len(refnek.curves_of(m)), "wrong-read-back", "ncurv")
    ctx.check(all(t == "" for t in r.elem[77].ccurv) and r.elem[77].bcs[0, 0][0] == "",
              "wrong-read-back", "a plain element has gained something")


def scan_huge(ctx, f, m, place, n):
    """Every line of the file is scanned; those of the distinguished elements are compared."""
    need = refnek._need
    nxt = f.readline
    nxt(), nxt()
    need(int(nxt().split()[0]) == 2, "dimension")
    for _ in range(3):
        for _ in range(int(nxt().split()[0])):
            need(nxt() != "", "header")
    nxt(), nxt()
    w = nxt().split()
    need([int(x) for x in w[:3]] == [n, 2, n], f"element count line {w}")
    plain = ("  0.000000e+00  1.000000e+00  1.000000e+00  0.000000e+00\n",
             "  0.000000e+00  0.000000e+00  1.000000e+00  1.000000e+00\n")
    for i in range(n):
        nxt()
        a, b = nxt(), nxt()
        if i in place:
            p = m.pos[place[i]]
            for ln, dim in ((a, 0), (b, 1)):
                v = [float(x) for x in ln.split()]
                ctx.check(near(v, [p[dim, 0, 0, 0], p[dim, 0, 0, 1], p[dim, 0, 1, 1], p[dim, 0, 1, 0]]),
                          "wrong-data", lambda: f"vertices of element {i}: {ln!r}")
        elif (a, b) != plain:
            v = [float(x) for x in (a + b).split()]
            need(v == [0, 1, 1, 0, 0, 0, 1, 1], f"vertices of element {i}: {a!r} {b!r}")
    need("CURVED" in nxt(), "curve header")
    cv = {}
    million = n >= 1_000_000
    c1 = 12 if million else 8
    for _ in range(int(nxt().split()[0])):
        ln = nxt().rstrip("\n")
        k, i = refnek._int(ln, 0, 2, "edge"), refnek._int(ln, 2, c1, "element")
        par = [refnek._fix(ln, c1 + 14 * j, c1 + 14 + 14 * j, "parameter") for j in range(5)]
        need(ln[c1 + 70:c1 + 71] == " " and len(ln) >= c1 + 72, f"curve line {ln!r}")
        cv[i - 1, k - 1] = (ln[c1 + 71:c1 + 72], par)
    want = {(w, k): (m.ccurv[j][k], m.curv[j, k]) for w, j in place.items() for k in range(12)
            if m.ccurv[j][k] != ""}
    ctx.check(set(cv) == set(want), "wrong-data", lambda: f"curved sides of {sorted(cv)}")
    for key, (t, p) in want.items():
        ctx.check(cv[key][0] == t and near(cv[key][1], p), "wrong-data", lambda: f"curve {key}: {cv[key]}")
    need("BOUNDARY" in nxt(), "conditions header")
    need("FLUID" in nxt(), "fluid conditions header")
    zeros = (" 0.00000000000e+00" if million else "  0.000000e+00") * 5
    a, wd = (16, 18) if million else (10, 14)
    for i in range(n):
        for k in range(4):
            ln = nxt().rstrip("\n")
            if i not in place and ln == (" E  %11d%1d" % (i + 1, k + 1) if million
                                         else " E  %6d" % (i + 1)) + zeros:
                continue
            need(ln[:1] == " " and len(ln) >= a + 5 * wd, f"condition line {ln!r}")
            own = (refnek._int(ln, 4, 15, "own element"), refnek._int(ln, 15, 16, "own face")) if million \
                else (refnek._int(ln, 4, 10, "own element"), k + 1)
            par = [refnek._fix(ln, a + wd * j, a + wd + wd * j, "parameter") for j in range(5)]
            lab = ln[1:4].strip()
            w = m.label[place[i]][0][k] if i in place else ""
            if w == "":
                ctx.check(lab == "" or (lab == "E" and not any(par)), "wrong-data",
                          lambda: f"element {i} face {k}: {ln!r}, expected no condition")
            else:
                ctx.check(lab == w and own == (i + 1, k + 1) and near(par, m.bcpar[place[i], 0, k]),
                          "wrong-data", lambda: f"element {i} face {k}: {ln!r}, expected {w}")
    need("NO THERMAL" in nxt(), "thermal conditions header")
    need(refnek._rea_tail_complete(f.read().split("\n")[:-1]), "the rest of the file")
