"""C13: mesh operations conserve elements, geometry, curvature and boundary labels."""

from .. import hist, meshmodel as mm

RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("A scenario is a history of 2 to 14 mesh operations (boxes, discs, extrusion, refined extrusion, keeping "
        "subsets, cutting and merging, stacking copies, deleting and generating internal conditions, rotating, "
        "mapping, curving edges, saving, crashing and reloading) with randomly failing callbacks, refused calls and crashes, "
        "during saves among others; after every operation the mesh is compared with the executable reference "
        "model.  It is non-trivial if at least two operations were applied to a mesh after its generation.")
REAL = ["pymech.meshtools, pymech.core, pymech.neksuite.mesh (code under test)", "numpy, CPython's file objects",
        "real files in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO)", "builtins.open / io.open", "the caller's functions (which fail on request)"]
ASSUMPTIONS = ["inputs are those for which the documentation defines a result: merged meshes have the same number of "
               "fields and periodic faces meet periodic faces; refined extrusion splits each intermediate element "
               "with two vertices on each side and not across periodic partners",
               "coordinates are compared up to rounding (1e-9 of the mesh size; 1e-6 after a .rea file)",
               "curved sides of elements divided by refined extrusion are not specified"]
STATE = "distinct (operation, outcome, size class) tuples"


def gen(rng, tier, i):
    if i % 400 == 40:
        return {"steps": hist.gen_huge_history(rng, i // 400), "big": "huge", "wall": 500}
    if i % 50 == 37:
        return {"steps": hist.gen_big_history(rng), "big": True, "wall": 250}
    if i % 20 == 11:
        return {"steps": hist.gen_arc_history(rng)}
    n = rng.weighted((2, rng.randint(2, 4)), (3, rng.randint(4, 8)), (1, rng.randint(8, 14)))
    return {"steps": hist.gen_history(rng, n)}


def shrink(scn):
    for s in hist.shrink_history(scn["steps"]):
        yield dict(scn, steps=s)


def check(world, d, m, info):
    ctx = world.ctx
    bad = mm.diff(d, m, info.get("gtol") or world.gtol(m), info.get("rtol", 0.0))
    ctx.check(bad is None, bad[0] if bad else "",
              lambda: f"after {world.now} (step {world.step}): {bad[1]}")
    ctx.state(world.now, m.ndim, min(m.nel, 50) // 5, m.nbc)


def run(sut, scn, ctx):
    w = hist.World(sut, ctx, check, big=scn.get("big", False))
    done = 0
    for k, st in enumerate(scn["steps"]):
        w.now, w.step = st["op"], k + 1
        if w.do(st) and st["op"] not in ("box", "circle"):
            done += 1
            # nothing else changes: operations do not reach into other meshes
            for r in w.regs if scn.get("big") != "huge" else ():
                w.verify(r, {"gtol": 1e-6 * max(1.0, abs(r[1].pos).max()) if r[1].nel else 1.0})
    if done >= 2:
        ctx.nontrivial = True
