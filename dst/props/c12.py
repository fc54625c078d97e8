"""C12: mesh connectivity stays closed under every history of mesh operations."""

from .. import hist, meshmodel as mm

RUNS = {"quick": 2500, "thorough": 40000}
RULE = ("A scenario is a history of 2 to 14 mesh operations (generation, extrusion, refined extrusion, cutting and "
        "merging, stacking, keeping subsets, deleting and generating internal conditions, rotating, mapping, saving, "
        "crashing and reloading) with failing callbacks, refused calls and crashes; after every operation the "
        "connectivity of every mesh is judged by an independent geometric oracle and by check_connectivity, and the "
        "reported number of connections is compared with the reference model's.  It is non-trivial if at least two "
        "operations were applied after a generation and links were present.")
REAL = ["pymech.meshtools, pymech.core, pymech.neksuite.mesh (code under test)", "numpy, CPython's file objects",
        "real files in memory-backed scratch storage"]
STUB = ["raw file object (SimFileIO)", "builtins.open / io.open", "the caller's functions (which fail on request)"]
ASSUMPTIONS = ["inputs are those for which the documentation defines a result (see C13)",
               "two faces coincide if their centres are closer than 1e-3 of the shortest edge of both elements"]
STATE = "distinct (operation, outcome, size class) tuples"

WEIGHTS = dict(hist.WEIGHTS, cut=5, stack=3.5, merge=2, regen=2.5, refine=3, curve=0, refuse=0.4, audit=1)


def gen(rng, tier, i):
    if i % 1200 == 40:
        return {"steps": hist.gen_huge_history(rng, i // 1200), "big": "huge", "wall": 500}
    if i % 50 == 37:
        return {"steps": hist.gen_big_history(rng, WEIGHTS), "big": True, "wall": 250}
    n = rng.weighted((2, rng.randint(2, 4)), (3, rng.randint(4, 8)), (1, rng.randint(8, 14)))
    return {"steps": hist.gen_history(rng, n, WEIGHTS)}


def shrink(scn):
    for s in hist.shrink_history(scn["steps"]):
        yield dict(scn, steps=s)


def check(world, d, m, info):
    ctx = world.ctx
    if "count" in info:
        got, want = info["count"]
        ctx.check(got == want, "count", lambda: f"{world.now} (step {world.step}) reported {got!r} connections, "
                                                f"it made {want}")
    bad = mm.closure(d, full=m.full)
    ctx.check(bad is None, bad[0] if bad else "", lambda: f"after {world.now} (step {world.step}): {bad[1]}")
    if m.nel <= 64 or world.max_nel > 1000:
        out = hist.call(d.check_connectivity)
        ctx.check(out.ok and out.value is True, "audit",
                  lambda: f"after {world.now} (step {world.step}): check_connectivity {out!r} on a sound mesh")
    # a link that the history implies is there
    nlink = sum(1 for _ in m.links())
    got = sum(1 for el in d.elem for x in el.bcs.ravel() if x[0] in ("E", "P"))
    ctx.check(got == nlink, "lost-link", lambda: f"after {world.now} (step {world.step}): {got} internal and periodic "
                                                 f"conditions, {nlink} expected")
    if nlink:
        world.linked = True
    ctx.state(world.now, m.ndim, min(m.nel, 50) // 5, m.nbc, bool(nlink))


def run(sut, scn, ctx):
    w = hist.World(sut, ctx, check, big=scn.get("big", False))
    w.linked, w.exact = False, True
    done = 0
    for k, st in enumerate(scn["steps"]):
        w.now, w.step = st["op"], k + 1
        if w.do(st) and st["op"] not in ("box", "circle"):
            done += 1
            for r in w.regs if scn.get("big") != "huge" else ():
                w.verify(r)
    if done >= 2 and w.linked:
        ctx.nontrivial = True
